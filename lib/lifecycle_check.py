"""C01, C02: lifecycle model, exhaustive transition replay, random histories."""
import json
from vlib import *


def edges_and_hists(ck, num_hist):
    r = ck.model('KeySetMC', 'KeySetEdges', workers=1)
    seen, edges = set(), []
    for e in r.printed('EDGE'):
        k = json.dumps(e, sort_keys=True)
        if k not in seen and all(v['n'] <= 3 for v in e['pre']['vers']):
            seen.add(k)
            edges.append({'edge': e})
    h = ck.model('KeySetHist', args=['-simulate', 'num=%d' % num_hist, '-depth', '31', '-seed', str(SEED)])
    hists, seenh = [], set()
    for x in h.printed('HIST'):
        k = json.dumps(x)
        if k not in seenh:
            seenh.add(k)
            hists.append({'hist': x})
    return edges, hists


def run(prop):
    ck = Check(prop)
    ck.model('KeySetMC', workers=8)
    edges, hists = edges_and_hists(ck, 400 if TIER == 'thorough' else 40)
    tr = ck.drive('lifecycle.py', 'lifecycle.ndjson', inp=edges + hists, timeout=700)
    ck.validate('KeySetTrace', tr)
    ck.assumptions = ['bounded model: at most 4 versions and 5 keys; replayed transitions start from all '
                      'states with at most 3 versions', 'RSA/DSA generation of the library is replaced by a '
                      'pool of fixture keys']
    return ck.finish()
