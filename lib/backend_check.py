"""C21: storage backends."""
from vlib import *
from lifecycle_check import edges_and_hists


def run(prop):
    ck = Check(prop)
    ck.model('BackendMC', workers=8)
    h = ck.model('KeySetHist', args=['-simulate', 'num=%d' % (300 if TIER == 'thorough' else 40), '-depth', '31', '-seed', str(SEED + 50)])
    hists, seen = [], set()
    for x in h.printed('HIST'):
        if json.dumps(x) not in seen:
            seen.add(json.dumps(x))
            hists.append({'hist': x})
    tr = ck.drive('backend.py', 'backend.ndjson', inp=hists, timeout=700)
    ck.validate('BackendTrace', tr)
    ck.assumptions = ['three plug-in backends (one of which can fail to open) that keep their sets in memory, found through KEYCZAR_BACKEND_PATHS; each call of a backend is '
                      'atomic or fails without effect', 'RSA/DSA keys come from a pool of fixture keys']
    return ck.finish()
