"""C09: public key export."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('ExportMC', 'ExportMC2' if deep else 'ExportMC', workers=8)
    h = ck.model('ExportMC', 'ExportHist', args=['-simulate', 'num=%d' % (200 if deep else 40), '-depth', '19', '-seed', str(SEED)])
    tr = ck.drive('export.py', 'export.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=850)
    ck.validate('ExportTrace', tr)
    ck.assumptions = ['bounded model: 3 versions; simulated histories of 18 steps', 'RSA/DSA keys come from a pool of fixture keys']
    return ck.finish()
