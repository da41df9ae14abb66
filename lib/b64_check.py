"""C12: incremental Base64."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('B64MC', 'B64MC2' if deep else 'B64MC', workers=8)
    h = ck.model('B64Hist', args=['-simulate', 'num=%d' % (8000 if deep else 1200), '-depth', '200', '-seed', str(SEED)])
    tr = ck.drive('b64.py', 'b64.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=850)
    ck.validate('B64Trace', tr)
    ck.assumptions = ['bounded model: up to 5 bytes (thorough 7) with white space, gaps, every split and request size; characters outside '
                      'the alphabet are unspecified (the code ignores them)']
    return ck.finish()
