"""C08: encrypted key sets."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('SealMC', 'SealMC2' if deep else 'SealMC', workers=8)
    h = ck.model('SealHist', args=['-simulate', 'num=%d' % (400 if deep else 50), '-depth', '25', '-seed', str(SEED)])
    tr = ck.drive('seal.py', 'seal.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=850)
    ck.validate('SealTrace', tr)
    ck.assumptions = ['bounded model: 2 (thorough 3) versions, crypter with up to 3 keys; simulated histories of 24 steps with up to 9 crypter keys']
    return ck.finish()
