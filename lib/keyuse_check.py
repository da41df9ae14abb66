"""C03, C04: use of key sets across rotation."""
from vlib import *


def run(prop):
    ck = Check(prop)
    ck.model('KeyUseMC', 'KeyUseMC2' if TIER == 'thorough' else 'KeyUseMC', workers=8)
    num = 600 if TIER == 'thorough' else 100
    h = ck.model('KeyUseHist', args=['-simulate', 'num=%d' % num, '-depth', '27', '-seed', str(SEED)])
    tr = ck.drive('keyuse.py', 'keyuse.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=800)
    ck.validate('KeyUseTrace', tr)
    ck.assumptions = ['bounded model: 3 versions, 2 outputs per handle history; simulated histories of 26 steps']
    return ck.finish()
