"""C10, C11: streaming encryption and decryption."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('StreamMC', 'StreamMC2' if deep else 'StreamMC', workers=8)
    ck.model('StreamMC', 'StreamMCD2' if deep else 'StreamMCD', workers=8)
    num = 6000 if deep else 600
    h = ck.model('StreamHist', 'StreamHist' if prop == 'C10' else 'StreamHistD',
                 args=['-simulate', 'num=%d' % num, '-depth', '400', '-seed', str(SEED)])
    tr = ck.drive('stream.py', 'stream.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=850)
    ck.validate('StreamTrace', tr)
    ck.assumptions = ['bounded model: plaintexts up to 7 bytes of 3-byte blocks (thorough 8), every delivery and read size; '
                      'gaps are finite (a source that never delivers blocks the reader by design)']
    return ck.finish()
