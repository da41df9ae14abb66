"""C13: sessions."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('SessionMC', 'SessionMC2' if deep else 'SessionMC', workers=8, heap='20g' if deep else '6g')
    h = ck.model('SessionHist', args=['-simulate', 'num=%d' % (600 if deep else 60), '-depth', '42', '-seed', str(SEED)])
    tr = ck.drive('session.py', 'session.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=850)
    ck.validate('SessionTrace', tr)
    ck.assumptions = ['bounded model: 2 sessions, 2 (thorough 3) messages, 2 key versions per set; simulated histories with up to 6 sessions, '
                      '14 messages and 8 decrypters, every pair opened at the end']
    return ck.finish()
