"""C19: the keyczart command line."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('CmdLineMC', 'CmdLineMC2' if deep else 'CmdLineMC', workers=8)
    h = ck.model('CmdLineMC', 'CmdLineHist', args=['-simulate', 'num=%d' % (900 if deep else 100), '-depth', '600', '-seed', str(SEED)])
    tr = ck.drive('cmdline.py', 'cmdline.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=850)
    ck.validate('CmdLineTrace', tr)
    ck.assumptions = ['bounded model: every set of up to 3 arguments out of a vocabulary of 16 (thorough 22), one key set, 2 (thorough 3) keys; '
                      'simulated sessions of 30 lines on 3 key sets with up to 13 arguments per line',
                      'RSA/DSA keys come from a pool of fixture keys']
    return ck.finish()
