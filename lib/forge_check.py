"""C05, C06, C17: altered, forged and malformed input."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    m = ck.model('ForgeMC', 'ForgeMC2' if deep else 'ForgeMC')
    inp = [{'aes': m.printed('AES') if prop == 'C05' else [], 'sig': m.printed('SIG') if prop == 'C06' else []}]
    for s in range(SEED, SEED + (3 if deep else 1)):
        tr = ck.drive('forge.py', 'forge%d.ndjson' % s, args=['--seed', str(s)], inp=inp, timeout=850)
        ck.validate('ForgeTrace', tr)
    ck.assumptions = ['ideal MAC and signature in the model; the replay uses real HMAC-SHA1, RSA-1024/2048 and DSA-1024',
                      'the history of honest outputs is complete: every output of the keys in a run is recorded']
    return ck.finish()
