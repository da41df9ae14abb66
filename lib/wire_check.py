"""C14: wire and storage format."""
from vlib import *


def run(prop):
    ck = Check(prop)
    ck.model('WireMC', 'WireMC2' if TIER == 'thorough' else 'WireMC')
    for s in range(SEED, SEED + (4 if TIER == 'thorough' else 1)):
        tr = ck.drive('wire.py', 'wire%d.ndjson' % s, args=['--seed', str(s)], timeout=800)
        ck.validate('WireTrace', tr)
    ck.assumptions = ['SHA-1, HMAC, AES-CBC, modular exponentiation, MGF1 and DSA arithmetic are uninterpreted in the '
                      'specification and evaluated by lib/refcrypto.py',
                      'data lengths up to 257 bytes (quick) / 4097 (thorough); RSA 1024-4096, DSA 1024, AES 128-256']
    return ck.finish()
