"""C20: encodings of keys and numbers."""
from vlib import *


def run(prop):
    ck = Check(prop)
    m = ck.model('DerMC')
    items = [dict(x, t=t) for t in ('ENC', 'BAD') for x in m.printed(t)]
    tr = ck.drive('der.py', 'der.ndjson', inp=items, timeout=600)
    ck.validate('DerTrace', tr)
    ck.assumptions = ['numbers are non-negative; magnitudes up to 8192 bits', 'packed arrays below 64 KiB']
    return ck.finish()
