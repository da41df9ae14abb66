"""C16: the interoperability matrix."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('InteropMC', 'InteropMC2' if deep else 'InteropMC', workers=8)
    h = ck.model('InteropMC', 'InteropCfg', args=['-simulate', 'num=%d' % (400 if deep else 64), '-depth', '60', '-seed', str(SEED)])
    tr = ck.drive('interop.py', 'interop.ndjson', inp=[{'cfg': x} for x in h.printed('CFG')], timeout=850)
    ck.validate('InteropTrace', tr)
    ck.assumptions = ['configurations: up to 3 algorithms, 3 operations, 2 implementations and 3 ignore rules, drawn from '
                      'the specification, plus the configuration in the repository',
                      'implementations are stand-ins that log their calls and fail on demand',
                      'option names of generate and test options are disjoint within a key set']
    return ck.finish()
