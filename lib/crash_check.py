"""C15: crash points, failing calls and concurrent loads."""
import json
import os
import subprocess
from vlib import *


def run(prop):
    ck = Check(prop, level='model_checking')
    deep = TIER == 'thorough'
    ck.model('CrashMC', 'CrashMC2' if deep else 'CrashMC', workers=8)
    if deep:
        # the invariants do tell a sound protocol from unsound ones
        for p in ('inplace', 'metafirst', 'rmfirst'):
            r = tlc('CrashMC', 'CrashMC_' + p, workers=4)
            if 'is violated' not in r.out:
                raise MachineryError('protocol %s is not refuted:\n%s' % (p, r.out[-2000:]))
    e = ck.model('CrashMC', 'CrashEdges', workers=1)
    seen = {}
    for x in e.printed('EDGE'):
        seen.setdefault(json.dumps(x, sort_keys=True), x)
    so = os.path.join(ck.tmp, 'fsx.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(VERIF, 'drivers', 'fsx.c'), '-ldl'], check=True)
    tr = ck.drive('crash.py', 'crash.ndjson', inp=[{'edge': seen[k]} for k in sorted(seen)], timeout=850,
                  env={'LD_PRELOAD': so})
    ck.validate('CrashTrace', tr)
    ck.assumptions = ['crash = the process stops before, or in the middle of, one of its file-system calls; loss of '
                      'unwritten disk caches in a power failure is not modelled',
                      'one command at a time; a load overlaps at most one command',
                      'RSA/DSA keys come from a pool of fixture keys']
    return ck.finish()
