#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).

seed.py plant FILE.py   FILE defines ID, PROP, EDITS [(path, old, new)], DEMO (python text), NEEDS, BREAKS
seed.py run [ID...]     run the property's check against a patched copy of /repo, 4 at a time
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')


def sh(cmd, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    bugs = ns['BUGS']
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, bugs))


def one(bug):
    bid = bug['id']
    d = os.path.join(SEEDED, bid)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        os.makedirs(d, exist_ok=True)
        repo = os.path.join(tmp, 'repo')
        sh('git clone -q ${SEED_REPO:-/repo} %s' % repo)      # /repo itself stays as it is: vcheck may be looking
        for (f, old, new) in bug['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'EDIT DOES NOT MATCH ONCE (%d): %s' % (s.count(old), old))
                return
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git -C %s diff' % repo)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(PRELUDE + bug['demo'])
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nW="$(mktemp -d)"\n'
                    'trap \'rm -rf -- "$W"\' EXIT\n'
                    'timeout 250 env PYTHONPATH="$PWD/python/src" SCRATCH="$W" REPO="$PWD" '
                    '/opt/venv/bin/python -B -W ignore "$D/demo.py"\n')
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc1, o1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=repo)
        t = open('/opt/vp/test.sh').read().replace('/opt/vp/reports', tmp + '/rep').replace('/repo', repo)
        open(tmp + '/test.sh', 'w').write(t)
        rct, ot = sh(['bash', tmp + '/test.sh', os.path.join(tmp, 'o.json')])
        res = json.load(open(os.path.join(tmp, 'o.json')))
        base = json.load(open('/opt/vp/BASELINE.json'))
        sh('git -C %s checkout -- .' % repo)
        rc0, o0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=repo)
        passed = set(res.get('passed', res.get('pass', [])))
        stable = base if isinstance(base, list) else base.get('stable', base.get('passed', base.get('tests', [])))
        miss = [t for t in stable if t not in passed]
        ok = rc0 == 0 and rc1 != 0 and not miss
        print(bid, 'OK' if ok else 'REJECTED clean=%d patched=%d miss=%s\n%s\n%s' % (rc0, rc1, miss[:3], o0[-800:], o1[-800:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


PRELUDE = '''import os, sys, tempfile, time, warnings
if not hasattr(time, 'clock'):
  time.clock = time.perf_counter
import Crypto.Random  # the random generator of the old PyCrypto does not work in Python 3.12
class _Rng(object):
  def read(self, n): return os.urandom(n)
  def flush(self): pass
Crypto.Random.new = lambda *a, **k: _Rng()
Crypto.Random.get_random_bytes = os.urandom
warnings.simplefilter('ignore')
S = os.environ['SCRATCH']
REPO = os.environ['REPO']
TD = os.path.join(REPO, 'python', 'testdata')
_out = sys.stdout
sys.stdout = open(os.devnull, 'w')
from keyczar import keyczar, keyczart, keyinfo, keydata, keys, readers, writers, util, errors
P, A, I = keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE
def mk(name, purpose=keyinfo.DECRYPT_AND_ENCRYPT, asym=None):
    d = os.path.join(S, name)
    os.mkdir(d)
    keyczart.Create(d, name, purpose, asym)
    return d
def check(cond, what):
    if not cond:
        _out.write('BROKEN: %s\\n' % what)
        _out.flush()
        os._exit(1)
def raises(kind, fn, *a):
    try:
        fn(*a)
    except kind:
        return True
    except Exception:
        return False
    return False
'''


def runone(bid, prop=None):
    d = os.path.join(SEEDED, bid)
    prop = prop or json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='seedrun')
    try:
        sh('cd ${SEED_REPO:-/repo} && cp -a python interop %s/ && mkdir -p %s/java %s/cpp/src/keyczar && cp -a java/code %s/java/ && cp -a cpp/src/keyczar/data %s/cpp/src/keyczar/' % ((tmp,) * 5))
        rc, o = sh('cd %s && git init -q . && git apply %s/patch.diff' % (tmp, d))
        if rc:
            return bid, prop, 'APPLY FAILED ' + o
        e = dict(os.environ, VERIF_REPO=tmp, VERIF_EVID=os.path.join(tmp, 'ev'))
        e.setdefault('VERIF_SEED', '1')
        rc, o = sh([sys.executable, os.path.join(V, 'check.py'), prop], env=e, cwd=V)
        cl = [x for x in o.splitlines() if x.startswith('# ')]
        return bid, prop, ('CAUGHT ' if rc == 1 else 'MISSED ' if rc == 0 else 'ERROR ') + (cl[0] if cl else o[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'plant':
        for f in sys.argv[2:]:
            plant(f)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(runone, ids):
                print(*r, flush=True)
