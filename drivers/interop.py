"""C16: the interop runner (the real command line tool) in a scratch directory,
with stand-ins for the implementations that log every call."""
import collections
import subprocess
from drv import *

T = Trace(args.out)
FAKE = os.path.join(WORK, 'fakeimpl')
subprocess.run(['gcc', '-O1', '-o', FAKE, os.path.join(VERIF, 'drivers', 'fakeimpl.c')], check=True)
TOOL = os.path.join(REPO, 'interop', 'interop.py')
MACRO = '@ALL_SIGNING_KEYS'
COUNT = dict(runs=0, calls=0)


def obj(x):
    return x if isinstance(x, dict) else {}


def to_files(g, root, log, fails):
    """the configuration files of interop.py"""
    lst = lambda v: 'ALL_SIGNING_KEYS' if v == [MACRO] else v
    opts = lambda f: collections.OrderedDict((k, lst(v)) for k, v in obj(f).items())
    os.mkdir(os.path.join(root, 'config'))

    def w(name, x):
        with open(os.path.join(root, 'config', name), 'w') as f:
            json.dump(x, f)
    w('implementations.json', {i: [FAKE, log, i, fails, os.path.join(root, 'keys')] for i in g['impls']})
    w('interopAlgorithms.json', {a['name']: {'purpose': a['purpose'], 'asymmetric': a['asym'], 'keySizes': a['sizes'],
                                             'createFlags': a['cflags'], 'addKeyFlags': a['aflags']} for a in g['algs']})
    w('operations.json', {o['name']: {'keytype': o['keytype'], 'generateOptions': opts(o['gen']),
                                      'testOptions': opts(o['test'])} for o in g['ops']})
    w('keySetOptions.json', {p: {'generateOptions': opts(x['gen']), 'testOptions': opts(x['test'])}
                             for p, x in g['kso'].items()})
    w('ignoredTests.json', [{'implementation': r['impl'], 'operation': r['op'], 'algorithm': r['alg'],
                             'options': {k: ('*' if v == ['*'] and rng.random() < .5 else v) for k, v in rng.sample(list(obj(r['opts']).items()), len(obj(r['opts'])))},
                             'reason': 'because'} for r in g['rules']])


def from_repo():
    """the configuration that comes with the repository"""
    c = lambda n: json.load(open(os.path.join(REPO, 'interop', 'config', n)))
    lst = lambda v: [MACRO] if v == 'ALL_SIGNING_KEYS' else v
    opts = lambda f: {k: lst(v) for k, v in f.items()}
    return dict(
        impls=list(c('implementations.json')),
        algs=[dict(name=k, purpose=a['purpose'], asym=a['asymmetric'], sizes=a['keySizes'], cflags=a['createFlags'],
                   aflags=a['addKeyFlags']) for k, a in c('interopAlgorithms.json').items()],
        ops=[dict(name=k, keytype=o['keytype'], gen=opts(o['generateOptions']), test=opts(o['testOptions']))
             for k, o in c('operations.json').items()],
        kso={p: dict(gen=opts(x['generateOptions']), test=opts(x['testOptions'])) for p, x in c('keySetOptions.json').items()},
        rules=[dict(impl=r['implementation'], op=r['operation'], alg=r['algorithm'],
                    opts={k: [v] if isinstance(v, str) else v for k, v in r['options'].items()})
               for r in c('ignoredTests.json')])


def norm(g):
    """one shape for all configurations: option sets are lists of [name, values]"""
    o = lambda f: [dict(k=k, v=v) for k, v in obj(f).items()]
    return dict(g, kso={p: dict(gen=o(x['gen']), test=o(x['test'])) for p, x in g['kso'].items()},
                ops=[dict(x, gen=o(x['gen']), test=o(x['test'])) for x in g['ops']],
                rules=[dict(r, opts=o(r['opts'])) for r in g['rules']])


def pairs(f):
    if f is None:
        return []
    return [dict(k=k, v=str(v)) for k, v in obj(f).items()] if isinstance(f, dict) else [dict(k='?', v=str(type(f)))]


def sentinels(root, g):
    """files that have to stay, and files in key directories that have to go"""
    stay, go = {}, []

    def put(p, keep=True):
        p = os.path.join(root, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('x')
        if keep:
            stay[p] = 'x'
        else:
            go.append(p)
    put('keys/precious')
    put('outside/file')
    put('keys/other/aes128/1')
    for i in g['impls']:
        put('keys/%s/file' % i)
        put('keys/%s/unrelated/1' % i)
        put('keys/%s/aes128x/meta' % i)
        for a in g['algs']:
            for s in a['sizes']:
                nm = 'keys/%s/%s%d' % (i, a['name'], s)
                if rng.random() < .5:
                    put(nm + '/old', False)
                    os.symlink(os.path.join(root, 'outside', 'file'), os.path.join(root, nm, 'link'))
                if rng.random() < .3:
                    put(nm + 'public/1', False)
                if rng.random() < .3:
                    put(nm + 'aes128/meta', False)
    return stay, go


def run(g, mode, argv, fail=None):
    root = newdir('io')
    log, fails = os.path.join(root, 'log'), os.path.join(root, 'fails')
    to_files(g, root, log, fails)
    open(log, 'w').close()
    with open(fails, 'w') as f:
        if fail:
            f.write('\t'.join(fail) + '\n')
    stay, go = sentinels(root, g)
    e = dict(os.environ)
    e['PYTHONPATH'] = ''
    p = subprocess.run([sys.executable, '-B', TOOL] + argv, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300, env=e, universal_newlines=True)
    T.ev('reset', g=norm(g), mode=mode, fail=fail or [])
    COUNT['runs'] += 1
    data = open(log, 'rb').read()
    off = 0
    parts = data.split(b'\0')
    ntest_failed = ngen_failed = ncreate_failed = 0
    for i in range(0, len(parts) - 1, 4):
        failed, impl, js, ls = [x.decode('utf-8', 'replace') for x in parts[i:i + 4]]
        here = off
        off += sum(len(x) + 1 for x in parts[i:i + 4])
        COUNT['calls'] += 1
        try:
            j = json.loads(js)
        except ValueError:
            j = {'command': '?' + js}
        files = [os.path.relpath(x[1:], root) for x in ls.splitlines() if x[0] == 'f']
        dirs = [os.path.relpath(x[1:], root) for x in ls.splitlines() if x[0] == 'd']
        cmds = []
        ready = True
        for c in j.get('keyczartCommands', []):
            cmds.append(dict(cmd=c[0], flags=c[1:]))
            for fl in c[1:]:
                for pre in ('--location=', '--destination='):
                    if fl.startswith(pre):
                        d = fl[len(pre):]
                        if d not in dirs or any(x.startswith(d + '/') for x in files):
                            ready = False
        out = j.get('output')
        T.ev('call', impl=impl, cmd=str(j.get('command')), op=str(j.get('operation', '')), alg=str(j.get('algorithm', '')),
             gopts=pairs(j.get('generateOptions')), topts=pairs(j.get('testOptions')), keyPath=str(j.get('keyPath', '')),
             data=str(j.get('testData', '')), output=out.get('output', '?') if isinstance(out, dict) else str(out),
             extra=sorted(set(j) - {'command', 'operation', 'algorithm', 'generateOptions', 'testOptions', 'keyPath', 'testData',
                                    'output', 'keyczartCommands'}),
             cmds=cmds, ready=ready, tag=str(here), failed=failed == '1')
    lost = [os.path.relpath(x, root) for x in stay if not os.path.exists(x) or open(x).read() != 'x']
    gone = [os.path.relpath(x, root) for x in go if not os.path.exists(x)]
    ran = bad = -1
    for line in p.stdout.splitlines():
        w = line.split()
        if line.startswith('Ran ') and w[2].startswith('test'):
            ran = int(w[1])
            bad = 0
        if line.startswith('FAILED ('):
            bad = sum(int(x.split('=')[1]) for x in line[8:-1].split(', ') if x.split('=')[0] in ('failures', 'errors'))
    lines = [x for x in p.stdout.splitlines() if x.startswith('test_')] if mode == 'display' else []
    opt = []
    if mode == 'options':
        which, op = '', ''
        for x in p.stdout.splitlines():
            if x.startswith('Generate Options'):
                which = 'gen'
            elif x.startswith('Test Options'):
                which = 'test'
            elif x.startswith('    '):
                k, v = x[4:].split(': ', 1)
                import ast
                opt.append(dict(which=which, op=op, k=k, v=ast.literal_eval(v)))
            elif x.startswith('  '):
                op = x.strip().rstrip(':')
    T.ev('end', mode=mode, rc=p.returncode, ran=ran, failed=bad, lost=lost, gone=len(gone), lines=lines, opt=opt,
         boom='boom' in p.stdout, tail=p.stdout[-600:])
    rmdir(root)


def fail_rule(g, cmd):
    """an implementation that fails for some of its calls"""
    res = ['"command":"%s"' % cmd, '@' + rng.choice(g['impls'])]
    if cmd != 'create':
        res.append('"operation":"%s"' % rng.choice([o['name'] for o in g['ops']]))
        if rng.random() < .5:
            ks = [a['name'] + str(s) for a in g['algs'] for s in a['sizes']]
            if ks:
                res.append('"algorithm":"%s"' % rng.choice(ks))
    return res


cfgs = [x['cfg'] for x in read_input()]
for i, g in enumerate(cfgs):
    m = i % 8
    if m == 0:
        run(g, 'display', ['display'])
        run(g, 'options', ['options'])
    if m == 1:
        run(g, 'nocreate', ['--create=n'])
    elif m == 2:
        run(g, 'run', ['--create=y', '--verbose=y'], fail_rule(g, 'test'))
    elif m == 3:
        run(g, 'nocreate', ['--create=n', '--verbose=n'], fail_rule(g, 'test'))
    elif m == 4:
        run(g, 'run', [], fail_rule(g, 'generate'))
    elif m == 5:
        run(g, 'run', [], fail_rule(g, 'create'))
    else:
        run(g, 'run', rng.choice([[], ['--verbose=y'], ['--create=y']]))
    if m == 6:
        for bad in (['--creat=n'], ['--create=maybe'], ['x'], ['--create'], ['--help'], ['--verbose=1']):
            run(g, 'refused', bad)
    if m == 7:
        run(g, 'refused', [rng.choice(['--create', '--verbose']) + '=' + rng.choice(['', 'yes', 'N', 'y ', '1']), '--verbose=n'][:1])
g = from_repo()
run(g, 'run', [])
run(g, 'display', ['display'])
run(g, 'options', ['options'])
T.close()
summary(**COUNT)
