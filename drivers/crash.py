"""C15: every management command, looked at before each of its file-system calls
(crash points), with each of these calls failing or interrupted, and with a
process loading the key set in between.  Runs under LD_PRELOAD of fsx.c."""
import ctypes
import errno
import threading
from use import *
import lifecycle_common as L

T = Trace(args.out)
patch_keygen()
det_random()
signal.signal(signal.SIGINT, signal.default_int_handler)
LIB = ctypes.CDLL(None)
CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long)
NAMES = ['Test', '', u'n\u00e4me \u20ac', 'x' * 200, ' both ends\n']
COUNT = dict(commands=0, crash_points=0, crash_states=0, faults=0, interrupts=0, concurrent_loads=0, recoveries=0)
L.crypter_dir()
AREF = L._A['ref']
CRY = {'A': AREF}


def armed(root, handler, fn):
    """run fn with handler(op, path, n) called before every file-system call below root"""
    def h(op, path, k):
        try:
            return handler(op.decode(), path.decode('utf-8', 'surrogateescape'), k) or 0
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(3)
    cb = CB(h)
    LIB.fsx_arm(root.encode(), cb)
    try:
        try:
            return call(fn)
        except KeyboardInterrupt:
            return Res(False, None, 'KeyboardInterrupt', False)
    finally:
        LIB.fsx_disarm()


def snap(root):
    res = {}
    for dp, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(dp, f)
            try:
                res[os.path.relpath(p, root)] = open(p, 'rb').read()
            except OSError:
                pass
    return res


def restore(root, s):
    for sub in ('s', 'p'):
        d = os.path.join(root, sub)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.mkdir(d)
    for f, c in s.items():
        with open(os.path.join(root, f), 'wb') as fh:
            fh.write(c)


class Case(object):
    """one command c on a key set; the set lies in root/s, an export in root/p"""

    def __init__(self, kind, c):
        self.kind, self.c = kind, c
        self.root = newdir('crash')
        self.s, self.p = os.path.join(self.root, 's'), os.path.join(self.root, 'p')
        os.mkdir(self.s)
        os.mkdir(self.p)
        self.via = c['via']

    def start(self):
        self.pre = snap(self.root)
        T.ev('reset', dir=self.proj(), dst=self.projp(), kind=self.kind, c=self.c)
        COUNT['commands'] += 1

    def proj(self):
        return project_dir(self.s, CRY)

    def projp(self):
        return project_dir(self.p, CRY)

    def crypter(self):
        return L._A['obj'] if self.via else None

    def reader(self, path=None):
        r = readers.CreateReader(path or self.s)
        return readers.EncryptedReader(r, self.crypter()) if self.via and not path else r

    def cmd(self, c=None):
        c = c or self.c
        op = c['op']
        if op == 'create':
            return keyczart.Create(self.s, c['name'], PURPOSE[c['purpose']], c['asym'] or None)
        if op == 'addkey':
            return keyczart.AddKey(self.s, STATUS[c['status']], self.crypter(), c['size'] or None)
        if op == 'pubkey':
            return keyczart.PubKey(self.s, self.p)
        if not self.via:
            fn = {'promote': keyczart.Promote, 'demote': keyczart.Demote, 'revoke': keyczart.Revoke}[op]
            return fn(self.s, c['v'])
        czar = keyczar.GenericKeyczar(self.reader())
        getattr(czar, op.capitalize())(c['v'])
        w = writers.CreateWriter(self.s)
        czar.Write(w, self.crypter())
        if op == 'revoke':
            w.Remove(c['v'])
        w.Close()

    def load(self):
        """what a process that loads the target of the command gets"""
        t = self.p if self.c['op'] == 'pubkey' else None
        czar = keyczar.GenericKeyczar(self.reader(t))
        return project_obj(czar, '')

    # -- the phases --------------------------------------------------------
    def crash(self):
        ops, states, idx = [], [], []

        def h(op, path, k):
            ops.append((op, os.path.relpath(path, self.root), k))
            s = snap(self.root)
            if not states or s != states[-1]:
                states.append(s)
                idx.append(len(ops) - 1)
        r = armed(self.root, h, self.cmd)
        fin = snap(self.root)
        T.ev('end', left=self.left(), what='run', c=self.c, dir=self.proj(), dst=self.projp(), intr=False, msg=r.msg, **r.fields())
        if fin != states[-1]:
            states.append(fin)
        COUNT['crash_points'] += len(ops) + 1
        self.ops, self.idx = ops, idx
        seen = []
        for s in states:
            restore(self.root, s)
            p, q = self.proj(), self.projp()
            COUNT['crash_states'] += 1
            ld = call(self.load)
            T.ev('crash', c=self.c, dir=p, dst=q, load=ld.val if ld.ok else dict(NODIR, vers=[]), lmsg=ld.msg, **ld.fields())
            if (p, q) not in seen or rng.random() < .1:
                seen.append((p, q))
                self.recover(s)

    def recover(self, s):
        """the work goes on from the state a crash left behind"""
        nums = [v['n'] for v in project_dir(self.s, CRY)['vers']]
        base = dict(self.c, op='', v=0, status='', size=0)
        todo = [dict(self.c, op='addkey', status=rng.choice(['PRIMARY', 'ACTIVE']), size=self.size())] \
            if self.kind in ('aes', 'hmac') or rng.random() < .3 else []
        if self.c['op'] != 'pubkey':
            todo.append(self.c)
        if nums:
            todo.append(dict(base, op=rng.choice(['promote', 'demote', 'revoke']), v=rng.choice(nums)))
        if not os.path.exists(os.path.join(self.s, 'meta')):
            todo = [self.c] if self.c['op'] == 'create' else []
        for c in todo:
            if c['op'] == 'addkey':
                c = dict(c, size=self.size())
            restore(self.root, s)
            a = self.proj()
            r = call(self.cmd, c)
            T.ev('recover', c=c, dir0=a, dir=self.proj(), msg=r.msg, **r.fields())
            COUNT['recoveries'] += 1
        if self.c['op'] == 'pubkey':
            restore(self.root, s)
            r = call(self.cmd)
            T.ev('end', left=self.left(), what='repeat', c=self.c, dir=self.proj(), dst=self.projp(), intr=False, msg=r.msg, **r.fields())

    def left(self):
        """is the key file of the version to be revoked still there?"""
        return self.c['op'] == 'revoke' and os.path.lexists(os.path.join(self.s, str(self.c['v'])))

    def size(self):
        return 1024 if self.kind.startswith('rsa') else 0

    def fault(self, k, what):
        restore(self.root, self.pre)
        n, hit = [0], [0]

        def h(op, path, ln):
            i = n[0]
            n[0] += 1
            if i == k:
                hit[0] = 1
                if what == 'int':
                    return 100000
                if what == 'short':
                    return max(1, ln // 3) if op == 'write' and ln > 1 else -errno.ENOSPC
                return -(errno.ENOSPC if op in ('write', 'openw') else errno.EIO)
            if i > k and what in ('short', 'sticky') and op in ('write', 'openw', 'mkdir', 'fsync', 'link'):
                return -errno.ENOSPC
            if i > k and what == 'dead' and op not in ('close', 'openr', 'read'):
                return -errno.EIO
        r = armed(self.root, h, self.cmd)
        op = self.ops[k]
        COUNT['interrupts' if what == 'int' else 'faults'] += 1
        T.ev('end', left=self.left(), what='%s at %s(%s)' % (what, op[0], op[1]), c=self.c, dir=self.proj(), dst=self.projp(),
             intr=what == 'int', msg=r.msg, **r.fields())

    def race(self, i, j, r):
        """start a load when the command reaches call i, let it do r calls, resume it at call j"""
        restore(self.root, self.pre)
        n, m = [0], [0]
        go, parked = threading.Event(), threading.Event()
        main = threading.get_ident()
        out = {}

        def body():
            try:
                out['val'] = self.load()
                out['f'] = dict(res='ok', err='', kz=False)
            except errors.KeyczarError as e:
                out['f'] = dict(res='err', err=type(e).__name__, kz=True)
            except BaseException as e:
                out['f'] = dict(res='err', err=type(e).__name__, kz=False)
            parked.set()
        th = threading.Thread(target=body)

        def h(op, path, ln):
            if threading.get_ident() != main:
                m[0] += 1
                if m[0] == r + 1:
                    parked.set()
                    go.wait(20)
                return 0
            k = n[0]
            n[0] += 1
            if k == i:
                th.start()
                parked.wait(20)
            if k == j:
                go.set()
                th.join(20)
        c = armed(self.root, h, self.cmd)
        go.set()
        if th.ident is not None:
            th.join(20)
        else:
            return
        COUNT['concurrent_loads'] += 1
        T.ev('race', c=self.c, at=[i, j, r], what=[self.ops[x][0] + ' ' + self.ops[x][1] for x in (i, j) if x < len(self.ops)],
             load=out.get('val') or dict(NODIR, vers=[]), dir=self.proj(), dst=self.projp(),
             cres=c.fields()['res'], **out.get('f', dict(res='err', err='HANG', kz=False)))

    def close(self):
        rmdir(self.root)

    def run(self, faults, races):
        self.start()
        self.crash()
        w = [k for k, o in enumerate(self.ops) if o[0] not in ('openr', 'read', 'mid')
             and not (o[0] == 'close' and (k == 0 or self.ops[k - 1][0] == 'read'))]
        todo = [(k, x) for k in w for x in ('once', 'sticky', 'dead', 'short', 'int')
                if not (x == 'short' and self.ops[k][0] != 'write')]
        todo += [(k, x) for k in range(len(self.ops)) if k not in w for x in ('once', 'int')]
        if faults < len(todo):
            todo = rng.sample(todo, faults)
        for k, x in todo:
            self.fault(k, x)
        pts = sorted(set(self.idx + [len(self.ops)]))
        trip = [(i, j, r) for i in pts for j in pts if i <= j for r in (1, 2, 3, 4, 5, 6, 8, 12)]
        if races < len(trip):
            # adjacent states and long gaps alike
            trip = rng.sample(trip, races)
        for t in trip:
            self.race(*t)
        self.close()


def adapt(c, kind):
    t, purpose, asym = L.KINDS[kind]
    c = dict(c)
    c['purpose'], c['asym'], c['name'] = purpose, asym, rng.choice(NAMES)
    if c['op'] == 'addkey':
        c['size'] = 1024 if kind.startswith('rsa') else rng.choice([0, 128, 192, 256]) if kind == 'aes' else 0
    return c


def edge(e, kind, shift, faults, races):
    reset_pool()
    c = adapt(e['c'], kind)
    if c['v']:
        c['v'] += shift
    k = Case(kind, c)
    pre = e['pre']
    if pre['meta']:
        t, purpose, _ = L.KINDS[kind]
        vl = list(pre['vers'])
        rng.shuffle(vl)
        vers = [(v['n'] + shift, v['st'], rng.random() < .3,
                 make_key(t, rng.choice([128, 192, 256]) if t == 'AES' else None), AREF[1] if v['seal'] else None)
                for v in vl]
        write_set(k.s, c['name'], purpose, t, vers, pre['enc'])
    k.run(faults, races)


def exports(kind, nv, prior, faults, races):
    """pubkey into an empty directory, or over an earlier export of the same set"""
    reset_pool()
    t, purpose, asym = L.KINDS[kind]
    k = Case(kind, dict(op='pubkey', via='', v=0, status='', size=0, purpose=purpose, asym=asym, name='n'))
    vers = [(i + 1, ['PRIMARY', 'ACTIVE', 'INACTIVE'][i % 3], False, make_key(t)) for i in range(nv)]
    write_set(k.s, 'n', purpose, t, vers)
    if prior:
        r = call(keyczart.PubKey, k.s, k.p)
        if not r.ok:
            k.close()
            return
        for i in range(prior):
            call(keyczart.AddKey, k.s, STATUS['PRIMARY'], None, 1024)
        if nv >= 3:
            call(keyczart.Revoke, k.s, 3)
    k.run(faults, races)


edges = [x['edge'] for x in read_input()]
plain = [e for e in edges if not e['c']['via']]
sealed = [e for e in edges if e['c']['via']]
rng.shuffle(edges)
f, r = (10000, 150) if THOROUGH else (60, 25)


def pick(l, k):
    """k of the transitions, every kind of command represented"""
    by = {}
    for e in l:
        by.setdefault((e['c']['op'], len(e['pre']['vers'])), []).append(e)
    res = []
    keys_ = sorted(by)
    while len(res) < min(k, len(l)):
        for x in keys_:
            if by[x]:
                res.append(by[x].pop(rng.randrange(len(by[x]))))
    return res[:k]


q = 1 if not THOROUGH else 100
for e in pick(plain, 60 * q):
    edge(e, rng.choice(['aes', 'hmac']), rng.choice([0, 0, 8, 98]), f, r)
for e in pick(sealed, 24 * q):
    edge(e, rng.choice(['aes', 'hmac']), rng.choice([0, 8]), f // 2, r // 2)
for kind in ('rsa', 'rsasign', 'dsa'):
    for e in pick(plain, 5 * (q if q == 1 else 6)):
        edge(e, kind, 0, f // 3, r // 3)
    for nv in (0, 1, 3):
        for prior in (0, 1):
            exports(kind, nv, prior, f // 3, r // 3)
T.close()
summary(**COUNT)
