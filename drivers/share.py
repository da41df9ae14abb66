"""C22: operations under way at the same time on shared key set objects.

Real threads run under a scheduler that hands control over only at the bytecode
instructions of the keyczar package where a schedule says so (sys.settrace; only
instructions that can touch something shared count: the others commute); every operation's
result is judged like the result of the operation alone.  A thread that waits
for a lock does not block the run: after a short time all threads run freely."""
from use import *
import dis
import threading
import time

T = Trace(args.out)
det_random()
PKG = os.path.dirname(os.path.realpath(keyczar.__file__)) + os.sep
STAT = {'runs': 0, 'switches': 0, 'lockwaits': 0, 'positions': 0}


# instructions that touch nothing but the frame itself
LOCAL = ('LOAD_FAST', 'STORE_FAST', 'LOAD_CONST', 'RETURN_CONST', 'RESUME', 'PUSH_NULL', 'POP_', 'COPY', 'SWAP', 'NOP', 'CACHE', 'PRECALL',
         'KW_NAMES', 'JUMP', 'EXTENDED_ARG', 'RETURN_', 'BUILD_', 'MAKE_', 'FORMAT_', 'PUSH_EXC', 'COMPARE_OP', 'IS_OP', 'UNARY', 'BINARY_OP',
         'RERAISE', 'CHECK_EXC', 'LOAD_GLOBAL', 'LOAD_DEREF', 'COPY_FREE', 'END_', 'LOAD_CLOSURE', 'UNPACK', 'LIST_EXTEND', 'MAKE_CELL', 'BEFORE_')
_shared = {}


def shared(frame):
    """is the next instruction of the frame one that can touch something shared"""
    c = frame.f_code
    s = _shared.get(c)
    if s is None:
        s = _shared[c] = set(i.offset for i in dis.get_instructions(c) if not i.opname.startswith(LOCAL))
    return frame.f_lasti in s


# ------------------------------------------------------------------ scheduler
class Sched(object):
    """segments: list of (thread index, number of lines or None for the rest)"""

    def __init__(self, segs):
        self.segs = [list(s) for s in segs]
        self.cv = threading.Condition()
        self.free = False
        self.done = set()
        with self.cv:
            self._skip()

    def _skip(self):
        while self.segs and (self.segs[0][0] in self.done or self.segs[0][1] == 0):
            self.segs.pop(0)
        if not self.segs:
            self.free = True
        self.cv.notify_all()

    def turn(self, t):
        return self.free or (self.segs and self.segs[0][0] == t)

    def wait(self, t):
        limit = .3 if STAT['lockwaits'] < 10 else .02
        while not self.turn(t):
            head = self.segs[0][0], self.segs[0][1]
            if not self.cv.wait(limit) and not self.turn(t):
                if self.segs and (self.segs[0][0], self.segs[0][1]) == head:   # the one whose turn it is does not move: a lock
                    STAT['lockwaits'] += 1
                    self.free = True
                    self.cv.notify_all()

    def line(self, t):
        if self.free:
            return
        with self.cv:
            self.wait(t)
            if self.free:
                return
            s = self.segs[0]
            if s[1] is not None:
                s[1] -= 1
                if s[1] <= 0:
                    STAT['switches'] += 1
                    self.segs.pop(0)
                    self._skip()
                    self.wait(t)

    def end(self, t):
        with self.cv:
            self.done.add(t)
            self._skip()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == 'opcode' and not self.free and shared(frame):
                self.line(t)
            return local

        def glob(frame, event, arg):
            return watch(frame, local)
        return glob


def watch(frame, local):
    if not frame.f_code.co_filename.startswith(PKG):
        return None
    frame.f_trace_opcodes = True
    frame.f_trace_lines = False
    return local


def count_lines(fn):
    """shared instructions of the package fn executes alone; and the index of the first visit of every one"""
    cnt, first = [0], {}

    def local(frame, event, arg):
        if event == 'opcode' and shared(frame):
            cnt[0] += 1
            first.setdefault((frame.f_code, frame.f_lasti), cnt[0])
        return local
    sys.settrace(lambda frame, event, arg: watch(frame, local))
    try:
        fn()
    except BaseException:
        pass
    finally:
        sys.settrace(None)
    return cnt[0], first


def tcall(fn):
    """call() without signals, for threads"""
    try:
        return Res(True, fn(), '', False)
    except errors.KeyczarError as e:
        return Res(False, None, type(e).__name__, True, str(e))
    except Exception as e:
        return Res(False, None, type(e).__name__, False, str(e)[:200])
    except SystemExit as e:
        return Res(False, None, 'SystemExit', False)


def together(fns, segs):
    s = Sched(segs)
    res = [None] * len(fns)

    def body(i):
        sys.settrace(s.tracer(i))
        try:
            res[i] = tcall(fns[i])
        finally:
            sys.settrace(None)
            s.end(i)
    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
    for t in ths:
        t.start()
    end = time.time() + 20
    for t in ths:
        t.join(max(.1, end - time.time()))
    stuck = any(t.is_alive() for t in ths)
    if stuck:
        with s.cv:
            s.free = True
            s.cv.notify_all()
        for t in ths:
            t.join(5)
    STAT['runs'] += 1
    return [r or Res(False, None, 'HANG', False) for r in res], stuck


# ------------------------------------------------------------------ key sets
class KSet(object):
    pass


SETS = {}


def mkset(sid, ktype, purpose, size, numbers, prim):
    k = KSet()
    k.id, k.type, k.purpose = sid, ktype, purpose
    k.dir = newdir('s')
    vers = []
    k.refs = []
    for i in numbers:
        t = make_key(ktype, size)
        vers.append((i, 'PRIMARY' if i == prim else 'ACTIVE', False, t))
        r = RefKey(ktype, t)
        k.refs.append(r)
        if i == prim:
            k.primary = r
        else:
            k.old = r
    write_set(k.dir, sid, purpose, ktype, vers)
    cls = keyczar.Crypter if purpose == 'DECRYPT_AND_ENCRYPT' else keyczar.Signer
    k.obj = cls.Read(k.dir)
    k.objs = [k.obj]
    if purpose == 'DECRYPT_AND_ENCRYPT':
        k.sess = keyczar.SessionEncrypter(k.obj)
        k.sdec = keyczar.SessionDecrypter(k.obj, k.sess.session_material)
        m = [r.unseal(b64d(k.sess.session_material)) for r in k.refs]
        m = [x for x in m if x][0]
        a = int.from_bytes(m[4:8], 'big')
        k.skey = RefKey('AES', json.dumps({'mode': 'CBC', 'size': a * 8, 'aesKeyString': b64e(m[8:8 + a]),
                                           'hmacKey': {'size': 256, 'hmacKeyString': b64e(m[12 + a:])}}))
    else:
        k.unv = keyczar.UnversionedSigner.Read(k.dir)
        k.objs.append(k.unv)
    SETS[sid] = k
    T.ev('set', id=sid, primary=k.primary.kid, **state(k))
    return k


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def proj(o):
    return digest(project_obj(o))


def state(k):
    files = {}
    for f in sorted(os.listdir(k.dir)):
        files[f] = open(os.path.join(k.dir, f)).read()
    return {'state': '|'.join(sorted(set(proj(o) for o in k.objs))), 'files': digest(files)}


# ------------------------------------------------------------------ operations
def data(k, small=False):
    ln = rng.choice([0, 1, 15, 16, 17, 33, 60] if small or k.type.startswith('RSA') and k.purpose[0] == 'D' else
                    [0, 1, 5, 15, 16, 17, 31, 32, 33, 64, 100])
    return bytes(rng.randrange(256) for _ in range(ln))


class Op(object):
    """One call: fn() runs it on the real code, rec(res) gives the event record."""

    def __init__(self, k, op, alt=0):
        self.k, self.op = k, op
        d = self.d = data(k)
        nonce = self.nonce = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 16])))
        self.alt = alt
        D, N, o = n(d), n(nonce), k.obj
        if op in ('enc', 'sign', 'att', 'senc'):
            cut = rng.randrange(len(D) + 1)
            self.fn = {'enc': lambda: o.Encrypt(D), 'sign': lambda: o.Sign(D), 'att': lambda: o.AttachedSign(D, N),
                       'senc': lambda: self.stream_enc(o, D, cut)}[op]
        elif op == 'unv':
            self.fn = lambda: k.unv.Sign(D)
        elif op == 'sess':
            self.fn = lambda: k.sess.Encrypt(D)
        elif op == 'read':
            cls = type(o)
            self.fn = lambda: cls.Read(k.dir)
        elif op in ('dec', 'old', 'decbad', 'sdec', 'sdecold', 'sdecbad', 'decunk'):
            key = k.old if op.endswith('old') else k.primary
            raw = bytearray(ref_wrap(key, d))
            if op in ('decbad', 'sdecbad'):
                raw[rng.randrange(5, len(raw))] ^= 1 << rng.randrange(8)
            if op == 'decunk':
                raw[1 + rng.randrange(4)] ^= 0x55
            text = b64e(bytes(raw))
            sz = rng.choice([-1, 7, 4096])
            self.fn = (lambda: self.stream_dec(o, text, sz)) if op[0] == 's' else (lambda: o.Decrypt(text))
        elif op == 'sessdec':
            text = b64e(k.skey.seal(d))
            self.fn = lambda: k.sdec.Decrypt(text)
        else:
            kind = 'att' if op.startswith('att') else 'unv' if op.startswith('unv') else 'sign'
            key = k.old if op.endswith('old') else k.primary
            raw = bytearray(ref_frame(kind, key, d, ref_sign(key, signed_msg(kind, d, nonce))))
            if op.endswith('bad'):
                i = rng.randrange(len(raw) - 18, len(raw))
                raw[i] ^= 1 << rng.randrange(8)
            text = b64e(bytes(raw))
            self.fn = {'att': lambda: o.AttachedVerify(text, N), 'unv': lambda: k.unv.Verify(D, text),
                       'sign': lambda: o.Verify(D, text)}[kind]

    def stream_enc(self, o, D, cut):
        s = Sink()
        w = o.CreateEncryptingStreamWriter(s)
        w.write(D[:cut])
        w.write(D[cut:])
        w.flush()
        w.close()
        return s.value()

    def stream_dec(self, o, text, sz):
        r = o.CreateDecryptingStreamReader(Source(text))
        parts = []
        for _ in range(100000):
            x = r.read(sz)
            if x is None:
                continue
            if x == '':
                break
            parts.append(x)
        return ''.join(parts)

    def rec(self, r):
        k, op = self.k, self.op
        e = {'op': op, 'set': k.id, 'data': tok(self.d), 'kid': '', 'got': '', 'iv': '', 'skid': '', 'msg': r.msg}
        e.update(r.fields())
        if not r.ok:
            return e
        v = r.val
        if op in ('enc', 'senc', 'sign', 'att', 'unv', 'sess'):
            try:
                raw = b64d(v)
            except Exception:
                raw = b''
            if op == 'sess':
                e['skid'] = k.skey.kid
                e['kid'], e['got'] = judge('enc', raw, self.d, self.nonce, [k.skey])
            else:
                e['kid'], e['got'] = judge('enc' if op == 'senc' else op, raw, self.d, self.nonce, k.refs)
            if op in ('enc', 'senc', 'sess'):
                e['iv'] = raw[5:21].hex()
            if k.type.startswith('DSA'):
                e['iv'] = raw[-44:].hex()
        elif op == 'read':
            e['got'] = proj(v)
        elif 'ver' in op or op.endswith('bad') or op in ('attver', 'attold', 'attbad', 'unvold'):
            if op.startswith('att'):
                e['got'] = tok(v) if v is not None else 'NONE'
            elif op in ('decbad', 'sdecbad'):
                e['got'] = tok(v)
            else:
                e['got'] = verdict(v)
        else:
            e['got'] = tok(v)
        return e


CRYPT = ['enc', 'dec', 'old', 'decbad', 'decunk', 'senc', 'sdec', 'sdecold', 'sdecbad', 'sess', 'sessdec', 'read']
RSAC = ['enc', 'dec', 'old', 'decbad', 'decunk', 'sess', 'sessdec', 'read']
SIGN = ['sign', 'ver', 'verold', 'verbad', 'att', 'attver', 'attold', 'attbad', 'unv', 'unvver', 'unvold', 'unvbad', 'read']
# the same call on another input: the other key version, the other verdict
OTHER = {'dec': ['old', 'decbad'], 'sdec': ['sdecold', 'sdecbad'], 'ver': ['verold', 'verbad'], 'attver': ['attold', 'attbad'],
         'unvver': ['unvold', 'unvbad'], 'old': ['dec'], 'sdecold': ['sdec'], 'verold': ['ver'], 'attold': ['attver'],
         'unvold': ['unvver'], 'decbad': ['dec'], 'sdecbad': ['sdec'], 'verbad': ['ver'], 'attbad': ['attver'], 'unvbad': ['unvver']}


def ops_of(k):
    return SIGN if k.purpose[0] == 'S' else RSAC if k.type.startswith('RSA') else CRYPT


def record(ops, res, stuck, kind, full=True):
    ids = sorted(set(o.k.id for o in ops))
    after = [dict(set=i, **state(SETS[i])) for i in ids] if full or stuck else []
    T.ev('run', ops=[o.rec(r) for o, r in zip(ops, res)], after=after, stuck=stuck, kind=kind)


_lines = {}


def lines_of(o):
    """(number of lines, first visits) of an operation like o, measured once"""
    key = (o.k.type, o.op)
    if key not in _lines:
        _lines[key] = count_lines(o.fn)
    return _lines[key]


COVERED, CROSS, MIXED = set(), set(), {}


def single(k1, op1, k2, op2, budget, full=None):
    """stop op1 at an instruction, run op2 to its end, continue op1: every instruction no such
    run has stopped at yet when full, then others"""
    a = Op(k1, op1)
    total, first = count_lines(a.fn)
    new = [p for c, p in first.items() if c not in full] if full is not None else []
    rest = sorted(set(range(1, total + 1)) - set(new))
    if full is not None:
        full.update(first)
    pos = sorted(new + rng.sample(rest, min(len(rest), max(0, budget - len(new)))))
    for p in pos:
        a, c = Op(k1, op1), Op(k2, op2)
        res, stuck = together([a.fn, c.fn], [(0, p), (1, None), (0, None)])
        STAT['positions'] += 1
        record([a, c], res, stuck, 'one preemption', full=p == pos[-1] or rng.random() < .1)


def scheduled(ks, opnames, sched, steps):
    """follow a schedule of the model: step i of thread t is the i-th part of its lines"""
    ops = [Op(k, o) for k, o in zip(ks, opnames)]
    tot = [lines_of(o)[0] for o in ops]
    done = [0] * len(ops)
    segs = []
    for t in sched:
        t -= 1
        done[t] += 1
        segs.append([t, None if done[t] == steps else max(1, (tot[t] * done[t]) // steps - (tot[t] * (done[t] - 1)) // steps)])
    res, stuck = together([o.fn for o in ops], segs)
    record(ops, res, stuck, 'schedule ' + ''.join(str(t) for t in sched), full=rng.random() < .15)


def sequential(count, ks):
    """long use of the same objects, one operation after the other"""
    for i in range(count):
        k = rng.choice(ks)
        o = Op(k, rng.choice(ops_of(k)))
        record([o], [call(o.fn)], False, 'use %d' % i, full=i % 10 == 9 or i == count - 1)


items = read_input()
sched2 = [x['s'] for x in items if x['n'] == 2]
sched3 = [x['s'] for x in items if x['n'] == 3]

# one process per kind of key set
PART = os.environ['VERIF_PART']
AE, SV = 'DECRYPT_AND_ENCRYPT', 'SIGN_AND_VERIFY'
t, p, sizes = {'aes': ('AES', AE, (128, 256)), 'rsac': ('RSA_PRIV', AE, (1024, 1024)), 'hmac': ('HMAC_SHA1', SV, (None, None)),
               'dsa': ('DSA_PRIV', SV, (1024, 1024)), 'rsas': ('RSA_PRIV', SV, (1024, 1024))}[PART]
GROUPS = [[mkset(PART + '1', t, p, sizes[0], [1, 2, 3], 2), mkset(PART + '2', t, p, sizes[1], [1, 2], 1)]]

# 1. every pair of operations on the same object; then on two sets of a kind
for g in GROUPS:
    COVERED.clear()
    names = ops_of(g[0])
    for o1 in names:
        if THOROUGH:
            COVERED.clear()
        single(g[0], o1, g[0], o1, 60 if THOROUGH else 22, full=COVERED)
        for j, o2 in enumerate(x for x in OTHER.get(o1, []) if x in names):
            single(g[0], o1, g[0], o2, 60 if THOROUGH else 8, full=MIXED.setdefault('bad' if o2.endswith('bad') or o1.endswith('bad') else 'old', set()))
        for o2 in names if THOROUGH else rng.sample(names, 2):
            single(g[0], o1, g[0], o2, 60 if THOROUGH else 16)
        single(g[0], o1, g[1], o1, 60 if THOROUGH else 14, full=CROSS)

# 2. the interleavings of the model
pairs = [(g, a, c) for g in GROUPS for a in ops_of(g[0]) for c in ops_of(g[0])]
rng.shuffle(pairs)
for g, a, c in pairs if THOROUGH else pairs[:12]:
    for s in rng.sample(sched2, 20 if THOROUGH else 12):
        scheduled([g[0], rng.choice(g)], [a, c], s, 4)
for _ in range(600 if THOROUGH else 50):
    g = rng.choice(GROUPS)
    scheduled([g[0], rng.choice(g), g[0]], [rng.choice(ops_of(g[0])) for _ in range(3)], rng.choice(sched3), 3)

# 3. long use
sequential(2500 if THOROUGH else 350, GROUPS[0])
sequential(1500 if THOROUGH else 300, GROUPS[0][:1])
T.close()
summary(events=T.n, **STAT)
