"""C18: random material in outputs, compared with what the operating system's
random source delivered."""
import builtins
import threading
from use import *
import lifecycle_common as L

T = Trace(args.out)
COUNT = dict(operations=0, items=0, forks=0, threads=0, without_source=0)

# ------------------------------------------------------ the observed source
STREAM = bytearray()
_real = kzenv._REAL_URANDOM
_lock = threading.Lock()
BROKEN = [False]


def source(k):
    if BROKEN[0]:
        raise NotImplementedError('no random source')
    x = _real(k)
    with _lock:
        STREAM.extend(x)
    return x


def observe():
    os.urandom = source
    random._urandom = source
    kzenv._REAL_URANDOM = source
    if hasattr(os, 'getrandom'):
        os.getrandom = lambda k, flags=0: source(k)
    try:
        import M2Crypto.Rand
        M2Crypto.Rand.rand_bytes = source
        M2Crypto.m2.rand_bytes = source
    except Exception:
        pass
    ropen = builtins.open

    class Dev(object):
        def read(self, k=-1):
            return source(k)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def fopen(f, *a, **k):
        if f in ('/dev/urandom', '/dev/random'):
            return Dev()
        return ropen(f, *a, **k)
    builtins.open = fopen


GEN = []


def stand_in_generators():
    """the library's RSA/DSA generators: draw what the real ones would need, hand out fixture keys"""
    from Crypto.PublicKey import RSA, DSA

    def gen(fam, build):
        def g(size, randfunc=None, *a, **k):
            GEN.append((size, b(randfunc(size // 8)) if randfunc else None))
            l = _POOL_[fam][str(size)]
            i = pos.get((fam, size), 0)
            pos[(fam, size)] = i + 1
            return build(RefKey(fam + '_PRIV', l[i % len(l)]))
        return g
    pos = {}
    RSA.generate = gen('RSA', lambda r: RSA.construct((r.n, r.e, r.d, r.q, r.p, pow(r.q, -1, r.p))))
    DSA.generate = gen('DSA', lambda r: DSA.construct((r.y, r.g, r.p, r.q, r.x)))


_POOL_ = json.load(open(os.path.join(VERIF, 'fixtures', 'keypool.json')))
SAMPLES = {}


def item(kind, size, val):
    at = STREAM.find(val) if val else -1
    if at < 0 and val:
        r = STREAM.find(val[::-1])
        at = r
    if at < 0 and kind == 'k':
        for off in (0, 1, 2):
            x = R.b2i(val) - off
            if x > 0:
                at = max(at, STREAM.find(R.i2b(x, 20)))
    SAMPLES.setdefault((kind, len(val)), []).append(val)
    return dict(kind=kind, size=size, len=len(val), at=at, val=val.hex())


def wrap_item(ref, raw):
    """IV or OAEP seed of a ciphertext"""
    if ref.type == 'AES':
        return ('iv', 0, raw[5:21])
    em = R.i2b(pow(R.b2i(raw[5:]), ref.d, ref.n), ref.k)
    r = R.oaep_decode(em)
    return ('seed', 0, r[0] if r else b'')


def dsa_k(ref, msg, sig):
    r, s = R.dsa_parse(sig)
    z = R.b2i(R.sha1(msg))
    k = pow(s, -1, ref.q) * (z + ref.x * r) % ref.q
    if pow(ref.g, k, ref.p) % ref.q != r:
        # k and q-k give the same r up to sign of s; neither fits: report as is
        k = ref.q - k
    return ('k', 0, R.i2b(k, 20))


def key_items(ref):
    if ref.type == 'AES':
        return [('aes', ref.bits, ref.aes), ('hmac', 0, ref.hmac)]
    return [('hmac', 0, ref.hmac)]


class World(object):
    """key sets and live objects of one history"""

    def __init__(self):
        reset_pool()
        self.dirs, self.refs = {}, {}
        for nm, t, p, size in (('aes', 'AES', 'DECRYPT_AND_ENCRYPT', rng.choice([128, 192, 256])),
                               ('rsa', 'RSA_PRIV', 'DECRYPT_AND_ENCRYPT', 2048), ('dsa', 'DSA_PRIV', 'SIGN_AND_VERIFY', 1024),
                               ('hmac', 'HMAC_SHA1', 'SIGN_AND_VERIFY', None), ('rsasign', 'RSA_PRIV', 'SIGN_AND_VERIFY', 1024)):
            d = newdir(nm)
            text = make_key(t, size)
            write_set(d, nm, p, t, [(1, 'PRIMARY', False, text)])
            self.dirs[nm], self.refs[nm] = d, RefKey(t, text)
        self.crypted = newdir('c')
        write_set(self.crypted, 'c', 'DECRYPT_AND_ENCRYPT', 'AES', [], enc=True)
        self.aref = list(load_ref(self.dirs['aes']).values())
        self.gen = {}
        for nm, t, p in (('AES', 'AES', 'DECRYPT_AND_ENCRYPT'), ('HMAC_SHA1', 'HMAC_SHA1', 'SIGN_AND_VERIFY'),
                         ('RSA_PRIV', 'RSA_PRIV', 'DECRYPT_AND_ENCRYPT'), ('DSA_PRIV', 'DSA_PRIV', 'SIGN_AND_VERIFY')):
            self.gen[nm] = newdir('g')
            write_set(self.gen[nm], 'g', p, t, [])
        self.sess, self.streams, self.objs = {}, {}, {}
        self.open_streams = []

    def enc(self, w):
        if w not in self.objs or rng.random() < .3:
            self.objs[w] = (keyczar.Crypter if rng.random() < .5 else keyczar.Encrypter).Read(self.dirs[w])
        return self.objs[w]

    def signer(self, s, cls=keyczar.Signer):
        return cls.Read(self.dirs[s])

    def session(self, c, signed):
        e = self.enc(c['w'])
        o = keyczar.SignedSessionEncrypter(e, self.signer(c['s'])) if signed else keyczar.SessionEncrypter(e)
        wref = self.refs[c['w']]
        raw = b64d(o.session_material)
        pt = wref.unseal(raw)
        if signed:
            j = json.loads(pt.decode())
            key = RefKey('AES', j['key'])
            its = key_items(key) + [('nonce', 0, b64d(j['nonce']))]
            nonce = b64d(j['nonce'])
        else:
            n0 = int.from_bytes(pt[:4], 'big')
            parts, p = [], 4
            for _ in range(n0):
                ln = int.from_bytes(pt[p:p + 4], 'big')
                parts.append(pt[p + 4:p + 4 + ln])
                p += 4 + ln
            its = [('aes', 8 * len(parts[0]), parts[0]), ('hmac', 0, parts[1])]
            nonce = b''
        self.sess[(c['slot'], signed)] = (o, c['s'], nonce)
        return its + [wrap_item(wref, raw)]

    def do(self, c):
        op = c['op']
        data = n(b'equal data') if c['data'] == 'same' else n(_rb(rng.choice([0, 1, 16, 40, 86])))
        if op == 'enc':
            ref = self.refs[c['w']]
            raw64 = rng.random() < .3
            out = self.enc(c['w']).Encrypt(data, *([None] if raw64 else []))
            return [wrap_item(ref, b(out) if raw64 else b64d(out))]
        if op == 'stream':
            # open a writer now, and finish another one: streams overlap
            s = Sink()
            self.open_streams.append((s, self.enc('aes').CreateEncryptingStreamWriter(s, encoder=None), data))
            rng.shuffle(self.open_streams)
            s, w, d = self.open_streams[0] if len(self.open_streams) > 2 else self.open_streams[-1]
            w.write(d)
            w.flush()
            w.close()
            self.open_streams = [x for x in self.open_streams if x[0] is not s]
            return [('iv', 0, b(s.value())[5:21])]
        if op == 'sign':
            k = rng.choice(['sign', 'att', 'unv'])
            o = self.signer(c['s'], keyczar.UnversionedSigner if k == 'unv' else keyczar.Signer)
            nonce = b'nn' if k == 'att' else b''
            out = b64d(produce(o, k, data, n(nonce), True))
            if c['s'] != 'dsa':
                return []
            sig = parse_out(k, out, b(data))[1]
            return [dsa_k(self.refs['dsa'], signed_msg(k, b(data), nonce), sig)]
        if op in ('open', 'opensigned'):
            return self.session(c, op == 'opensigned')
        if op in ('send', 'sendsigned'):
            signed = op == 'sendsigned'
            its = []
            if (c['slot'], signed) not in self.sess:
                its = self.session(c, signed)
            o, s, nonce = self.sess[(c['slot'], signed)]
            c['s'] = s
            raw = b64d(o.Encrypt(data))
            if not signed:
                return its + [('iv', 0, raw[5:21])]
            inner = raw[9:9 + int.from_bytes(raw[5:9], 'big')]
            its.append(('iv', 0, inner[5:21]))
            if s == 'dsa':
                its.append(dsa_k(self.refs['dsa'], signed_msg('att', inner, nonce), raw[9 + len(inner):]))
            return its
        if op in ('genaes', 'genhmac'):
            t = 'AES' if op == 'genaes' else 'HMAC_SHA1'
            size = rng.choice([None, 128, 192, 256]) if t == 'AES' else None
            how = rng.randrange(3)
            if how == 0:
                cls = keys.AesKey if t == 'AES' else keys.HmacKey
                ref = RefKey(t, str(cls.Generate(size) if size else cls.Generate()))
            elif how == 1:
                keyczart.AddKey(self.gen[t], rng.choice([keyinfo.PRIMARY, keyinfo.ACTIVE]), None, size)
                ref = list(load_ref(self.gen[t]).items())
                ref = max(ref)[1]
            else:
                z = keyczar.GenericKeyczar.Read(self.gen[t])
                z.AddVersion(keyinfo.ACTIVE, size)
                v = max(z.versions, key=lambda x: x.version_number)
                ref = RefKey(t, str(z.GetKey(v)))
            if size and ref.bits != size:
                raise ValueError('size')
            if not size and t == 'AES' and ref.bits != 128:
                raise ValueError('size')
            return key_items(ref)
        if op == 'genpair':
            t, size = rng.choice([('RSA_PRIV', 1024), ('RSA_PRIV', 2048), ('DSA_PRIV', 1024)])
            del GEN[:]
            keyczart.AddKey(self.gen[t], keyinfo.ACTIVE, None, size)
            if not GEN:
                return []
            return [('gen', s, x) for s, x in GEN if x is not None] or [('gen', GEN[-1][0], _real(GEN[-1][0] // 8))]
        if op == 'crypted':
            cr = keyczar.Crypter.Read(self.dirs['aes'])
            keyczart.AddKey(self.crypted, keyinfo.PRIMARY, cr, rng.choice([None, 256]))
            nums = sorted(int(f) for f in os.listdir(self.crypted) if f.isdigit())
            its = []
            for f in nums:
                raw = b64d(open(os.path.join(self.crypted, str(f))).read())
                its.append(('iv', 0, raw[5:21]))
            its += key_items(RefKey('AES', self.refs['aes'].unseal(raw).decode()))
            return its
        raise ValueError(op)

    def close(self):
        for d in list(self.dirs.values()) + [self.crypted] + list(self.gen.values()):
            rmdir(d)


def _rb(k):
    return rng.getrandbits(8 * k).to_bytes(k, 'big') if k else b''


def use(w, c):
    c = dict(c)
    before = len(STREAM)
    r = call(w.do, c)
    its = [item(*x) for x in r.val] if r.ok else []
    drawn = len(STREAM) - before
    if c['op'] == 'genpair' and GEN and GEN[-1][1] is None:
        drawn = 1 << 20          # the library's own source
    T.ev('use', op=c['op'], w=c['w'], s=c['s'], items=its, drawn=drawn, msg=r.msg, **r.fields())
    COUNT['operations'] += 1
    COUNT['items'] += len(its)


def forked(w, cs):
    """the same operations in a forked process and in this one"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            res = []
            for c in cs:
                c = dict(c)
                before = len(STREAM)
                r = call(w.do, c)
                its = [item(*x) for x in r.val] if r.ok else []
                for i in its:
                    i['at'] = -1 if i['at'] < 0 else -2      # found; positions differ per process
                res.append(dict(op=c['op'], w=c['w'], s=c['s'], items=its, drawn=len(STREAM) - before, msg=r.msg, **r.fields()))
            data = json.dumps(res).encode()
            while data:
                data = data[os.write(wr, data[:65536]):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    data = b''
    while True:
        x = os.read(rd, 65536)
        if not x:
            break
        data += x
    os.close(rd)
    os.waitpid(pid, 0)
    for e in json.loads(data.decode() or '[]'):
        for i in e['items']:
            if i['at'] == -2:
                i['at'] = -1
                e['drawn'] = 1 << 20
        T.ev('use', **e)
    COUNT['forks'] += 1
    for c in cs:
        use(w, c)


def threaded(w, n_threads, per):
    objs = [keyczar.Crypter.Read(w.dirs['aes']) for _ in range(2)]
    sg = [keyczar.Signer.Read(w.dirs['dsa'])]
    outs, old = [], sys.getswitchinterval()
    before = len(STREAM)

    def body(i):
        for k in range(per):
            try:
                if i % 4 == 3:
                    outs.append(('k', sg[0].Sign('equal')))
                else:
                    outs.append(('iv', objs[k % 2].Encrypt('equal')))
            except Exception as e:
                outs.append(('err', type(e).__name__))
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=body, args=(i,)) for i in range(n_threads)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(old)
    its, ok = [], True
    for k, o in outs:
        if k == 'iv':
            its.append(item('iv', 0, b64d(o)[5:21]))
        elif k == 'k':
            its.append(item(*dsa_k(w.refs['dsa'], b'equal\0', b64d(o)[5:])))
        else:
            ok = False
    T.ev('use', op='threads', w='', s='', items=its, drawn=len(STREAM) - before, msg='', res='ok' if ok else 'err', err='', kz=False)
    COUNT['threads'] += n_threads


def without(w, c):
    BROKEN[0] = True
    try:
        r = call(w.do, dict(c))
    finally:
        BROKEN[0] = False
    T.ev('nosource', op=c['op'], w=c['w'], s=c['s'], msg=r.msg, **r.fields())
    COUNT['without_source'] += 1


stand_in_generators()
observe()
hists = [x['hist'] for x in read_input()]
for hi, h in enumerate(hists):
    T.ev('reset')
    w = World()
    for i, c in enumerate(h):
        use(w, c)
        if i % 20 == 10:
            forked(w, [dict(x, slot=9) for x in h[i - 4:i]])
    if hi % 3 == 0:
        threaded(w, 8, 6)
    ops = {}
    for c in h:
        ops[(c['op'], c['w'], c['s'])] = c
    for c in [ops[k] for k in sorted(ops)][:12]:
        without(w, dict(c, slot=7))
    w.close()
for (kind, ln), vals in sorted(SAMPLES.items()):
    cols = list(zip(*vals)) if ln else []
    T.ev('stat', kind=kind, n=min(len(vals), 200), mindist=min([len(set(x[:200])) for x in cols] or [0]),
         twins=len(vals) >= 30 and any(cols[i] == cols[j] for i in range(ln) for j in range(i)))
T.close()
summary(**COUNT)
