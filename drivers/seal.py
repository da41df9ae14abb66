"""C08: encrypted key sets under rotation of the set and of its crypter."""
from use import *
import lifecycle_common as L

T = Trace(args.out)
patch_keygen()
det_random()

# ---- watch the key directory at every file-system event -------------------
watch = {'path': None, 'secrets': [], 'leak': False, 'on': False}


def forms(x):
    yield x
    yield x.hex().encode()
    yield base64.b64encode(x).rstrip(b'=')
    yield base64.urlsafe_b64encode(x).rstrip(b'=')


def secrets_of(ref):
    m = [ref.aes, ref.hmac] if ref.type == 'AES' else [ref.hmac] if ref.type == 'HMAC_SHA1' else ref.mat
    if ref.type == 'RSA_PRIV':
        m = [R.i2b(x) for x in (ref.d, ref.p, ref.q)]
    if ref.type == 'DSA_PRIV':
        m = [R.i2b(ref.x)]
    return [f for x in m for f in forms(x)]


def scan():
    p = watch['path']
    watch['on'] = False
    try:
        for root, _, files in os.walk(p):
            for f in files:
                try:
                    c = open(os.path.join(root, f), 'rb').read()
                except OSError:
                    continue
                views = [c]
                for dec in (base64.urlsafe_b64decode, base64.b64decode, bytes.fromhex):
                    try:
                        views.append(dec(c.strip().decode() + ('' if dec is bytes.fromhex else '=' * (-len(c.strip()) % 4))))
                    except Exception:
                        pass
                for s in watch['secrets']:
                    if any(s in v for v in views):
                        watch['leak'] = True
                if b'KeyString' in c or b'privateExponent' in c or b'"x"' in c:
                    watch['leak'] = True
    finally:
        watch['on'] = True


def hook(ev, a):
    if watch['on'] and (ev in ('open', 'os.rename', 'os.remove', 'os.link', 'os.truncate', 'os.chmod')):
        scan()


sys.addaudithook(hook)


_boxes = [0]


class Box(object):
    """a real set, its crypter A and a foreign crypter B"""

    def __init__(self, kind, ctype):
        self.kind = kind
        self.type, self.purpose, _ = L.KINDS[kind]
        self.path, self.adir, self.bdir = newdir(), newdir('A'), newdir('B')
        write_set(self.path, 'set', self.purpose, self.type, [], enc=False)
        sz = 2048 if ctype == 'RSA_PRIV' else rng.choice([128, 192, 256])
        self.asize = sz
        self.sizes = [[4096, 2048, 1024], [2048, 1024], [1024, 4096]][_boxes[0] % 3]
        _boxes[0] += kind.startswith('rsa')
        write_set(self.adir, 'A', 'DECRYPT_AND_ENCRYPT', ctype, [(1, 'PRIMARY', False, make_key(ctype, sz))])
        write_set(self.bdir, 'B', 'DECRYPT_AND_ENCRYPT', 'AES', [(1, 'PRIMARY', False, make_key('AES'))])
        self.arefs = {k.kid: k for k in load_ref(self.adir).values()}
        self.h = keyczar.Crypter.Read(self.adir)
        self.b = keyczar.Crypter.Read(self.bdir)
        T.ev('reset', kind=kind, dir=self.proj(), adir=project_dir(self.adir), bdir=project_dir(self.bdir))

    def proj(self):
        return project_dir(self.path, {'A': list(self.arefs.values()), 'B': list(load_ref(self.bdir).values())})

    def crypter(self, w):
        return {'none': None, 'h': self.h, 'b': self.b, 'a': None}[w]

    def acmd(self, c):
        if c['op'] == 'addkey':
            call(keyczart.AddKey, self.adir, STATUS[c['status']], None, self.asize if self.asize > 256 else None, _limit=60)
        else:
            call({'promote': keyczart.Promote, 'demote': keyczart.Demote, 'revoke': keyczart.Revoke}[c['op']], self.adir, c['v'])
        for k in load_ref(self.adir).values():
            self.arefs[k.kid] = k
        T.ev('a', adir=project_dir(self.adir))

    def loadc(self):
        self.h = keyczar.Crypter.Read(self.adir)
        T.ev('loadc')

    def dcmd(self, c, w):
        c = dict(c, size=0)
        if self.kind.startswith('rsa'):
            c['size'] = self.sizes.pop(0) if c['op'] == 'addkey' and self.sizes else 1024
        cr = self.crypter(w)
        watch.update(path=self.path, leak=False, on=cr is not None,
                     secrets=[s for k in self.refs() for s in secrets_of(k)])

        def go():
            if c['op'] == 'addkey':
                return keyczart.AddKey(self.path, STATUS[c['status']], cr, c['size'] or None)
            if cr is None:
                return {'promote': keyczart.Promote, 'demote': keyczart.Demote, 'revoke': keyczart.Revoke}[c['op']](
                    self.path, c['v'])
            czar = keyczar.GenericKeyczar(readers.EncryptedReader(readers.CreateReader(self.path), cr))
            getattr(czar, c['op'].capitalize())(c['v'])
            wr = writers.CreateWriter(self.path)
            czar.Write(wr, cr)
            if c['op'] == 'revoke':
                wr.Remove(c['v'])
            wr.Close()
        r = call(go, _limit=60)
        if cr is not None:
            watch['secrets'] = [s for k in self.refs() for s in secrets_of(k)]
            scan()
        watch['on'] = False
        T.ev('cmd', c=c, dir=self.proj(), leak=bool(watch['leak'] and cr is not None), msg=r.msg, **dict(r.fields(), **{'with': w}))

    def refs(self):
        on, watch['on'] = watch['on'], False
        res = []
        try:
            meta = json.load(open(os.path.join(self.path, 'meta')))
            for v in meta['versions']:
                t = open(os.path.join(self.path, str(v['versionNumber']))).read()
                if t.startswith('{'):
                    res.append(RefKey(self.type, t))
                    continue
                for k in list(self.arefs.values()) + list(load_ref(self.bdir).values()):
                    p = k.unseal(b64d(t))
                    if p is not None:
                        res.append(RefKey(self.type, p.decode()))
                        break
        except Exception:
            pass
        watch['on'] = on
        return res

    def roles(self):
        if self.purpose == 'SIGN_AND_VERIFY':
            return [keyczar.Signer, keyczar.Verifier, keyczar.UnversionedSigner, keyczar.UnversionedVerifier, keyczar.GenericKeyczar]
        return [keyczar.Crypter, keyczar.Encrypter, keyczar.GenericKeyczar]

    def open(self, cls, w):
        if w == 'none':
            return cls(readers.CreateReader(self.path)) if rng.random() < .5 else cls.Read(self.path)
        cr = keyczar.Crypter.Read(self.adir) if w == 'a' else self.crypter(w)
        return cls(readers.EncryptedReader(readers.CreateReader(self.path), cr))

    def works(self, obj, cls):
        """the primary key of the loaded object works, judged independently"""
        refs = self.refs()
        if obj.primary_version is None or cls in (keyczar.GenericKeyczar, keyczar.Verifier, keyczar.UnversionedVerifier):
            return True
        try:
            op = 'enc' if self.purpose == 'DECRYPT_AND_ENCRYPT' else 'unv' if cls is keyczar.UnversionedSigner else 'sign'
            out = produce(obj, op, 'probe', '', False)
            return judge(op, b(out), b'probe', b'', refs)[1] == tok(b'probe')
        except Exception:
            return False

    def probe(self):
        lst = []
        for w in ('none', 'h', 'b', 'a'):
            for cls in self.roles():
                r = call(self.open, cls, w)
                lst.append(dict(with_=0, obj=project_obj(r.val) if r.ok else NODIR, works=self.works(r.val, cls) if r.ok else True,
                                role=cls.__name__, **dict(r.fields(), **{'with': w})))
        T.ev('probe', list=lst)

    def damage(self):
        meta = json.load(open(os.path.join(self.path, 'meta')))
        if not meta['encrypted'] or not meta['versions']:
            return
        # only sets that the current handle reads, so that a failure is the damage's doing
        if not call(self.open, keyczar.GenericKeyczar, 'h').ok:
            return
        lst = []
        v = rng.choice(meta['versions'])['versionNumber']
        fn = os.path.join(self.path, str(v))
        good = open(fn).read()
        al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
        raw = b64d(good)
        bad = [b'', good[:-4].encode(), good[: len(good) // 2].encode(), good[4:].encode(), (good + good).encode(), None,
               b'\xff\xfe\x80garbage', u'\u20ac'.encode('utf8'), b'{}', b'null', os.urandom(60)]
        if self.refs():
            bad.append(json.dumps({'size': 256, 'hmacKeyString': b64e(bytes(32))}).encode())
        for k in load_ref(self.bdir).values():
            p = [x.unseal(raw) for x in self.arefs.values()]
            bad.append(b64e(k.seal(next(x for x in p if x is not None))).encode())     # the key, under a foreign crypter
        for _ in range(12):
            i = rng.randrange(len(raw))
            bad.append(b64e(raw[:i] + bytes([raw[i] ^ (1 << rng.randrange(8))]) + raw[i + 1:]).encode())
            i = rng.randrange(len(raw))
            bad.append(b64e(raw[:i]).encode())
            bad.append(b64e(raw[:-20][:i] + raw[-20:]).encode() if i < len(raw) - 20 else b'x')
        bad.append(b64e(raw + b'\0').encode())
        for x in bad:
            if x is None:
                os.remove(fn)
            else:
                open(fn, 'wb').write(x)
            cls = rng.choice(self.roles())
            r = call(self.open, cls, rng.choice(['h', 'h', 'none']))
            lst.append(dict(role=cls.__name__, file=x.hex() if x is not None else 'missing', msg=r.msg, **r.fields()))
        open(fn, 'w').write(good)
        T.ev('damage', list=lst)

    def close(self):
        for p in (self.path, self.adir, self.bdir):
            rmdir(p)


hists = [x['hist'] for x in read_input()]
order = ['aes', 'hmac', 'aes', 'rsasign', 'hmac', 'dsa', 'rsa']
for i, h in enumerate(hists):
    reset_pool()
    kind = order[i % len(order)]
    bx = Box(kind, 'RSA_PRIV' if kind == 'hmac' and i % 3 == 0 else 'AES')
    for s in h:
        keys.ACTIVE_CRYPT_LIB = rng.choice(['m2crypto', 'pycrypto'])
        if s['step'] == 'a':
            bx.acmd(s['c'])
        elif s['step'] == 'loadc':
            bx.loadc()
        elif s['step'] == 'd':
            bx.dcmd(s['c'], s['with'])
        elif s['step'] == 'probe':
            bx.probe()
        else:
            bx.damage()
    bx.probe()
    bx.close()
T.close()
summary(histories=len(hists), events=T.n)
