"""Common part of all drivers: they run the real keyczar code through its public
API, log one event per call (on success and on failure alike) and project the
observable state with independent code (lib/refcrypto.py)."""
import argparse
import base64
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import warnings

warnings.simplefilter('ignore')
import kzenv                      # noqa: F401  (must come first)
import refcrypto as R

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = kzenv.REPO

ap = argparse.ArgumentParser()
for a in ('out', 'work', 'tier', 'seed', 'prop', 'in', 'mode'):
    ap.add_argument('--' + a)
args = ap.parse_args()
TIER = args.tier or 'quick'
THOROUGH = TIER == 'thorough'
SEED = int(args.seed or 1)
PROP = args.prop
WORK = args.work
rng = random.Random(SEED * 7919 + 17)

# Reproducible runs: the operating system's random source, as the code under
# test sees it, is replaced by a seeded generator.
_det = random.Random(SEED * 104729 + 5)


def det_random():
    def f(k):
        x = _det.getrandbits(8 * k).to_bytes(k, 'big') if k else b''
        if k >= 12 and _det.random() < .15:
            # what chance would rarely give: special bytes at either end
            j = _det.choice([1, 1, 2, 2, 3, 4])
            e = bytes([_det.choice([0, 0, 0, 255, 0x20, 0x0a, 0xfb, 1, 0x80])]) * j
            x = e + x[j:] if _det.random() < .5 else x[:-j] + e
        return x
    os.urandom = f
    random._urandom = f


# keyczart prints warnings and progress; keep stdout for SUMMARY lines
_real_stdout = sys.stdout
sys.stdout = open(os.devnull, 'w')

from keyczar import errors, keyczar, keydata, keyinfo, keyczart, keys, readers, util, writers  # noqa: E402


def summary(**kw):
    _real_stdout.write('SUMMARY ' + json.dumps(kw) + '\n')
    _real_stdout.flush()


class Trace(object):
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def ev(self, ev, **kw):
        kw['ev'] = ev
        self.f.write(json.dumps(kw) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


# ------------------------------------------------------------------ calls
class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)
KNOWN_ERRORS = set(n for n in dir(errors) if isinstance(getattr(errors, n), type))


class Res(object):
    """Outcome of one call of the code under test."""
    __slots__ = ('ok', 'val', 'err', 'kz', 'msg')

    def __init__(self, ok, val, err, kz, msg=''):
        self.ok, self.val, self.err, self.kz, self.msg = ok, val, err, kz, msg

    def fields(self):
        return {'res': 'ok' if self.ok else 'err', 'err': self.err, 'kz': self.kz}


def call(fn, *a, **k):
    limit = k.pop('_limit', 20)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = fn(*a, **k)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return Res(True, v, '', False)
    except errors.KeyczarError as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return Res(False, None, type(e).__name__, True, str(e))
    except Hang:
        return Res(False, None, 'HANG', False)
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return Res(False, None, type(e).__name__, False, str(e)[:200])
    except SystemExit as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return Res(False, None, 'SystemExit', False, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# ------------------------------------------------------- bytes and tokens
def b(s):
    """native byte string of keyczar (str, one char per byte) -> bytes"""
    return s if isinstance(s, bytes) else s.encode('latin-1')


def n(bs):
    """bytes -> native byte string"""
    return bs.decode('latin-1')


def hx(s):
    """hex of a value returned by the code; '?type' if it is no byte string"""
    if isinstance(s, bytes):
        return s.hex()
    if isinstance(s, str):
        try:
            return s.encode('latin-1').hex()
        except UnicodeError:
            return '?unicode'
    return '?' + type(s).__name__


def tok(s, limit=64):
    """value token: hex for short strings, digest for long ones"""
    h = hx(s)
    if len(h) <= 2 * limit or h.startswith('?'):
        return h
    return 'h' + hashlib.sha1(b(s)).hexdigest() + ':%d' % len(b(s))


def b64d(s):
    s = s.strip()
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def b64e(bs):
    return base64.urlsafe_b64encode(bs).decode().rstrip('=')


# ---------------------------------------------------------- reference keys
class RefKey(object):
    """A key parsed from its JSON text without keyczar."""

    def __init__(self, ktype, text):
        j = json.loads(text) if isinstance(text, str) else text
        self.type, self.j = ktype, j
        self.size = j['size']
        if ktype == 'AES':
            self.aes = b64d(j['aesKeyString'])
            self.hmac = b64d(j['hmacKey']['hmacKeyString'])
            self.bits = len(self.aes) * 8
            self.mat = [self.aes, self.hmac]
            self.kid = R.sha1(R.i4(len(self.aes)) + self.aes + self.hmac)[:4].hex()
            self.shape = (set(j) == {'mode', 'size', 'aesKeyString', 'hmacKey'} and j['mode'] == 'CBC'
                          and set(j['hmacKey']) == {'size', 'hmacKeyString'}
                          and j['hmacKey']['size'] == len(self.hmac) * 8)
        elif ktype == 'HMAC_SHA1':
            self.hmac = b64d(j['hmacKeyString'])
            self.bits = len(self.hmac) * 8
            self.mat = [self.hmac]
            self.kid = R.sha1(self.hmac)[:4].hex()
            self.shape = set(j) == {'size', 'hmacKeyString'}
        elif ktype in ('RSA_PRIV', 'RSA_PUB'):
            pub = j['publicKey'] if ktype == 'RSA_PRIV' else j
            self.n, self.e = R.b2i(b64d(pub['modulus'])), R.b2i(b64d(pub['publicExponent']))
            self.k = (self.n.bit_length() + 7) // 8
            self.bits = self.n.bit_length()
            self.pub = [R.i2b(self.n), R.i2b(self.e)]
            self.mat = list(self.pub)
            self.shape = set(pub) == {'modulus', 'publicExponent', 'size'}
            if ktype == 'RSA_PRIV':
                f = [R.b2i(b64d(j[x])) for x in ('privateExponent', 'primeP', 'primeQ',
                                                 'primeExponentP', 'primeExponentQ', 'crtCoefficient')]
                self.d, self.p, self.q, dp, dq, c = f
                self.mat += [R.i2b(x) for x in f]
                self.shape = (self.shape and pub['size'] == j['size']
                              and set(j) == {'publicKey', 'privateExponent', 'primeP', 'primeQ',
                                             'primeExponentP', 'primeExponentQ', 'crtCoefficient', 'size'}
                              and self.p * self.q == self.n and dp == self.d % (self.p - 1)
                              and dq == self.d % (self.q - 1) and c * self.q % self.p == 1
                              and (self.e * self.d) % (self.p - 1) == 1)
            self.kid = R.sha1(b''.join(R.i4(len(x)) + x for x in self.pub))[:4].hex()
        elif ktype in ('DSA_PRIV', 'DSA_PUB'):
            pub = j['publicKey'] if ktype == 'DSA_PRIV' else j
            self.p, self.q, self.g, self.y = [R.b2i(b64d(pub[x])) for x in 'pqgy']
            self.bits = self.p.bit_length()
            self.pub = [R.i2b(x) for x in (self.p, self.q, self.g, self.y)]
            self.mat = list(self.pub)
            self.shape = set(pub) == {'p', 'q', 'g', 'y', 'size'}
            if ktype == 'DSA_PRIV':
                self.x = R.b2i(b64d(j['x']))
                self.mat.append(R.i2b(self.x))
                self.shape = self.shape and set(j) == {'publicKey', 'x', 'size'} \
                    and pub['size'] == j['size'] and pow(self.g, self.x, self.p) == self.y
            self.kid = R.sha1(b''.join(R.i4(len(x)) + x for x in self.pub))[:4].hex()
        else:
            raise ValueError(ktype)
        self.fp = self._fp(self.mat)
        self.pubfp = self._fp(getattr(self, 'pub', self.mat))

    @staticmethod
    def _fp(parts):
        return hashlib.sha1(b'|'.join(x.hex().encode() for x in parts)).hexdigest()[:20]

    # -- reference operations ------------------------------------------
    def unseal(self, raw):
        """bytes of an AES or RSA keyczar ciphertext -> plaintext bytes or None"""
        if raw[:5] != b'\0' + bytes.fromhex(self.kid):
            return None
        if self.type == 'AES':
            if len(raw) < 41 or R.hmac_sha1(self.hmac, raw[:-20]) != raw[-20:]:
                return None
            ct = raw[21:-20]
            if len(ct) % 16 or not ct:
                return None
            p = R.aes_cbc_decrypt(self.aes, raw[5:21], ct)
            if not 1 <= p[-1] <= 16 or p[-p[-1]:] != bytes([p[-1]]) * p[-1]:
                return None
            return p[:-p[-1]]
        em = R.i2b(pow(R.b2i(raw[5:]), self.d, self.n), self.k)
        r = R.oaep_decode(em)
        return r[1] if r else None

    def seal(self, pt, iv=None):
        iv = iv or bytes(rng.randrange(256) for _ in range(16))
        m = b'\0' + bytes.fromhex(self.kid) + iv + R.aes_cbc_encrypt(self.aes, iv, R.pad(pt))
        return m + R.hmac_sha1(self.hmac, m)


_POOL = json.load(open(os.path.join(VERIF, 'fixtures', 'keypool.json')))


def _rb(k):
    return bytes(rng.randrange(256) for _ in range(k))


def pool_keys(ktype, size):
    fam = ktype[:3]
    l = _POOL[fam][str(size)]
    return [x['publicKey'] for x in l] if ktype.endswith('PUB') else l


_pool_pos = {}


def make_key(ktype, size=None):
    """A new key in JSON text form, made without keyczar."""
    if ktype == 'AES':
        size = size or 128
        return json.dumps({'mode': 'CBC', 'size': size, 'aesKeyString': b64e(_rb(size // 8)),
                           'hmacKey': {'size': 256, 'hmacKeyString': b64e(_rb(32))}})
    if ktype == 'HMAC_SHA1':
        return json.dumps({'size': 256, 'hmacKeyString': b64e(_rb(32))})
    size = size or 1024
    l = pool_keys(ktype, size)
    i = _pool_pos.get((ktype[:3], size), 0)
    _pool_pos[(ktype[:3], size)] = i + 1
    return json.dumps(l[i % len(l)])


def patch_keygen():
    """Let the *library's* RSA/DSA generators hand out fixture keys (speed)."""
    from Crypto.PublicKey import RSA, DSA
    real = (RSA.generate, DSA.generate)

    def rsa(size, randfunc=None, *a, **k):
        if randfunc:
            randfunc(16)      # the generator draws from the source it is given
        l = _POOL['RSA'].get(str(size))
        if not l:
            return real[0](size, randfunc, *a, **k)
        i = _pool_pos.get(('RSA', size), 0)
        _pool_pos[('RSA', size)] = i + 1
        if i >= 200:
            return real[0](size, randfunc, *a, **k)
        r = RefKey('RSA_PRIV', l[i % len(l)])
        return RSA.construct((r.n, r.e, r.d, r.q, r.p, pow(r.q, -1, r.p)))

    def dsa(size, randfunc=None, *a, **k):
        if randfunc:
            randfunc(16)
        l = _POOL['DSA'][str(size)]
        i = _pool_pos.get(('DSA', size), 0)
        _pool_pos[('DSA', size)] = i + 1
        if i >= 200:
            return real[1](size, randfunc, *a, **k)
        r = RefKey('DSA_PRIV', l[i % len(l)])
        return DSA.construct((r.y, r.g, r.p, r.q, r.x))
    RSA.generate, DSA.generate = rsa, dsa


def reset_pool():
    _pool_pos.clear()


# ------------------------------------------------------------ directories
_dirno = [0]


def newdir(prefix='d'):
    _dirno[0] += 1
    p = os.path.join(WORK, '%s%d' % (prefix, _dirno[0]))
    os.mkdir(p)
    return p


def rmdir(p):
    assert os.path.realpath(p).startswith(os.path.realpath(WORK) + os.sep)
    shutil.rmtree(p, ignore_errors=True)


def write_set(path, name, purpose, ktype, vers, enc=False, crypter=None):
    """Materialise a key set independently of keyczar.
    vers: list of (number, status, exportable, keytext[, crypter RefKey])"""
    meta = {'name': name, 'purpose': purpose, 'type': ktype, 'encrypted': enc,
            'versions': [{'versionNumber': v[0], 'status': v[1], 'exportable': v[2]} for v in vers]}
    with open(os.path.join(path, 'meta'), 'w') as f:
        json.dump(meta, f)
    for v in vers:
        t = v[3]
        seal = v[4] if len(v) > 4 else crypter
        if seal:
            t = b64e(seal.seal(t.encode()))
        with open(os.path.join(path, str(v[0])), 'w') as f:
            f.write(t)


def load_ref(path, unseal=None):
    """-> {version: RefKey} of a plain directory"""
    meta = json.load(open(os.path.join(path, 'meta')))
    res = {}
    for v in meta['versions']:
        t = open(os.path.join(path, str(v['versionNumber']))).read()
        res[v['versionNumber']] = RefKey(meta['type'], t)
    return res


NODIR = {'meta': False, 'okmeta': True, 'name': '', 'purpose': '', 'type': '', 'enc': False,
         'vers': [], 'extra': []}


def _str(x):
    return x if isinstance(x, str) else '?' + type(x).__name__


def _meta_fields(meta):
    return {'meta': True, 'okmeta': True, 'name': _str(meta['name']), 'purpose': _str(meta['purpose']),
            'type': _str(meta['type']), 'enc': meta['encrypted'] is True}


def _ver(v):
    num = v['versionNumber']
    return {'n': num if isinstance(num, int) and not isinstance(num, bool) else -1,
            'st': _str(v['status']), 'exp': v['exportable'] is True,
            'key': '', 'pub': '', 'size': -1, 'bits': -1, 'kid': '', 'seal': '', 'sealkid': '', 'form': 'missing',
            'shape': False}


def _fill(r, ktype, text):
    k = RefKey(ktype, text)
    r.update(key=k.fp, pub=k.pubfp, size=k.size if isinstance(k.size, int) else -1, bits=k.bits, kid=k.kid,
             form='ok', shape=bool(k.shape))
    return k


def project_dir(path, crypters=None):
    """Observable state of a key directory.  crypters: {tag: [RefKey,...]}"""
    d = dict(NODIR)
    d['vers'] = []
    try:
        files = sorted(os.listdir(path))
    except OSError:
        return d
    if 'meta' not in files:
        d['extra'] = files
        return d
    try:
        meta = json.loads(open(os.path.join(path, 'meta')).read())
        d.update(_meta_fields(meta))
        d['okmeta'] = isinstance(meta['encrypted'], bool)
        vl = [_ver(v) for v in meta['versions']]
    except Exception:
        d.update(meta=True, okmeta=False)
        d['extra'] = files
        return d
    names = {'meta'}
    for r in vl:
        fn = str(r['n'])
        names.add(fn)
        try:
            text = open(os.path.join(path, fn)).read()
        except Exception:
            d['vers'].append(r)
            continue
        r['form'] = 'bad'
        try:
            _fill(r, d['type'], text)
        except Exception:
            try:
                raw = b64d(text)
            except Exception:
                raw = b''
            for tag, ks in (crypters or {}).items():
                for k in ks:
                    p = k.unseal(raw) if raw else None
                    if p is not None:
                        try:
                            _fill(r, d['type'], p.decode())
                            r['seal'], r['sealkid'] = tag, k.kid
                        except Exception:
                            pass
        d['vers'].append(r)
    d['extra'] = [f for f in files if f not in names]
    return d


def project_obj(czar, seal=''):
    """The same projection of a key set object in memory (public API only)."""
    d = dict(NODIR)
    d['vers'] = []
    try:
        meta = json.loads(str(czar.metadata))
        d.update(_meta_fields(meta))
        d['enc'] = seal != ''
        objs = {}
        for v in czar.versions:
            objs[v.version_number] = czar.GetKey(v)
        for v in meta['versions']:
            r = _ver(v)
            if r['n'] in objs:
                r['form'] = 'bad'
                try:
                    _fill(r, d['type'], str(objs[r['n']]))
                    r['seal'] = seal
                except Exception:
                    pass
            d['vers'].append(r)
        # a version object without metadata (or the reverse) is not a key set
        extra = [str(x) for x in objs if x not in [r['n'] for r in d['vers']]]
        d['extra'] = extra
    except Exception as e:
        d['okmeta'] = False
        d['extra'] = [type(e).__name__]
    return d


def read_input():
    res = []
    with open(getattr(args, 'in')) as f:
        for line in f:
            if line.strip():
                res.append(json.loads(line))
    return res


STATUS = {'PRIMARY': keyinfo.PRIMARY, 'ACTIVE': keyinfo.ACTIVE, 'INACTIVE': keyinfo.INACTIVE}
PURPOSE = {'DECRYPT_AND_ENCRYPT': keyinfo.DECRYPT_AND_ENCRYPT, 'ENCRYPT': keyinfo.ENCRYPT,
           'SIGN_AND_VERIFY': keyinfo.SIGN_AND_VERIFY, 'VERIFY': keyinfo.VERIFY}
