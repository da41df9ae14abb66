"""C05, C06, C17: attempts to open altered, spliced, forged and malformed input."""
from use import *

T = Trace(args.out)
patch_keygen()
det_random()
INP = read_input()[0] if getattr(args, 'in') else {'aes': [], 'sig': []}
_rb = lambda k: bytes(rng.randrange(256) for _ in range(k))
batch = []
total = [0]


def flush():
    global batch
    if batch:
        T.ev('try', list=batch)
        total[0] += len(batch)
        batch = []


def item(kind, r, val, **kw):
    d = dict(kind=kind, kt='', op='', raw='', data='', nonce='', base=0, text=False, again=False, want='')
    d.update(r.fields())
    d['val'] = val if r.ok else ''
    d.update(kw)
    batch.append(d)
    if len(batch) >= 50:
        flush()


def short(x):
    """long byte strings appear in the trace by their hash"""
    return x.hex() if len(x) <= 1500 else '#' + hashlib.sha256(x).hexdigest()


def spots(ln, k):
    """positions to alter in a long string: around all powers of two, both ends, and random ones"""
    res = {0, ln - 1, ln // 2}
    p = 16
    while p < ln + 2:
        res |= {p - 1, p, p + 1, ln - p, ln - p - 1, ln - p + 1}
        p *= 2
    for m in (20, 36, 100, 1000, 10000, 100000, 1000000):
        res |= {m, m - 1, ln - m}
    res |= {rng.randrange(ln) for _ in range(k)}
    return sorted(x for x in res if 0 <= x < ln)


def flip(x, pos=None, mask=None):
    if not x:
        return b'\1'
    pos = rng.randrange(len(x)) if pos is None else pos
    return x[:pos] + bytes([x[pos] ^ (mask or 1 << rng.randrange(8))]) + x[pos + 1:]


def load(ktype, purpose, vers, *classes):
    d = newdir()
    write_set(d, 'x', purpose, ktype, vers)
    res = [c.Read(d) for c in classes]
    rmdir(d)
    return res


# ------------------------------------------------------------- ciphertexts
class Crypt(object):
    """set {a primary, b active}; c is a key outside of the set"""

    def __init__(self, ktype, size=None, lib=None, alone=False):
        self.kt = ktype
        ta, tb, tc = [make_key(ktype, size) for _ in range(3)]
        self.keys = [RefKey(ktype, t) for t in (ta, tb, tc)]
        pu = 'DECRYPT_AND_ENCRYPT'
        self.obj, = load(ktype, pu, [(1, 'PRIMARY', False, ta), (2, 'ACTIVE', False, tb)][:1 if alone else 2], keyczar.Crypter)
        others = [load(ktype, pu, [(1, 'PRIMARY', False, t)], keyczar.Crypter)[0] for t in (ta, tb, tc)]
        self.makers = others
        T.ev('reset', kids=[k.kid for k in self.keys[:1 if alone else 2]])
        self.recs = {}

    def seal(self, i, which, pt):
        r = call(self.makers[which].Encrypt, n(pt), None)
        raw = b(r.val) if r.ok else b''
        flush()
        T.ev('sealed', id=i, kid=self.keys[which].kid, raw=short(raw), pt=short(pt))
        self.recs[i] = (raw, pt)
        return raw

    def dec(self, raw, base=1, again=False):
        r = call(self.obj.Decrypt, n(raw), None)
        item('dec', r, short(b(r.val)) if r.ok and isinstance(r.val, str) else hx(r.val), kt=self.kt, raw=short(raw), base=base,
             again=again, want=short(self.recs[base][1]) if again else '')

    def dectext(self, text, base=1):
        s = ''.join(text.split())
        raw = '?'
        try:
            if len(s) % 4 != 1:
                raw = base64.urlsafe_b64decode(s.encode('latin-1') + b'=' * (-len(s) % 4)).hex()
        except Exception:
            pass
        r = call(self.obj.Decrypt, text)
        item('dec', r, hx(r.val), kt=self.kt, raw=raw, base=base, text=True)

    def again(self):
        for i in self.recs:
            if i in (1, 2, 3):
                self.dec(self.recs[i][0], i, again=True)


def cuts(raw):
    return [raw[0:1], raw[1:5], raw[5:21], raw[21:37], raw[37:53], raw[53:]]


def recipe(c, rc):
    parts = {i: cuts(c.recs[i][0]) for i in (1, 2, 3, 4)}
    out = b''
    for i, ch in enumerate(rc):
        own = parts[1][i]
        out += {'own': own, 'r2': parts[2][i], 'r3': parts[3][i], 'r4': parts[4][i], 'flip': flip(own),
                'drop': b'', 'dup': own + own}[ch]
    return out


def aes_mutations(c, base):
    raw = c.recs[base][0]
    k = c.keys[0]
    D = lambda x: c.dec(x, base)
    for i in range(len(raw)):
        D(flip(raw, i))
        D(flip(raw, i, 0x80))
    for v in range(1, 256):
        D(bytes([v]) + raw[1:])
    for i in range(len(raw)):
        D(raw[:i])
        D(raw[i + 1:])
        D(raw[:i] + raw[i + 1:])
    for j in list(range(1, 41)) + [64, 1000]:
        D(raw + bytes(j))
        D(raw + _rb(j))
        D(raw[:-20] + bytes(j) + raw[-20:])
        D(raw[:5] + bytes(j) + raw[5:])
    blocks = [raw[i:i + 16] for i in range(5, len(raw) - 20, 16)]
    for i in range(len(blocks)):
        for j in range(len(blocks)):
            bl = list(blocks)
            bl[i], bl[j] = bl[j], bl[i]
            D(raw[:5] + b''.join(bl) + raw[-20:])
            D(raw[:5] + b''.join(blocks[i:j + 1]) + raw[-20:])
    body, mac = raw[:-20], raw[-20:]
    # wrong authenticators over unchanged and changed bodies
    for bd in (body, flip(body, 25), flip(body, 6)):
        for m in (b'', bytes(20), b'\xff' * 20, R.sha1(bd), R.hmac_sha1(b'', bd), R.hmac_sha1(k.aes, bd),
                  R.hmac_sha1(c.keys[1].hmac, bd), R.hmac_sha1(k.hmac, bd[5:]), R.hmac_sha1(k.hmac, bd[21:]),
                  R.hmac_sha1(k.hmac, b''), R.hmac_sha1(k.hmac, bd + mac), R.hmac_sha1(bytes(32), bd),
                  R.hmac_sha1(k.hmac[:20], bd), mac[::-1]):
            if bd + m != raw:
                D(bd + m)
        good = R.hmac_sha1(k.hmac, bd)
        for i in range(20):
            D(bd + good[:i] + bytes(x ^ 1 for x in good[i:]))      # right prefix, wrong rest
            D(bd + bytes(x ^ 1 for x in good[:i + 1]) + good[i + 1:])    # wrong prefix, right rest
            D(bd + flip(good, i, 0x80))
            D(bd + flip(good, i, 0x01))
            if i:
                D(bd + good[:i])
                D(bd + good[i:])
    # two errors that cancel out when summed or xor-ed up
    for i in range(19):
        x = bytearray(mac)
        x[i] ^= 4
        x[i + 1] ^= 4
        D(body + bytes(x))
        x = bytearray(mac)
        x[i], x[i + 1] = x[i + 1], x[i]
        if bytes(x) != mac:
            D(body + bytes(x))


def keyless_macs(c, count):
    """anybody can compute these authenticators: bytes of the message itself, digests without the key"""
    k = c.keys[0]
    hdr = c.recs[1][0][:5]
    import hashlib
    for i in range(count):
        iv, ct = _rb(16), _rb(16 * rng.choice([1, 1, 1, 2, 3, 4]))
        if i % 3 == 0:
            raw = c.recs[rng.choice([1, 2, 5])][0]
            iv, ct = raw[5:21], raw[21:-20]
            if i % 2:
                ct = flip(ct)
        body = hdr + iv + ct
        ms = [(x * 20)[:20] for x in (body, iv + ct, ct, iv, hdr, hdr[1:])] + [x[-20:].rjust(20, b'\0') for x in (body, ct, ct[:-16] + iv)]
        ms += [x[::-1] for x in ms]
        ms += [bytes([v]) * 20 for v in (0, 1, 0x20, 0x30, 0x7f, 0x80, 0xff)] + [_rb(20), bytes(range(20))]
        ms += [R.sha1(x) for x in (body, iv + ct, ct, iv, b'', hdr)]
        ms += [hashlib.md5(body).digest() + bytes(4), hashlib.sha256(body).digest()[:20]]
        ms += [R.hmac_sha1(kk, x) for kk in (b'', hdr, hdr[1:], iv, bytes(32), b'keyczar', body) for x in (body, iv + ct, ct)]
        for m in ms:
            if body + m != c.recs[1][0]:
                c.dec(body + m)


def text_mutations(c, base):
    raw = c.recs[base][0]
    t = b64e(raw)
    D = lambda x: c.dectext(x, base)
    al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
    for i in range(0, len(t)):
        x = rng.choice(al.replace(t[i], ''))
        D(t[:i] + x + t[i + 1:])
        D(t[:i] + t[i + 1:])
        if i % 5 == 0:
            D(t[:i] + rng.choice(' \n\t\r') + t[i:])
            D(t[:i])
            D(t[:i] + x + t[i:])
    for x in al:
        D(t[:-1] + x)
        D(t + x)


def large_ciphertexts(c):
    """alterations anywhere in long ciphertexts"""
    for i, ln in enumerate([1000, 5000, 20000, 70000, 300000] + ([1100000, 3000000] if THOROUGH else [1100000])):
        raw = c.seal(20 + i, 0, _rb(ln) if ln < 100000 else rng.getrandbits(8 * ln).to_bytes(ln, 'big'))
        c.dec(raw, 20 + i, again=True)
        sp = spots(len(raw), 10)
        if ln > 100000:
            sp = rng.sample(sp, min(len(sp), 60 if THOROUGH else 25)) + [len(raw) - 30, len(raw) - 25, 5, 22]
        for j in sp:
            c.dec(flip(raw, j), 20 + i)
        for j in rng.sample(sp, 8):
            j16 = 5 + (j - 5) // 16 * 16
            c.dec(raw[:j16] + raw[-20:], 20 + i)
            c.dec(raw[:j16] + raw[j16 + 16:], 20 + i)
            c.dec(raw[:j16] + raw[j16 + 16:j16 + 32] + raw[j16:j16 + 16] + raw[j16 + 32:], 20 + i)
        c.dec(raw[:-20] + _rb(16) + raw[-20:], 20 + i)
        flush()


def run_c05():
    recipes = INP['aes']
    cfgs = [(128, 'm2crypto'), (256, 'pycrypto')] if not THOROUGH else \
        [(128, 'm2crypto'), (192, 'm2crypto'), (256, 'm2crypto'), (128, 'pycrypto'), (256, 'pycrypto')]
    for ci, (size, lib) in enumerate(cfgs):
        keys.ACTIVE_CRYPT_LIB = lib
        c = Crypt('AES', size)
        c.seal(1, 0, _rb(17 + rng.randrange(15)))
        c.seal(2, 0, _rb(17 + rng.randrange(15)))
        c.seal(3, 1, _rb(17 + rng.randrange(15)))
        c.seal(4, 2, _rb(17 + rng.randrange(15)))
        for i, pl in enumerate([0, 15, 16, 48, 100]):
            c.seal(5 + i, 0, _rb(pl))
        for j, rc in enumerate(recipes):
            if j % len(cfgs) == ci or THOROUGH:
                c.dec(recipe(c, rc))
        for base in ([1, 5, 8] if ci == 0 or THOROUGH else [6]):
            aes_mutations(c, base)
        text_mutations(c, 5 if ci else 1)
        keyless_macs(c, 60 if THOROUGH else 12)
        if ci == 0 or THOROUGH:
            large_ciphertexts(c)
        c.again()
        flush()
    keys.ACTIVE_CRYPT_LIB = 'm2crypto' if keys.EVP else 'pycrypto'
    # a set of a single key
    c = Crypt('AES', rng.choice([128, 192, 256]), alone=True)
    c.seal(1, 0, _rb(rng.randrange(40)))
    c.seal(4, 1, _rb(20))
    aes_mutations(c, 1)
    text_mutations(c, 1)
    c.dec(c.recs[4][0], 4)
    c.dec(c.recs[1][0], 1, again=True)
    flush()
    rsa_attempts(THOROUGH)


def rsa_attempts(deep):
    c = Crypt('RSA_PRIV', 1024)
    for i, (w, pl) in enumerate([(0, 10), (0, 86), (1, 0), (2, 5)]):
        c.seal(i + 1, w, _rb(pl))
    k = c.keys[0]
    for base in (1, 2):
        raw = c.recs[base][0]
        D = lambda x: c.dec(x, base)
        for i in range(0, len(raw), 1 if deep or i_small(raw) else 3):
            D(flip(raw, i))
        for i in list(range(0, 12)) + list(range(120, len(raw))):
            D(raw[:i])
        for z in (1, 2, 16):
            D(raw[:5] + bytes(z) + raw[5:])
            D(raw + bytes(z))
            D(raw[:5] + raw[5 + z:])
        cv = R.b2i(raw[5:])
        for x in (cv + k.n, cv * 2 % k.n, k.n - cv, 0, 1, k.n - 1, k.n, k.n + 1, (1 << 1024) - 1, cv * cv % k.n,
                  pow(cv, -1, k.n), 2, 1 << 1023):
            D(raw[:5] + R.i2b(x))
            D(raw[:5] + R.i2b(x, max(128, (x.bit_length() + 7) // 8)))
        D(c.recs[3][0][:5] + raw[5:])
        D(c.recs[4][0][:5] + raw[5:])
        D(raw[:5] + c.recs[3][0][5:])
        for v in (1, 2, 255):
            D(bytes([v]) + raw[1:])
        for _ in range(60 if deep else 20):
            D(raw[:5] + _rb(128))
        if PROP == 'C05':
            # enough attempts to meet an encoding whose few fixed bytes are right by chance
            for _ in range(3000 if deep else 700):
                D(flip(raw, 6 + rng.randrange(len(raw) - 6), rng.randrange(1, 256)))
    # blocks with a broken encoding
    for em in (oaep_garbage(k) if PROP == 'C17' else oaep_broken(k)):
        x = R.i2b(pow(R.b2i(em), k.e, k.n), k.k)
        c.dec(b'\0' + bytes.fromhex(k.kid) + x, 1)
    c.again()
    flush()


def i_small(raw):
    return len(raw) < 100


def oaep_mask(db, seed, y=b'\0'):
    mdb = R._xor(db, R.mgf1(seed, len(db)))
    return y + R._xor(seed, R.mgf1(mdb, 20)) + mdb


def oaep_broken(k):
    """no encoding of any message: wrong label, no or another delimiter, wrong seed mask"""
    h = R.sha1(b'')
    L = k.k - 21
    msg = b'other message'
    rest = bytes(L - 21 - len(msg)) + b'\1' + msg
    for i in range(20):
        yield oaep_mask(flip(h, i) + rest, _rb(20))
    for lab in (b'\0', b'x', _rb(3)):
        yield oaep_mask(R.sha1(lab) + rest, _rb(20))
    for bad in (bytes(20), b'\xff' * 20, _rb(20), h[::-1]):
        yield oaep_mask(bad + rest, _rb(20))
    for dl in (0x00, 0x02, 0x80, 0xff, 0x03, 0x11):
        yield oaep_mask(h + bytes(L - 21 - len(msg)) + bytes([dl]) + (msg if dl else bytes(len(msg))), _rb(20))
        if dl:
            yield oaep_mask(h + bytes([dl]) + rest[1:], _rb(20))
    good = oaep_mask(h + rest, _rb(20))
    for i in range(1, 21):
        yield flip(good, i)
    for i in rng.sample(range(21, k.k), 20):
        yield flip(good, i)
    yield good[1:21] + b'\0' + good[21:]


def oaep_garbage(k):
    h = R.sha1(b'')
    L = k.k - 21
    mask = oaep_mask
    for db in (h + bytes(L - 20), h + bytes(L - 21) + b'\1', h + b'\2' + bytes(L - 21), _rb(L),
               h[:19] + b'\0' + bytes(L - 21) + b'\1', h + b'\1' * (L - 20), bytes(L)):
        yield mask(db[:L], _rb(20))
    for em in (bytes(k.k), bytes(k.k - 1) + b'\1', bytes(30) + _rb(k.k - 30), bytes(k.k - 43) + _rb(43),
               bytes(k.k - 42) + _rb(42), bytes(k.k - 41) + _rb(41), b'\0' + _rb(k.k - 1)):
        yield em


# -------------------------------------------------------------- signatures
class Signs(object):
    def __init__(self, ktype, alone=False):
        self.kt = ktype
        texts = [make_key(ktype) for _ in range(3)]
        self.keys = [RefKey(ktype, t) for t in texts]
        pu = 'SIGN_AND_VERIFY'
        vers = [(1, 'ACTIVE', False, texts[0]), (2, 'PRIMARY', False, texts[1])][:1 if alone else 2]
        self.ver, self.unv = load(ktype, pu, vers, keyczar.Verifier, keyczar.UnversionedVerifier)
        self.mk = [load(ktype, pu, [(1, 'PRIMARY', False, t)], keyczar.Signer, keyczar.UnversionedSigner)
                   for t in texts]
        if ktype != 'HMAC_SHA1' and rng.random() < .5:
            pt = ktype.replace('PRIV', 'PUB')
            pv = [(v[0], v[1], v[2], json.dumps(json.loads(v[3])['publicKey'])) for v in vers]
            self.ver, self.unv = load(pt, 'VERIFY', pv, keyczar.Verifier, keyczar.UnversionedVerifier)
        T.ev('reset', kids=[k.kid for k in self.keys[:1 if alone else 2]])
        self.recs = {}
        self.id = 0

    def sign(self, which, op, data, nonce=b''):
        r = call(produce, self.mk[which][1 if op == 'unv' else 0], op, n(data), n(nonce), False)
        raw = b(r.val) if r.ok else b''
        self.id += 1
        sig = raw if op == 'unv' else raw[5:] if op == 'sign' else raw[9 + len(data):]
        flush()
        T.ev('signed', id=self.id, op=op, kid=self.keys[which].kid, kt=self.kt, data=data.hex(), nonce=nonce.hex(),
             sig=sig.hex())
        self.recs[self.id] = (op, data, nonce, raw, sig)
        return self.id

    def verify(self, op, raw, data, nonce=b'', again=False):
        obj = self.unv if op == 'unv' else self.ver
        if op == 'att':
            r = call(obj.AttachedVerify, n(raw), n(nonce), None)
            val = ('NONE' if r.val is None else hx(r.val)) if r.ok else ''
            want = data.hex()
        else:
            r = call(obj.Verify, n(data), n(raw), None)
            val = verdict(r.val) if r.ok else ''
            want = 'TRUE'
        item('ver', r, val, kt=self.kt, op=op, raw=raw.hex(), data=data.hex(), nonce=nonce.hex(), again=again,
             want=want if again else '')

    def again(self, ids):
        for i in ids:
            op, data, nonce, raw, sig = self.recs[i]
            self.verify(op, raw, data, nonce, again=True)


def frame(op, k, data, sig, ver=b'\0'):
    h = ver + bytes.fromhex(k.kid)
    return sig if op == 'unv' else h + sig if op == 'sign' else h + R.i4(len(data)) + data + sig


def sig_recipes(s, share):
    """re-use of every signature for every other (operation, data, nonce)"""
    ids = {}

    def rec(which, t):
        key = (which, t['op'], t['data'], t['nonce'])
        if key not in ids:
            ids[key] = s.sign(which, t['op'], bytes.fromhex(t['data']), bytes.fromhex(t['nonce']))
        return s.recs[ids[key]]
    for st, tt in INP['sig']:
        for k in (0, 1):
            for k2 in (0, 1):
                if rng.random() > share:
                    continue
                sig = rec(k, st)[4]
                d, x = bytes.fromhex(tt['data']), bytes.fromhex(tt['nonce'])
                s.verify(tt['op'], frame(tt['op'], s.keys[k2], d, sig), d, x)
    # and the same triple under the other key identifier or an unknown one
    for (which, op, d, x), i in list(ids.items()):
        if op != 'unv' and rng.random() < share:
            dd, xx = bytes.fromhex(d), bytes.fromhex(x)
            for k2 in (1 - which, 2):
                s.verify(op, frame(op, s.keys[k2], dd, s.recs[i][4]), dd, xx)
            sig = s.recs[s.sign(2, op, dd, xx)][4]
            s.verify(op, frame(op, s.keys[2], dd, sig), dd, xx)
            s.verify(op, frame(op, s.keys[0], dd, sig), dd, xx)
            s.verify('unv', sig, dd + b'\0')


def sig_variants(s, which, msg, sig):
    """other byte strings made from, or resembling, the signature of msg"""
    k = s.keys[which]
    yield b''
    for i in range(len(sig)):
        yield flip(sig, i)
        if i < 24 or i > len(sig) - 24 or s.kt == 'HMAC_SHA1':
            yield sig[:i]
            yield sig[i + 1:]
    for z in (1, 2, 20):
        yield sig + _rb(z)
        yield sig + b'\1' * z
        yield b'\1' * z + sig
        yield sig + sig[:z]
    yield sig + sig
    yield bytes(len(sig))
    if s.kt == 'HMAC_SHA1':
        yield sig + b'\0'
        yield b'\0' + sig
        for i in range(20):
            yield sig[:i] + bytes(x ^ 1 for x in sig[i:])
            yield bytes(x ^ 1 for x in sig[:i + 1]) + sig[i + 1:]
        for i in range(19):
            x = bytearray(sig)
            x[i] ^= 4
            x[i + 1] ^= 4
            yield bytes(x)
        yield R.sha1(k.hmac + msg)
        yield R.sha1(msg)
        yield R.hmac_sha1(b'', msg)
        yield R.hmac_sha1(k.hmac, msg + b'\0')
        yield R.hmac_sha1(k.hmac, b'')
    elif s.kt.startswith('RSA'):
        v = R.b2i(sig)
        yield b'\0' + sig
        yield bytes(5) + sig
        yield sig + b'\0'
        for x in (v + k.n, k.n - v, v * v % k.n, 0, 1, k.n - 1, k.n, (1 << 1024) - 1, v ^ 1, v + 1):
            yield R.i2b(x)
            yield R.i2b(x, max(128, (x.bit_length() + 7) // 8))
        h = R.sha1(msg)
        t = R.SHA1_DER + h
        P = lambda em: R.i2b(pow(R.b2i(em), k.d, k.n), k.k)
        # made with the private key, but not an EMSA-PKCS1 encoding of msg
        yield P(b'\0\1' + b'\xff' * 8 + b'\0' + t + bytes(k.k - 11 - len(t)))
        yield P(b'\0\1' + b'\xff' * 8 + b'\0' + t + _rb(k.k - 11 - len(t)))
        yield P(b'\0\1' + b'\0' * (k.k - 3 - len(t)) + b'\0' + t)
        yield P(b'\0\2' + b'\xff' * (k.k - 3 - len(t)) + b'\0' + t)
        yield P(b'\0\1' + b'\xff' * (k.k - 23) + b'\0' + h)
        yield P(b'\0' * (k.k - 20) + h)
        t2 = bytes.fromhex('301f300706052b0e03021a0414') + h
        yield P(b'\0\1' + b'\xff' * (k.k - 3 - len(t2)) + b'\0' + t2)
        t3 = R.SHA1_DER + h[:19] + bytes([h[19] ^ 1])
        yield P(b'\0\1' + b'\xff' * (k.k - 3 - len(t3)) + b'\0' + t3)
        t4 = R.SHA1_DER + bytes([h[0] ^ 1]) + h[1:]
        yield P(b'\0\1' + b'\xff' * (k.k - 3 - len(t4)) + b'\0' + t4)
        em = b'\0\1' + b'\xff' * (k.k - 3 - len(t)) + b'\0' + t
        for i in rng.sample(range(1, k.k), 40) + [1, 2, 9, 10, 11, k.k - 36, k.k - 35, k.k - 21, k.k - 20, k.k - 1]:
            yield P(flip(em, i))
        for i in range(2, k.k - 45, 9):      # part of the padding replaced
            yield P(em[:i] + rng.choice([bytes(10), _rb(10), b'\xfe' * 10]) + em[i + 10:])
        yield P(b'\0\1' + b'\xff' * (k.k - 3 - len(t)) + b'\1' + t)
        yield P(b'\0\1' + b'\xff' * (k.k - 5 - len(t)) + b'\0' + t + b'\0\0')
        yield P(b'\0\1' + b'\xff' * (k.k - 20 - 3 - len(t)) + b'\0' + t + h)
        yield P(b'\0\1' + b'\xff' * (k.k - 20 - 3 - len(t)) + b'\0' + _rb(20) + t)
        yield P(b'\0\1' + b'\xfe' + b'\xff' * (k.k - 4 - len(t)) + b'\0' + t)
    else:
        r, q_s = R.dsa_parse(sig)
        q = k.q
        neg = lambda v: b'\2' + R.der_len(len(v)) + v
        seq = lambda *p: b'\x30' + R.der_len(sum(map(len, p))) + b''.join(p)
        I = lambda x: b'\2' + R.der_len((x.bit_length() // 8 + 1)) + R.i2b(x, x.bit_length() // 8 + 1)
        for a, c in ((r + q, q_s), (r, q_s + q), (r, q - q_s), (q - r, q_s), (q_s, r), (0, 0), (0, q_s), (r, 0),
                     (1, 0), (1, 1), (q, q_s), (r, q), (q, q), (0, q), (1, q), (r + 1, q_s), (k.p, q_s), (r + k.p, q_s)):
            yield seq(I(a), I(c))
        # forgery for verifiers that forget the range checks: g^0*y^0 = 1
        yield seq(I(1), I(q))
        rb, sb = R.i2b(r, r.bit_length() // 8 + 1), R.i2b(q_s, q_s.bit_length() // 8 + 1)
        yield seq(neg(b'\0' + rb), I(q_s))
        yield seq(I(r), neg(b'\0\0' + sb))
        yield seq(neg(b'\xff' + rb), I(q_s))
        yield seq(neg(R.i2b(r)), I(q_s)) if rb[0] == 0 and len(rb) > 1 else b'\x30'
        yield b'\x30\x81' + sig[1:]
        yield b'\x30\x80' + sig[2:] + b'\0\0'
        yield b'\x30\x82\0' + sig[1:]
        yield b'\x31' + sig[1:]
        yield seq(I(r), I(q_s), I(1))
        yield seq(I(r), I(q_s), b'\5\0')
        yield seq(I(r))
        yield seq()
        yield sig[2:]
        yield b'\x30' + bytes([sig[1] + 1]) + sig[2:] + b'\0'
        yield b'\x24' + sig[1:]


def sig_mutations(s, which, op, data, nonce):
    i = s.sign(which, op, data, nonce)
    _, _, _, raw, sig = s.recs[i]
    k = s.keys[which]
    if not raw:
        return
    V = lambda rw, d=data, x=nonce: s.verify(op, rw, d, x)
    for v in sig_variants(s, which, signed_msg(op, data, nonce), sig):
        V(frame(op, k, data, v))
    hd = 0 if op == 'unv' else 5 if op == 'sign' else 9
    for j in range(hd):
        for m in (1, 0x80, 0x10):
            V(flip(raw, j, m))
    for j in range(hd + 2):
        V(raw[:j])
    if op != 'unv':
        for v in range(1, 256, 1 if s.kt == 'HMAC_SHA1' else 7):
            V(bytes([v]) + raw[1:])
    # the signature in every other framing, for every operation
    own, oth = b'\0' + bytes.fromhex(k.kid), b'\0' + bytes.fromhex(s.keys[1 - which].kid)
    blob = R.i4(len(data)) + data
    for op2 in ('sign', 'att', 'unv'):
        for pre in (b'', own, oth, own[1:], own * 2, own + blob, oth + blob, blob, own + blob + blob, own + blob + own,
                    own + R.i4(len(sig)), own + blob + R.i4(len(sig)), R.i4(len(sig)), own + blob + R.i4(len(nonce)) + nonce,
                    own + blob + b'\0', own + b'\0'):
            for tail in (b'', own, b'\0' + own):
                if tail and s.kt != 'HMAC_SHA1' and rng.random() < .7:
                    continue
                s.verify(op2, pre + sig + tail, data, nonce)
        for other in (b64e(sig).encode(), sig.hex().encode(), sig[::-1], b'\4' + R.der_len(len(sig)) + sig):
            s.verify(op2, frame(op2, k, data, other), data, nonce)
    for d2 in alter(data):
        if op == 'att':
            V(frame('att', k, d2, sig))
            V(raw[:5] + R.i4(len(data)) + d2 + sig)
            V(raw[:5] + R.i4(len(d2)) + data + sig)
        else:
            V(raw, d2)
    for x2 in alter(nonce):
        if op == 'att':
            V(raw, data, x2)
    if op == 'att':
        # moving the border between data and nonce, or data and signature
        for c in range(1, 1 + min(3, len(data))):
            V(frame('att', k, data[:-c], sig), data, data[-c:] + nonce)
            V(raw[:5] + R.i4(len(data) - c) + data + sig)
        for c in (1, 4, 20, len(sig)):
            V(raw[:5] + R.i4(len(data) + c) + data + sig)
        for ln in (0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff7, 1 << 24):
            V(raw[:5] + R.i4(ln) + data + sig)
        for z in (1, 3):
            V(raw, data, nonce + bytes(z))
            V(raw, data, bytes(z) + nonce)
        V(frame('sign', k, data, sig), data)
        s.verify('sign', frame('sign', k, data, sig), data)
        s.verify('sign', frame('sign', k, data, sig), data + nonce)
        s.verify('unv', sig, data)
        s.verify('unv', sig, data + nonce)
    if op == 'sign':
        s.verify('unv', sig, data)
        s.verify('unv', raw, data)
        s.verify('att', frame('att', k, data, sig), data, b'')
        s.verify('att', frame('att', k, data, sig), data, b'\0')
    if op == 'unv':
        s.verify('sign', frame('sign', k, data, sig), data)
        s.verify('att', frame('att', k, data, sig), data, b'')


TEXTUAL = b' A\tline\r\nnext\n+ / %41 &amp; \xc3\xa4 \xe4 \x80 "q" \\ 1\0 '


def alter(x):
    yield x + b'\0'
    yield b'\0' + x
    yield x + b'a'
    yield x + x if x else b'\0\0'
    if x:
        yield x[:-1]
        yield x[1:]
        yield b''
        for i in range(len(x)):
            yield flip(x, i)
        yield x[::-1] if x[::-1] != x else x + b'z'
        yield x.swapcase() if x.swapcase() != x else x + b'y'
        yield x + b' '
        yield x + b'\n'
        for a, c in ((b'\r\n', b'\n'), (b'\n', b'\r\n'), (b'\n', b'\r'), (b'\t', b' '), (b' ', b'  '), (b' ', b'+'), (b' ', b'\t'), (b'+', b' '), (b'/', b'_'),
                     (b'%41', b'A'), (b'&amp;', b'&'), (b'\xc3\xa4', b'\xe4'), (b'\xe4', b'\xc3\xa4'), (b'\0', b''), (b'\x80', b'?'), (b'\\', b'/'), (b'1', b'01'),
                     (b'"', b"'"), (b'\xe4', b'a')):
            if a in x:
                yield x.replace(a, c)
                yield x.replace(a, c, 1)
        for y in (x.strip(), x.lstrip(), x.rstrip(), x.rstrip(b'\0'), x.lower(), x.upper(), b' '.join(x.split()), b'\xef\xbb\xbf' + x, b' ' + x):
            if y != x:
                yield y


def large_signed(s):
    """alterations anywhere in long data and long nonces"""
    big = lambda ln: rng.getrandbits(8 * ln).to_bytes(ln, 'big') if ln else b''
    lens = [(33, 0), (70, 70), (300, 17), (17, 300), (5000, 20), (20, 5000), (70000, 66000), (70, 20000), (1100000, 5)]
    for op in ('sign', 'att', 'unv'):
        for dl, nl in lens:
            if op != 'att' and nl > dl:
                continue
            which = rng.randrange(2)
            data, nonce = big(dl), big(nl) if op == 'att' else b''
            r = call(produce, s.mk[which][1 if op == 'unv' else 0], op, n(data), n(nonce), False)
            if not r.ok:
                item('big', r, '', op=op, again=True, want='x')
                continue
            raw = b(r.val)
            sig = raw if op == 'unv' else raw[5:] if op == 'sign' else raw[9 + dl:]

            def V(d2, x2, how, honest=False):
                rw = frame(op, s.keys[which], d2, sig)
                obj = s.unv if op == 'unv' else s.ver
                if op == 'att':
                    q = call(obj.AttachedVerify, n(rw), n(x2), None)
                    val = ('NONE' if q.val is None else 'SAME' if q.val == n(d2) else 'OTHER') if q.ok else ''
                else:
                    q = call(obj.Verify, n(d2), n(rw), None)
                    val = verdict(q.val) if q.ok else ''
                item('big', q, val, kt=s.kt, op=op, nonce=how, again=honest, want='SAME' if op == 'att' else 'TRUE')
            V(data, nonce, '', True)
            keep = 1.0 if s.kt == 'HMAC_SHA1' and dl < 100000 or THOROUGH else .3
            for j in spots(dl, 6):
                if rng.random() < keep:
                    V(flip(data, j), nonce, 'data byte %d of %d' % (j, dl))
                    if rng.random() < .2:
                        V(data[:j] + data[j + 1:], nonce, 'data without byte %d of %d' % (j, dl))
                        V(data[:j + 1], nonce, 'first %d data bytes of %d' % (j + 1, dl)) if j + 1 < dl else None
            for j in spots(nl, 6) if nonce else ():
                if rng.random() < max(keep, .5):
                    V(data, flip(nonce, j), 'nonce byte %d of %d' % (j, nl))
                    if rng.random() < .2:
                        V(data, nonce[:j] + nonce[j + 1:], 'nonce without byte %d of %d' % (j, nl))
                        V(data, nonce[:j + 1], 'first %d nonce bytes of %d' % (j + 1, nl)) if j + 1 < nl else None
            V(data + data[:1], nonce, 'longer data')
            if nonce:
                V(data, nonce + nonce[:1], 'longer nonce')
            V(data, nonce, '', True)
    flush()


def run_c06():
    for kt in ('HMAC_SHA1', 'RSA_PRIV', 'DSA_PRIV'):
        deep = THOROUGH
        s = Signs(kt)
        sig_recipes(s, 1.0 if kt == 'HMAC_SHA1' or deep else .3)
        flush()
        large_signed(s)
        for rep in range(3 if deep else 1):
            s = Signs(kt)
            for op in ('sign', 'att', 'unv'):
                for which in ((0, 1) if deep or kt == 'HMAC_SHA1' else (rng.randrange(2),)):
                    sig_mutations(s, which, op, b'Data %d' % which, b'nonce' if op == 'att' else b'')
                if op == 'att':
                    sig_mutations(s, 0, op, b'', b'')
                    sig_mutations(s, 1, op, b'\0\0\0\0', b'\0' * 4)
            s.again(list(s.recs)[:4])
            flush()
        s = Signs(kt, alone=True)
        for op in ('sign', 'att', 'unv'):
            sig_mutations(s, 0, op, b'Data', b'nonce' if op == 'att' else b'')
            sig_mutations(s, 0, op, TEXTUAL, TEXTUAL if op == 'att' else b'')
        s.again(list(s.recs)[:1])
        flush()


# --------------------------------------------------------------- totality
def run_c17():
    run_c05_small()
    run_c06_small()
    run_bulk()
    run_huge()
    run_b64()
    run_sessions()
    run_streams()
    run_helpers()


def run_bulk():
    """thousands of bad attempts on one object, then the honest outputs again"""
    many = 12000 if THOROUGH else 4000
    c = Crypt('AES', 128)
    c.seal(1, 0, _rb(20))
    c.seal(2, 0, b'')
    c.seal(3, 1, _rb(48))
    good = c.recs[1][0]

    def bulk(fn, count, again, rounds=4):
        seen = set()
        for rd in range(rounds):
            for i in range(count // rounds):
                r = call(fn, i)
                key = (r.err, r.fields()['kz'], r.ok)
                if key not in seen:
                    seen.add(key)
                    item('bulk', r, 'SEEN')
            again()
        flush()
    bads = [lambda i: good[:-1] + bytes([good[-1] ^ (1 + i % 255)]), lambda i: b'\0' + _rb(4) + good[5:], lambda i: _rb(i % 60),
            lambda i: bytes([1 + i % 255]) + good[1:], lambda i: good[:i % len(good)]]
    for bad in bads:
        bulk(lambda i: c.obj.Decrypt(n(bad(i)), None), many, c.again)
    # all accepted kinds of honest use in between, many times
    bulk(lambda i: c.obj.Decrypt(n(c.recs[1 + i % 3][0]), None), many // 2, c.again)
    for kt in ('HMAC_SHA1', 'DSA_PRIV', 'RSA_PRIV'):
        s = Signs(kt)
        ids = [s.sign(0, 'sign', b'abc'), s.sign(1, 'att', b'abc', b'n'), s.sign(0, 'unv', b'abc')]
        cnt = many if kt == 'HMAC_SHA1' else many // 4 if kt == 'RSA_PRIV' else 600
        rs, ra, ru = [s.recs[i][3] for i in ids]
        hurt = lambda x, i: x[:-1 - i % 8] + bytes([x[-1 - i % 8] ^ (1 + i % 255)]) + x[len(x) - i % 8:]
        agn = lambda: s.again(ids)
        bulk(lambda i: s.ver.Verify('abc', n(hurt(rs, i)), None), cnt, agn)
        bulk(lambda i: s.ver.Verify('abd', n(rs), None), cnt, agn)
        bulk(lambda i: s.ver.AttachedVerify(n(hurt(ra, i)), 'n', None), cnt, agn)
        bulk(lambda i: s.ver.AttachedVerify(n(ra), 'm', None), cnt, agn)
        bulk(lambda i: s.unv.Verify('abc', n(hurt(ru, i)), None), cnt, agn)
        bulk(lambda i: s.ver.Verify('abc', n(b'\0' + _rb(4) + rs[5:]), None), many, agn)
        bulk(lambda i: s.ver.Verify('abc', n(_rb(i % 30)), None), many // 2, agn)


def run_huge():
    """very long inputs: they must end as quickly as others do"""
    big = 400000 if THOROUGH else 100000
    hung = []

    def slow(*a):
        if hung:                    # one is enough
            return Res(False, None, 'KeyczarError', True)
        r = call(*a, _limit=60)
        if r.err == 'HANG':
            hung.append(r)
        return r
    bodies = [_rb(big), bytes(big), b'\xff' * big, _rb(1) + bytes(big), b'\x30\x83' + big.to_bytes(3, 'big') + b'\x02\x83' +
              (big - 5).to_bytes(3, 'big') + _rb(big - 5), b'\x30\x80' * (big // 2)]
    for kt, size in (('AES', 128), ('RSA_PRIV', None)):
        c = Crypt(kt, size)
        c.seal(1, 0, b'honest')
        hdr, raw = c.recs[1][0][:5], c.recs[1][0]
        for x in bodies + [raw * (big // len(raw))]:
            for y in (hdr + x, x, raw + x):
                item('crafted', slow(c.obj.Decrypt, n(y), None), '')
            r = slow(c.obj.Decrypt, b64e(hdr + x))
            item('crafted', r, '')
        c.again()
        flush()
    for kt in ('HMAC_SHA1', 'RSA_PRIV', 'DSA_PRIV'):
        s = Signs(kt)
        ids = [s.sign(0, 'sign', b'abc'), s.sign(1, 'att', b'abc', b'n'), s.sign(0, 'unv', b'abc')]
        for i in ids:
            op, data, nonce, raw, sig = s.recs[i]
            for x in bodies:
                for y in (x, raw[:5] + x, raw[:12] + x, x[:big // 2] + raw):
                    if op == 'att':
                        r = slow(s.ver.AttachedVerify, n(y), 'n', None)
                        item('crafted', r, 'NONE' if r.ok and r.val is None else 'SOME')
                    else:
                        r = slow((s.unv if op == 'unv' else s.ver).Verify, 'abc', n(y), None)
                        item('crafted', r, verdict(r.val) if r.ok else '')
        s.again(ids)
        flush()


def run_c05_small():
    for size, lib in ((128, 'm2crypto'), (256, 'pycrypto')):
        keys.ACTIVE_CRYPT_LIB = lib
        c = Crypt('AES', size)
        c.seal(1, 0, _rb(20))
        c.seal(2, 0, b'')
        c.seal(3, 1, _rb(48))
        hdr = c.recs[1][0][:5]
        k = c.keys[0]
        for ln in range(0, 110):
            c.dec(_rb(ln))
            c.dec((hdr + _rb(ln))[:max(ln, 1)])
            c.dec(hdr[:1] + _rb(ln))
            c.dec((c.recs[1][0] * 2)[:ln])
            c.dec(bytes(ln))
            c.dec(b'\xff' * ln)
        c.again()
        # authentic but malformed: only the key's owner could make these
        for ln in range(0, 70):
            body = hdr + _rb(ln)
            item('crafted', call(c.obj.Decrypt, n(body + R.hmac_sha1(k.hmac, body)), None), '')
        for pad in list(range(0, 40)) + [127, 128, 255]:
            for nb in (1, 2):
                iv = _rb(16)
                body = hdr + iv + R.aes_cbc_encrypt(k.aes, iv, _rb(16 * nb - 1) + bytes([pad]))
                item('crafted', call(c.obj.Decrypt, n(body + R.hmac_sha1(k.hmac, body)), None), '')
        c.again()
        aes_mutations(c, 1) if size == 128 else None
        for _ in range(300):
            t = ''.join(chr(rng.choice([rng.randrange(256), 65 + rng.randrange(26), 32, 61, 10, 0])) for _ in range(rng.randrange(90)))
            c.dectext(t)
        c.again()
        flush()
    keys.ACTIVE_CRYPT_LIB = 'm2crypto' if keys.EVP else 'pycrypto'
    rsa_attempts(THOROUGH)


def run_c06_small():
    for kt in ('HMAC_SHA1', 'RSA_PRIV', 'DSA_PRIV'):
        s = Signs(kt)
        ids = [s.sign(0, 'sign', b'abc'), s.sign(1, 'att', b'abc', b'n'), s.sign(0, 'unv', b'abc')]
        hdr = b'\0' + bytes.fromhex(s.keys[0].kid)
        for ln in range(0, 80):
            for op in ('sign', 'att', 'unv'):
                if kt != 'HMAC_SHA1' and ln > 24 and ln % 3:
                    continue
                s.verify(op, _rb(ln), b'abc', b'n')
                s.verify(op, (hdr + _rb(ln))[:max(1, ln)], b'abc', b'n')
                s.verify(op, hdr[:rng.randrange(6)] + R.i4(rng.choice([0, 1, ln, 255, 0x7fffffff, 0xffffffff])) + _rb(ln), b'', b'')
                s.verify(op, bytes(ln), b'')
        s.again(ids)
        # random and structured DER
        if kt == 'DSA_PRIV':
            for _ in range(400 if THOROUGH else 200):
                s.verify('sign', hdr + rand_der(3), b'abc')
                s.verify('unv', rand_der(3), b'abc')
            s.again(ids)
        for op in ('sign', 'att', 'unv'):
            sig_mutations(s, 0, op, b'xy', b'n' if op == 'att' else b'')
        s.again(ids)
        # text level
        for _ in range(150):
            t = ''.join(chr(rng.choice([rng.randrange(256), 65 + rng.randrange(26), 32, 61, 10, 0])) for _ in range(rng.randrange(60)))
            r = call(s.ver.Verify, 'abc', t)
            item('crafted', r, verdict(r.val))
            r = call(s.ver.AttachedVerify, t, 'n')
            item('crafted', r, 'NONE' if r.val is None else hx(r.val))
            r = call(s.unv.Verify, 'abc', t)
            item('crafted', r, verdict(r.val))
        s.again(ids)
        flush()


def rand_der(depth):
    """random nested DER-like bytes, often damaged"""
    kind = rng.randrange(9)
    if depth and kind < 4:
        body = b''.join(rand_der(depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 2, 3])))
        tag = rng.choice([0x30, 0x30, 0x30, 0x31, 0xa0, 0x24, 0x3f])
    else:
        body = _rb(rng.choice([0, 1, 2, 20, 21, 40]))
        tag = rng.choice([2, 2, 2, 3, 4, 5, 6, 9, 1, 10, 12, 0x1f, 0, 0x80, 23, 0x13, 0x0d])
    ln = rng.choice([bytes([len(body) & 127])] * 6 + [b'\x80', b'\x81' + bytes([len(body) & 255]), b'\x84\xff\xff\xff\xff',
                                                     b'\x82\0' + bytes([len(body) & 255]), b'\xff'])
    out = bytes([tag]) + ln + body
    if rng.random() < .15:
        out = flip(out)
    if rng.random() < .1:
        out = out[:rng.randrange(len(out) + 1)]
    return out


def run_b64():
    al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
    for ln in range(0, 30):
        for _ in range(20):
            src = rng.choice([al, al + ' \n', al + '+/=', [chr(x) for x in range(256)], '=', ' '])
            t = ''.join(rng.choice(src) for _ in range(ln))
            for fn in (util.Base64WSDecode, util.Decode):
                r = call(fn, t)
                item('b64', r, hx(r.val))

            def inc():
                d = util.BufferedIncrementalBase64WSDecoder()
                cut = rng.randrange(ln + 1)
                a = d.decode(t[:cut])
                c = d.decode(t[cut:], final=True)
                return first(a) + first(c)
            r = call(inc)
            item('b64', r, hx(r.val))

            def rd():
                s = util.IncrementalBase64WSStreamReader(Source(t))
                out = ''
                for _ in range(200):
                    x = s.read(rng.choice([-1, 1, 3, 7]))
                    if x is None:
                        continue
                    if not x:
                        break
                    out += x
                return out
            r = call(rd)
            item('b64', r, hx(r.val))
    flush()


def first(x):
    return x[0] if isinstance(x, tuple) else x


def run_sessions():
    c = Crypt('AES', 128)
    c.seal(1, 0, b'honest')
    k = c.keys[0]
    sgk = make_key('HMAC_SHA1')
    sk = RefKey('HMAC_SHA1', sgk)
    sg, = load('HMAC_SHA1', 'SIGN_AND_VERIFY', [(1, 'PRIMARY', False, sgk)], keyczar.Signer)
    good_s = keyczar.SessionEncrypter(c.obj)
    good = keyczar.SessionDecrypter(c.obj, good_s.session_material)
    gm = good_s.Encrypt('hello')
    gss = keyczar.SignedSessionEncrypter(c.obj, sg)
    gsd = keyczar.SignedSessionDecrypter(c.obj, sg, gss.session_material)
    gsm = gss.Encrypt('hello')

    def fine():
        r = call(good.Decrypt, gm)
        item('sess', r, hx(r.val), again=True, want=hx('hello'))
        r = call(gsd.Decrypt, gsm)
        item('sess', r, hx(r.val), again=True, want=hx('hello'))

    def tryit(pt):
        mat = b64e(k.seal(pt))

        def go(cls, *a):
            s = cls(c.obj, *a)
            try:
                return s.Decrypt(gm if len(a) == 1 else gsm)
            except errors.KeyczarError:
                return None
        r = call(go, keyczar.SessionDecrypter, mat)
        item('sess', r, 'NONE' if r.val is None else hx(r.val))
        r = call(go, keyczar.SignedSessionDecrypter, sg, mat)
        item('sess', r, 'NONE' if r.val is None else hx(r.val))
    good_pt = k.unseal(b64d(good_s.session_material))
    for ln in range(0, 70):
        tryit(_rb(ln))
        tryit(good_pt[:ln])
        tryit(good_pt + _rb(ln))
        tryit(R.i4(2) + R.i4(ln) + _rb(ln) + R.i4(32) + _rb(32))
        tryit(R.i4(2) + R.i4(16) + _rb(16) + R.i4(ln) + _rb(ln))
        tryit(R.i4(rng.choice([0, 1, 2, 3, 0xffffffff])) + R.i4(rng.choice([0, 16, 0xffffffff, 0x7fffffff, 0x80000000])) + _rb(ln))
    for i in range(len(good_pt)):
        tryit(flip(good_pt, i))
    jg = json.loads(k.unseal(b64d(gss.session_material)).decode())
    for v in json_mutants(jg):
        tryit(v if isinstance(v, bytes) else json.dumps(v).encode())
    fine()
    # malformed material and messages
    mats = [good_s.session_material, gss.session_material]
    for _ in range(150):
        m = rng.choice(mats)
        t = ''.join(rng.choice('ABCab-_ =\n') if rng.random() < .03 else x for x in m)[:rng.choice([len(m), rng.randrange(len(m) + 1)])]
        for cls, a in ((keyczar.SessionDecrypter, ()), (keyczar.SignedSessionDecrypter, (sg,))):
            r = call(lambda: cls(c.obj, *(a + (t,))) and None)
            item('sess', r, 'NONE')
        r = call(good.Decrypt, t)
        item('sess', r, hx(r.val))
        r = call(gsd.Decrypt, t)
        item('sess', r, 'NONE' if r.val is None else hx(r.val))
        g2 = ''.join(rng.choice('ABCab-_ =\n') if rng.random() < .03 else x for x in gsm)
        r = call(gsd.Decrypt, g2)
        item('sess', r, 'NONE' if r.val is None else hx(r.val))
    # signed by the right signer for the right nonce, but no ciphertext inside
    nonce = b64d(jg['nonce'])
    for ln in range(0, 60):
        inner = _rb(ln)
        msg = frame('att', sk, inner, R.hmac_sha1(sk.hmac, signed_msg('att', inner, nonce)))
        r = call(gsd.Decrypt, b64e(msg))
        item('sess', r, 'NONE' if r.val is None else hx(r.val))
    fine()
    flush()


def json_mutants(j):
    yield b''
    yield b'{'
    yield b'null'
    yield b'[]'
    yield b'"x"'
    yield b'7'
    yield b'{}'
    yield b'\xff\xfe'
    for depth in (500, 50000):
        yield b'[' * depth
        yield b'{"key":' * depth
        yield b'[' * depth + b']' * depth
        yield b'{"key":' + b'[' * depth + b']' * depth + b',"nonce":"AAAA"}'
    yield b'9' * 6000
    for bad in (None, 7, '', 'A', 'AAAAA', '!!', [], {}, True, 'AAAA', 1.5, '\u20ac', ['x'], -1,
                float('inf'), float('nan'), 10 ** 400, '\ud800', '\x00', 'A' * 5000):
        for f in ('key', 'nonce'):
            yield dict(j, **{f: bad})
        for f in ('aesKeyString', 'hmacKey', 'mode', 'size'):
            yield dict(j, key=dict(j['key'], **{f: bad}))
        for f in ('hmacKeyString', 'size'):
            yield dict(j, key=dict(j['key'], hmacKey=dict(j['key']['hmacKey'], **{f: bad})))
    for f in ('key', 'nonce'):
        yield {x: y for x, y in j.items() if x != f}
    for f in ('aesKeyString', 'hmacKey', 'mode', 'size'):
        yield dict(j, key={x: y for x, y in j['key'].items() if x != f})
    yield dict(j, key=dict(j['key'], mode='ECB'))
    yield dict(j, extra=1)
    s = json.dumps(j).encode()
    for i in range(0, len(s), 3):
        yield s[:i]
        yield flip(s, i)


def run_streams():
    c = Crypt('AES', 128)
    c.seal(1, 0, _rb(40))
    raw0 = c.recs[1][0]

    def attempt(raw, b64, bs):
        def go():
            if b64:
                rd = c.obj.CreateDecryptingStreamReader(Source(b64e(raw)))
            else:
                rd = c.obj.CreateDecryptingStreamReader(Source(n(raw)), decoder=None, buffer_size=bs)
            out = ''
            for _ in range(3000):
                x = rd.read(rng.choice([-1, 1, 16, 100]))
                if x is None:
                    continue
                if x == '':
                    return out
                out += x
            raise RuntimeError('no end')
        return call(go)
    k = c.keys[0]
    for ln in range(0, 120):
        for raw in (_rb(ln), raw0[:ln], raw0[:5] + _rb(ln), raw0[:1] + _rb(ln), raw0 + _rb(ln)):
            r = attempt(raw, rng.random() < .3, rng.choice([-1, 1, 16, 4096]))
            item('stream', r, hx(r.val))
        body = raw0[:5] + _rb(ln)
        r = attempt(body + R.hmac_sha1(k.hmac, body), rng.random() < .3, 4096)
        item('stream', r, hx(r.val))
    r = attempt(raw0, False, 4096)
    item('stream', r, hx(r.val), again=True, want=c.recs[1][1].hex())
    c.again()
    flush()


def run_helpers():
    for ln in range(0, 24):
        for _ in range(12):
            x = n(rng.choice([_rb(ln), R.i4(rng.choice([0, 1, 2, ln, 0xffffffff, 0x7fffffff])) + _rb(ln),
                              R.i4(2) + R.i4(ln) + _rb(ln), R.i4(2) + R.i4(0) * 3 + _rb(ln)]))
            r = call(util.UnpackMultipleByteArrays, x)
            item('help', r, 'LIST')
            r = call(util.UnpackByteArray, x, rng.choice([0, 1, 4, 5]))
            item('help', r, 'PAIR')
    flush()


{'C05': run_c05, 'C06': run_c06, 'C17': run_c17}[PROP]()
flush()
T.close()
summary(events=T.n, attempts=total[0])
