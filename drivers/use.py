"""Helpers to produce and open outputs of every kind with the real code, plus
the independent judgement of each output (refcrypto)."""
from drv import *
import io


def ref_verify(k, msg, sig):
    """Reference verification with a RefKey; msg, sig: bytes."""
    if k.type == 'HMAC_SHA1':
        return R.hmac_sha1(k.hmac, msg) == sig
    if k.type.startswith('RSA'):
        return len(sig) == k.k and R.i2b(pow(R.b2i(sig), k.e, k.n), k.k) == R.emsa(msg, k.k)
    return bool(R.dsa_verify(k.p, k.q, k.g, k.y, msg, sig))


def signed_msg(op, data, nonce):
    if op == 'unv':
        return data
    return data + (b'' if op == 'sign' else R.i4(len(nonce)) + nonce) + b'\0'


def parse_out(op, raw, data):
    """-> (hdr kid hex, payload) of raw output bytes by the format"""
    if op == 'unv':
        return '', raw
    if op == 'att':
        ln = int.from_bytes(raw[5:9], 'big')
        return raw[1:5].hex(), raw[9 + ln:]
    return raw[1:5].hex(), raw[5:]


def judge(op, raw, data, nonce, refs):
    """-> (kid of the reference key under which the output is valid, data token it holds)"""
    try:
        if op in ('enc', 'encs'):
            for k in refs:
                p = k.unseal(raw)
                if p is not None:
                    return k.kid, tok(p)
            return '', ''
        hdr, sig = parse_out(op, raw, data)
        held = data
        if op == 'att':
            ln = int.from_bytes(raw[5:9], 'big')
            held = raw[9:9 + ln]
        for k in refs:
            if ref_verify(k, signed_msg(op, held, nonce), sig):
                return k.kid, tok(held)
    except Exception:
        pass
    return '', ''


class Sink(object):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def value(self):
        return ''.join(self.parts)


class Source(object):
    def __init__(self, s):
        self.s, self.pos = s, 0

    def read(self, k=-1):
        if k is None or k < 0:
            k = len(self.s)
        r = self.s[self.pos:self.pos + k]
        self.pos += len(r)
        return r


def produce(obj, op, data, nonce, b64):
    """Run one producing operation of the real code; returns its output (native str)."""
    kw = {} if b64 else {'encoder': None}
    if op == 'enc':
        return obj.Encrypt(data, **kw)
    if op == 'encs':
        s = Sink()
        w = obj.CreateEncryptingStreamWriter(s, **kw)
        cut = rng.randrange(len(data) + 1)
        w.write(data[:cut])
        w.write(data[cut:])
        w.flush()
        w.close()
        return s.value()
    if op == 'sign' or op == 'unv':
        return obj.Sign(data, **kw)
    return obj.AttachedSign(data, nonce, **kw)


def openit(obj, op, out, data, nonce, b64):
    """Run the opening operation; returns plaintext / 'TRUE' / 'FALSE' / data / '?'"""
    kw = {} if b64 else {'decoder': None}
    if op == 'enc':
        return tok(obj.Decrypt(out, **kw))
    if op == 'encs':
        r = obj.CreateDecryptingStreamReader(Source(out), **kw)
        parts = []
        for _ in range(100000):
            x = r.read(rng.choice([-1, 1 + len(data) // 3, 4096]))
            if x is None:
                continue
            if x == '':
                break
            parts.append(x)
        return tok(''.join(parts))
    if op in ('sign', 'unv'):
        return verdict(obj.Verify(data, out, **kw))
    x = obj.AttachedVerify(out, nonce, **kw)
    return tok(x) if x is not None else 'NONE'


def verdict(v):
    if v is True or v is False:
        return 'TRUE' if v else 'FALSE'
    # PyCrypto's verify returns 0/1 or bool; accept truth values of ints
    if isinstance(v, int):
        return 'TRUE' if v else 'FALSE'
    return '?' + type(v).__name__


def raw_of(out, b64):
    return b64d(out) if b64 else b(out)


# ------------------------------------------------- outputs made by the reference
def ref_sign(k, msg):
    if k.type == 'HMAC_SHA1':
        return R.hmac_sha1(k.hmac, msg)
    if k.type.startswith('RSA'):
        return R.i2b(pow(R.b2i(R.emsa(msg, k.k)), k.d, k.n), k.k)
    return R.dsa_sign(k.p, k.q, k.g, k.x, msg, rng.randrange(2, k.q - 1))


def ref_wrap(wk, pt):
    if wk.type == 'AES':
        return wk.seal(pt)
    em = R.oaep_encode(pt, wk.k, bytes(rng.randrange(256) for _ in range(20)))
    return b'\0' + bytes.fromhex(wk.kid) + R.i2b(pow(R.b2i(em), wk.e, wk.n), wk.k)


def ref_frame(op, k, data, sig):
    h = b'\0' + bytes.fromhex(k.kid)
    return sig if op == 'unv' else h + sig if op == 'sign' else h + R.i4(len(data)) + data + sig
