"""Independent reference implementations of the primitives (oracle side).

Pure Python AES-CBC, hashlib SHA-1, hmac, RSA and DSA by pow().  Nothing here
imports keyczar.  All functions work on bytes.
"""
import hashlib
import hmac as _hmac
import struct

# ----------------------------------------------------------------- AES
_S = []
_T = None


def _init():
    global _T
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= (q << 1) & 0xff
        q ^= (q << 2) & 0xff
        q ^= (q << 4) & 0xff
        if q & 0x80:
            q ^= 0x09
        r = lambda x, n: ((x << n) | (x >> (8 - n))) & 0xff
        s[p] = (q ^ r(q, 1) ^ r(q, 2) ^ r(q, 3) ^ r(q, 4)) ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    _S.extend(s)


_init()
_SI = [0] * 256
for _i, _v in enumerate(_S):
    _SI[_v] = _i
_xt = lambda a: ((a << 1) ^ (0x1b if a & 0x80 else 0)) & 0xff


def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


_M = {k: [_mul(x, k) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}


def _expand(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [_S[t[1]] ^ rc, _S[t[2]], _S[t[3]], _S[t[0]]]
            rc = _xt(rc)
        elif nk > 6 and i % nk == 4:
            t = [_S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def _enc(rk, b):
    s = [x ^ y for x, y in zip(b, rk[0])]
    n = len(rk) - 1
    m2, m3 = _M[2], _M[3]
    for r in range(1, n + 1):
        s = [_S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r != n:
            o = []
            for c in range(0, 16, 4):
                a, b_, c_, d = s[c:c + 4]
                o += [m2[a] ^ m3[b_] ^ c_ ^ d, a ^ m2[b_] ^ m3[c_] ^ d,
                      a ^ b_ ^ m2[c_] ^ m3[d], m3[a] ^ b_ ^ c_ ^ m2[d]]
            s = o
        s = [x ^ y for x, y in zip(s, rk[r])]
    return s


def _dec(rk, b):
    n = len(rk) - 1
    s = [x ^ y for x, y in zip(b, rk[n])]
    m9, mb, md, me = _M[9], _M[11], _M[13], _M[14]
    for r in range(n - 1, -1, -1):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [_SI[x] for x in s]
        s = [x ^ y for x, y in zip(s, rk[r])]
        if r:
            o = []
            for c in range(0, 16, 4):
                a, b_, c_, d = s[c:c + 4]
                o += [me[a] ^ mb[b_] ^ md[c_] ^ m9[d], m9[a] ^ me[b_] ^ mb[c_] ^ md[d],
                      md[a] ^ m9[b_] ^ me[c_] ^ mb[d], mb[a] ^ md[b_] ^ m9[c_] ^ me[d]]
            s = o
    return s


def aes_cbc_encrypt(key, iv, data):
    assert len(data) % 16 == 0
    rk = _expand(key)
    out = bytearray()
    prev = list(iv)
    for i in range(0, len(data), 16):
        prev = _enc(rk, [a ^ b for a, b in zip(prev, data[i:i + 16])])
        out += bytes(prev)
    return bytes(out)


def aes_cbc_decrypt(key, iv, data):
    assert len(data) % 16 == 0
    rk = _expand(key)
    out = bytearray()
    prev = list(iv)
    for i in range(0, len(data), 16):
        blk = list(data[i:i + 16])
        out += bytes(a ^ b for a, b in zip(prev, _dec(rk, blk)))
        prev = blk
    return bytes(out)


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


# ------------------------------------------------------------ hash, MAC
def sha1(b):
    return hashlib.sha1(b).digest()


def hmac_sha1(key, msg):
    return _hmac.new(key, msg, hashlib.sha1).digest()


def i4(n):
    return struct.pack('>I', n)


def b2i(b):
    return int.from_bytes(b, 'big')


def i2b(n, k=None):
    if k is None:
        k = (n.bit_length() + 7) // 8
    return n.to_bytes(k, 'big')


def trim(b):
    t = b.lstrip(b'\0')
    return t or b'\0'


# ----------------------------------------------------------------- RSA
SHA1_DER = bytes.fromhex('3021300906052b0e03021a05000414')


def emsa(msg, k):
    t = SHA1_DER + sha1(msg)
    return b'\0\1' + b'\xff' * (k - len(t) - 3) + b'\0' + t


def mgf1(seed, n):
    out = b''
    i = 0
    while len(out) < n:
        out += sha1(seed + i4(i))
        i += 1
    return out[:n]


def _xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def oaep_encode(msg, k, seed):
    db = sha1(b'') + b'\0' * (k - len(msg) - 42) + b'\1' + msg
    mdb = _xor(db, mgf1(seed, k - 21))
    ms = _xor(seed, mgf1(mdb, 20))
    return b'\0' + ms + mdb


def oaep_decode(em):
    """-> (seed, msg) or None"""
    if em[0]:
        return None
    ms, mdb = em[1:21], em[21:]
    seed = _xor(ms, mgf1(mdb, 20))
    db = _xor(mdb, mgf1(seed, len(mdb)))
    if db[:20] != sha1(b''):
        return None
    r = db[20:].lstrip(b'\0')
    if r[:1] != b'\1':
        return None
    return seed, r[1:]


# ----------------------------------------------------------------- DSA
def der_int(n):
    b = i2b(n, n.bit_length() // 8 + 1)
    return b'\x02' + der_len(len(b)) + b


def der_len(n):
    if n < 128:
        return bytes([n])
    b = i2b(n)
    return bytes([128 + len(b)]) + b


def dsa_der(r, s):
    c = der_int(r) + der_int(s)
    return b'\x30' + der_len(len(c)) + c


def dsa_parse(sig):
    """Strict DER: -> (r, s) or None"""
    try:
        if sig[0] != 0x30:
            return None
        n = sig[1]
        if n > 127 or len(sig) != n + 2:
            return None
        pos = 2
        vals = []
        for _ in range(2):
            if sig[pos] != 2:
                return None
            ln = sig[pos + 1]
            v = sig[pos + 2:pos + 2 + ln]
            if ln == 0 or ln > 127 or len(v) != ln:
                return None
            vals.append(int.from_bytes(v, 'big', signed=True))
            pos += 2 + ln
        if pos != len(sig) or dsa_der(*vals) != sig:
            return None
        return tuple(vals)
    except (IndexError, OverflowError):
        return None


def dsa_verify(p, q, g, y, msg, sig):
    rs = dsa_parse(sig)
    if not rs:
        return False
    r, s = rs
    if not (0 < r < q and 0 < s < q):
        return False
    w = pow(s, -1, q)
    h = b2i(sha1(msg))
    return (pow(g, h * w % q, p) * pow(y, r * w % q, p) % p) % q == r


def dsa_sign(p, q, g, x, msg, k):
    r = pow(g, k, p) % q
    s = pow(k, -1, q) * (b2i(sha1(msg)) + x * r) % q
    return dsa_der(r, s)


if __name__ == '__main__':
    k = bytes(range(16))
    assert aes_cbc_encrypt(k, bytes(16), bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'
    for n in (16, 24, 32):
        k = bytes(range(n))
        d = bytes(range(64))
        assert aes_cbc_decrypt(k, d[:16], aes_cbc_encrypt(k, d[:16], d)) == d
    assert aes_cbc_encrypt(bytes(range(32)), bytes(16), bytes.fromhex('00112233445566778899aabbccddeeff')).hex() == '8ea2b7ca516745bfeafc49904b496089'
    import time
    t = time.time()
    aes_cbc_encrypt(bytes(16), bytes(16), bytes(16000))
    print('ok', time.time() - t)
