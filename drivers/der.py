"""C20: key and number encodings of keyczar.util on many values, both ways."""
from drv import *

T = Trace(args.out)
det_random()


def mh(v):
    """minimal hex magnitude"""
    if not isinstance(v, int) or isinstance(v, bool) or v < 0:
        return '?' + repr(v)[:40]
    return R.i2b(v).hex() if v else '00'


def signed(v):
    """minimal two's complement"""
    return v.to_bytes((~v if v < 0 else v).bit_length() // 8 + 1, 'big', signed=True).hex() if isinstance(v, int) else '?'


def hv(h):
    return int(h, 16)


EXPORT = {'rsa8': 'ExportRsaPkcs8', 'dsa8': 'ExportDsaPkcs8', 'rsax': 'ExportRsaX509', 'dsax': 'ExportDsaX509'}
PARSE = {'rsa8': 'ParsePkcs8', 'dsa8': 'ParsePkcs8', 'rsax': 'ParseX509', 'dsax': 'ParseX509'}
FIELDS = {'rsa8': ['n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq'], 'dsa8': list('pqgx'), 'rsax': ['n', 'e'], 'dsax': list('pqgy')}


def fields(v):
    if not isinstance(v, dict):
        return {'?': type(v).__name__}
    return dict((str(k), mh(x)) for k, x in v.items())


def export(form, k):
    """k: {field: int}; extra fields of the caller's dictionary must not matter"""
    d = dict(k)
    before = dict(d)
    r = call(getattr(util, EXPORT[form]), d)
    text = r.val if r.ok and isinstance(r.val, str) and r.val.isascii() else '?'
    if d != before:
        text = '?the parameters were modified'
    T.ev('export', form=form, k=dict((f, mh(k[f])) for f in FIELDS[form]), text=text, **r.fields())
    return text


def parse(form, k, text, how='', fn=None):
    r = call(getattr(util, fn or PARSE[form]), text)
    T.ev('parse', form=form, k=dict((f, mh(k[f])) for f in (FIELDS[form] if not how else k)), text=text, b64=True, sp=not text.isalnum() and len(text.split()) != 1 or text != text.strip(), pad=0, how=how,
         got=fields(r.val) if r.ok else {}, msg=r.msg, **r.fields())


def spaced(text):
    i = 0
    out = []
    while i < len(text):
        j = i + rng.choice([1, 3, 64, 76])
        out.append(text[i:j])
        i = j
    return rng.choice(['', ' ', '\n']) + rng.choice(['\n', '\r\n', ' ', '\t']).join(out) + rng.choice(['', '\n'])


def num(bits):
    if not bits:
        return 0
    return rng.getrandbits(bits) | (1 << (bits - 1))


def edge(bits):
    return rng.choice([num(bits), (1 << bits) - 1, 1 << max(0, bits - 1), (1 << max(0, bits - 1)) - 1, num(bits)])


def keys_both_ways():
    seen = 0
    # real keys of every size
    for fam in ('RSA', 'DSA'):
        for size in sorted(_pool(fam)):
            for j in _pool(fam)[size][:(20 if THOROUGH else 3)]:
                r = RefKey(fam + '_PRIV', j)
                if fam == 'RSA':
                    k = {'n': r.n, 'e': r.e, 'd': r.d, 'p': r.p, 'q': r.q, 'dp': r.d % (r.p - 1), 'dq': r.d % (r.q - 1),
                         'invq': pow(r.q, -1, r.p)}
                    forms = ['rsa8', 'rsax']
                else:
                    k = {'p': r.p, 'q': r.q, 'g': r.g, 'x': r.x, 'y': r.y}
                    forms = ['dsa8', 'dsax']
                for f in forms:
                    t = export(f, k)
                    parse(f, k, t)
                    parse(f, k, spaced(t))
                    seen += 1
    # arbitrary numbers: each field at every byte boundary, sign bit set and not
    lens = [0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 159, 160, 161, 503, 504, 505, 511, 512, 513, 519, 1000, 1015, 1016, 1017, 1023, 1024,
            1025, 1031, 2032, 2039, 2040, 2041, 2047, 2048, 2049, 4095, 4096, 4097, 8192]
    for f in EXPORT:
        for bits in lens:
            for _ in range(6 if THOROUGH else 1 if bits > 1100 else 2):
                k = dict((x, edge(bits)) for x in FIELDS[f])
                t = export(f, k)
                if t[:1] != '?':
                    parse(f, k, t)
                seen += 1
        for fl in FIELDS[f]:
            for bits in lens if THOROUGH else rng.sample(lens, 7):
                k = dict((x, edge(rng.choice(lens[:20]))) for x in FIELDS[f])
                k[fl] = edge(bits)
                t = export(f, k)
                if t[:1] != '?':
                    parse(f, k, t)
                seen += 1
    return seen


def _pool(fam):
    import drv
    return drv._POOL[fam]


def spec_made(items):
    """encodings made by the specification"""
    enc = [x for x in items if x['t'] == 'ENC']
    bad = [x for x in items if x['t'] == 'BAD']
    rng.shuffle(enc)
    for x in enc[:(6000 if THOROUGH else 700)]:
        k = dict((f, hv(v)) for f, v in x['k'].items())
        t = b64e(bytes.fromhex(x['h']))
        parse(x['form'], k, t if rng.random() < .8 else spaced(t))
    for x in bad:
        k = dict((f, hv(v)) for f, v in x['k'].items())
        parse(x['form'], k, b64e(bytes.fromhex(x['h'])), how=x['how'], fn='ParseX509' if x['how'][0] == 'x' else 'ParsePkcs8')
    return len(enc), len(bad)


def der_int(v):
    m = R.i2b(v) if v else b'\0'
    if m[0] & 128:
        m = b'\0' + m
    return b'\x02' + der_len(len(m)) + m


def der_len(n_):
    if n_ < 128:
        return bytes([n_])
    s = R.i2b(n_)
    return bytes([128 + len(s)]) + s


def signatures():
    lens = [0, 1, 7, 8, 9, 15, 16, 120, 151, 152, 153, 157, 158, 159, 160, 161, 255, 256, 480, 488, 496, 504, 505, 1000, 2048]
    cnt = 0
    for a in lens:
        for c in lens if THOROUGH else rng.sample(lens, 6) + [a]:
            r_, s_ = edge(a), edge(c)
            r = call(util.MakeDsaSig, r_, s_)
            T.ev('export', form='sig', k={'r': mh(r_), 's': mh(s_)}, text=hx(r.val) if r.ok else '', **r.fields())
            body = der_int(r_) + der_int(s_)
            sig = b'\x30' + der_len(len(body)) + body
            for pad in (0, rng.choice([1, 2, 40])):
                q = call(util.ParseDsaSig, n(sig + bytes(pad)))
                ok = q.ok and isinstance(q.val, tuple) and len(q.val) == 2
                T.ev('parse', form='sig', k={'r': mh(r_), 's': mh(s_)}, text=(sig + bytes(pad)).hex(), b64=False, sp=False, pad=pad, how='',
                     got={'r': mh(q.val[0]), 's': mh(q.val[1])} if ok else {}, msg=q.msg, **q.fields())
            # damaged encodings: read only if canonical
            for _ in range(8):
                m = bytearray(sig + bytes(rng.choice([0, 0, 3])))
                how = rng.randrange(6)
                if how == 0:
                    m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
                elif how == 1:
                    m = m[:rng.randrange(len(m))]
                elif how == 2:
                    m += bytes([rng.randrange(256)])
                elif how == 3:
                    i = rng.randrange(len(m))
                    m[i:i] = bytes([rng.choice([0, 0, 0x80, 2, 0x30, 255])])
                elif how == 4:
                    m[1:2] = b'\x81' + bytes(m[1:2])
                else:
                    i = rng.randrange(len(m))
                    del m[i]
                q = call(util.ParseDsaSig, n(bytes(m)))
                ok = q.ok and isinstance(q.val, tuple) and len(q.val) == 2
                T.ev('sig', text=bytes(m).hex(), got={'r': signed(q.val[0]), 's': signed(q.val[1])} if ok else {'r': '', 's': ''}, msg=q.msg, **q.fields())
                cnt += 1
    return cnt


def rb(k):
    return _rb_(k)


def _rb_(k):
    return bytes(rng.choice([0, 0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(k))


def f_out(r):
    return hx(r.val) if r.ok else ''


def has(name):
    return callable(getattr(util, name, None))


def primitives():
    for L in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600]:
        for _ in range(10 if THOROUGH else 3):
            h = rb(L)
            v = R.b2i(h)
            if has('BigIntToBytes'):
                r = call(util.BigIntToBytes, v)
                T.ev('tobytes', num=mh(v), got=f_out(r), **r.fields())
            if has('BytesToLong'):
                r = call(util.BytesToLong, n(h))
                T.ev('tonum', h=h.hex(), got=mh(r.val) if r.ok else '', **r.fields())
            if has('TrimBytes'):
                r = call(util.TrimBytes, n(h))
                T.ev('trim', h=h.hex(), got=f_out(r), **r.fields())
            if has('PadBytes'):
                k = rng.choice([0, 1, 2, 7, 100])
                r = call(util.PadBytes, n(h), k)
                T.ev('padb', h=h.hex(), n=k, got=f_out(r), **r.fields())
            if has('BytesToBin'):
                r = call(util.BytesToBin, n(h))
                T.ev('bits', h=h.hex(), got=r.val if r.ok and isinstance(r.val, str) else '?', **r.fields())
            if has('IntToBin'):
                r = call(util.IntToBin, v)
                T.ev('intbits', num=mh(v), got=r.val if r.ok and isinstance(r.val, str) else '?', **r.fields())
            if has('BinToBytes'):
                bits = ''.join(rng.choice('01') for _ in range(rng.choice([L, 8 * L, 8 * L + rng.randrange(1, 8), 20 * L + rng.randrange(8)])))
                r = call(util.BinToBytes, bits)
                T.ev('unbits', bits=bits, got=f_out(r), **r.fields())
            if has('Xor'):
                g = rb(rng.choice([L, L, 0, 1, max(0, L - 1), L + 1, 64]))
                r = call(util.Xor, n(h), n(g))
                T.ev('xor', a=h.hex(), b=g.hex(), got=f_out(r), **r.fields())
            if has('PackByteArray'):
                r = call(util.PackByteArray, n(h))
                T.ev('pack1', h=h.hex(), got=f_out(r), **r.fields())
    if has('PackByteArray'):
        for L in (4096, 32767, 32768, 65535, 65536, 65537, 70001, 131072):
            h = rb(L)
            r = call(util.PackByteArray, n(h))
            T.ev('pack1', h=h.hex(), got=f_out(r), **r.fields())
    if has('IntToBytes'):
        for v in [0, 1, 127, 128, 255, 256, 257, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff] + [rng.getrandbits(rng.randrange(1, 33)) for _ in range(40)]:
            r = call(util.IntToBytes, v)
            T.ev('int4', num=mh(v), got=f_out(r), **r.fields())
    big = [4096, 32767, 32768, 65535, 65536, 65537, 70001, 131072] * (4 if THOROUGH else 1)
    for _ in range(1500 if THOROUGH else 250):
        arrays = [rb(rng.choice([0, 0, 1, 2, 3, 4, 5, 16, 20, 32, 255, 256, 300])) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 9]))]
        if big:
            arrays.insert(rng.randrange(len(arrays) + 1), rb(big.pop()))
        r = call(util.PackMultipleByteArrays, *[n(a) for a in arrays])
        T.ev('pack', arrays=[a.hex() for a in arrays], got=f_out(r), **r.fields())
        packed = R.i4(len(arrays)) + b''.join(R.i4(len(a)) + a for a in arrays)
        tries = [packed]
        for _ in range(4):
            m = bytearray(packed)
            how = rng.randrange(4)
            if how == 0:
                m = m[:rng.randrange(len(m) + 1)]
            elif how == 1:
                m += rb(rng.choice([1, 2, 3, 4, 5, 8]))
            elif how == 2 and len(m) > 4:
                m[rng.randrange(4, min(len(m), 12))] = rng.choice([0, 1, 255, 128, 127])
            else:
                m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
            tries.append(bytes(m))
        for x in tries:
            r = call(util.UnpackMultipleByteArrays, n(x))
            got = [hx(a) for a in r.val] if r.ok and isinstance(r.val, (list, tuple)) else []
            T.ev('unpack', h=x.hex(), got=got, msg=r.msg, **r.fields())


with open(getattr(args, 'in')) as f:
    items = [json.loads(x) for x in f]
e, bd = spec_made(items)
k = keys_both_ways()
s = signatures()
primitives()
T.close()
summary(spec_encodings=e, spec_refusals=bd, keys_round_tripped=k, damaged_signatures=s, events=T.n)
