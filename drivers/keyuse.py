"""Replays KeyUse histories on the real code (C03: encryption kinds, C04: signing kinds)."""
from use import *
import lifecycle_common as L

T = Trace(args.out)
patch_keygen()
det_random()
KINDS = {'C03': ['aes', 'aes', 'rsa', 'aes'], 'C04': ['hmac', 'dsa', 'rsasign', 'hmac']}[PROP]
OPS = {'C03': ['enc', 'encs'], 'C04': ['sign', 'att', 'unv']}[PROP]


def datum(kind):
    if kind == 'rsa':
        return n(_data(rng.choice([0, 1, 20, 85, 86])))
    return n(_data(rng.choice([0, 1, 5, 15, 16, 17, 31, 32, 33, 100, 255, 256, 4095, 4096, 4097]
                              if rng.random() < .9 else [65535, 65536, 70001])))


def _data(k):
    m = rng.randrange(4)
    if m == 0:
        return bytes(k)
    if m == 1:
        return bytes([255]) * k
    if m == 2:
        return bytes(rng.randrange(256) for _ in range(k - 1)) + b'\0' if k else b''
    return bytes(rng.randrange(256) for _ in range(k))


def run(hist, kind, via):
    reset_pool()
    env = L.Env(kind, via)
    T.ev('reset', kind=kind, via=via)
    handles, outs, refs = {}, {}, {}
    for stp in hist:
        if stp['step'] == 'cmd':
            c = env.adapt(stp['c'])
            r = env.run(c)
            for k in env.refs():
                refs[k.kid] = k
            T.ev('cmd', c=c, **r.fields())
        elif stp['step'] == 'load':
            load(env, handles, stp['h'], kind)
        else:
            if stp['h'] not in handles:
                load(env, handles, stp['h'], kind)
            use(env, handles, stp['h'], kind, outs, refs)
        # open everything produced so far through one older handle and a fresh one
        if outs and stp['step'] != 'load':
            load(env, handles, 9, kind)
            lst = []
            hh = [9] + ([rng.choice(list(handles))] if len(handles) > 1 else [])
            for h in set(hh):
                for i, o in outs.items():
                    if len(outs) > 6 and rng.random() < .4:
                        continue
                    lst.append(open_one(handles[h], h, i, o))
            T.ev('open', list=lst)
    env.close()


def load(env, handles, h, kind):
    """A handle is a set of role objects loaded at the same moment."""
    objs = {}
    res = 'ok'
    d = env.project()
    if PROP == 'C03':
        roles = [('prod', rng.choice([keyczar.Encrypter, keyczar.Crypter])), ('open', keyczar.Crypter)]
    else:
        roles = [('prod', keyczar.Signer), ('open', rng.choice([keyczar.Verifier, keyczar.Signer])),
                 ('uprod', keyczar.UnversionedSigner),
                 ('uopen', rng.choice([keyczar.UnversionedVerifier, keyczar.UnversionedSigner]))]
    err = ''
    for name, cls in roles:
        if env.via or rng.random() < .5:
            r = call(lambda: cls(env.reader()))
        else:
            r = call(cls.Read, env.path)
        if not r.ok:
            res, err = 'err', r.err
        objs[name] = r.val
    if env.pubable() and not env.via and rng.random() < .4:
        # the public half, exported at this moment, takes over what it can do
        p = newdir('pub')
        r = call(lambda: keyczar.GenericKeyczar(env.reader()).PublicKeyExport(p))
        if r.ok:
            if PROP == 'C03':
                r = call(keyczar.Encrypter.Read, p)
                name = ('prod',)
            else:
                r = call(keyczar.Verifier.Read, p)
                name = ('open',)
        if r.ok:
            objs[name[0]] = r.val
        else:
            res, err = 'err', r.err
        rmdir(p)
    T.ev('load', h=h, dir=d, res=res, err=err)
    handles[h] = objs


pickop = None


def use(env, handles, h, kind, outs, refs):
    op = pickop or rng.choice(OPS)
    if kind == 'rsa':
        op = 'enc'
    data, nonce = datum(kind), n(_data(rng.choice([0, 1, 16, 20, 300])))
    b64 = rng.random() < .5
    keys.ACTIVE_CRYPT_LIB = rng.choice(['m2crypto', 'pycrypto'])
    obj = handles[h]['uprod' if op == 'unv' else 'prod']
    if obj is None:
        return
    r = call(produce, obj, op, data, nonce, b64)
    by = hdr = ref = ''
    i = len(outs) + 1
    if r.ok:
        try:
            raw = raw_of(r.val, b64)
            by, ref = judge(op, raw, b(data), b(nonce), list(refs.values()))
            hdr = parse_out(op, raw, b(data))[0]
        except Exception:
            pass
        outs[i] = (op, r.val, data, nonce, b64)
    T.ev('use', h=h, op=op, id=i, data=tok(data), nonce=tok(nonce), by=by, ref=ref, hdr=hdr, b64=b64,
         lib=keys.ACTIVE_CRYPT_LIB, msg=r.msg, **r.fields())


def open_one(objs, h, i, o):
    op, out, data, nonce, b64 = o
    keys.ACTIVE_CRYPT_LIB = rng.choice(['m2crypto', 'pycrypto'])
    if op in ('enc', 'encs') and env_type.get('t') != 'rsa':
        op2 = rng.choice(['enc', 'encs'])       # either way of decrypting must do
    else:
        op2 = op
    obj = objs['uopen' if op == 'unv' else 'open']
    if obj is None:
        return dict(h=h, id=i, res='err', err='NOTLOADED', kz=False, val='')
    r = call(openit, obj, op2, out, data, nonce, b64)
    return dict(h=h, id=i, val=r.val if r.ok else '', how=op2, **r.fields())


env_type = {}
hists = [x['hist'] for x in read_input() if 'hist' in x]
nu = 0
for i, h in enumerate(hists):
    kind = KINDS[i % len(KINDS)]
    env_type['t'] = kind
    run(h, kind, 'A' if i % 3 == 2 else '')


def padlike():
    """data that ends in, or looks like, padding"""
    for v in list(range(0, 18)) + [32, 127, 128, 255]:
        for ln in (1, 2, 15, 16, 17, 31, 32):
            c = bytes([v])
            yield c * ln
            yield bytes(rng.randrange(256) for _ in range(ln)) + c
            yield b'abcdefghijklmnop'[:ln % 16] + c * v
    for j in range(1, 17):
        yield bytes(range(1, j + 1))
        yield bytes(range(j, 0, -1))
        yield bytes(j - 1) + bytes([j])
        yield b'x' * (16 - j) + bytes([j]) * j
    for t in (b'\r\n', b'\n', b' ', b'\t', b'\0', b'=', b'==', b'\xef\xbb\xbf', b'\x80', b'\x1a', '\u20ac'.encode()):
        yield t
        yield b'text' + t
        yield t + b'text'
        yield t + b'text' + t


def sweep(kind, sizes, reps):
    """Many outputs of one key set with three versions: every length and pattern."""
    reset_pool()
    env = L.Env(kind, '')
    env_type['t'] = kind
    T.ev('reset', kind=kind, via='')
    handles, outs, refs = {}, {}, {}
    for stt in ('PRIMARY', 'ACTIVE', 'PRIMARY'):
        env.run(env.adapt(dict(op='addkey', status=stt, size=0, v=0)))
    for k in env.refs():
        refs[k.kid] = k
    load(env, handles, 1, kind)
    global datum, pickop
    keep = datum
    for rep in OPS if reps == 'all' else range(reps):
        pickop = rep if reps == 'all' else None
        for z in sizes:
            datum = lambda kd: n(z if isinstance(z, bytes) else _data(z))
            use(env, handles, 1, kind, outs, refs)
            i = len(outs)
            if i in outs:
                T.ev('open', list=[open_one(handles[1], 1, i, outs[i])])
    datum, pickop = keep, None
    env.close()


def alike(ktype, size=None):
    """keys whose identifiers share two or three of their four bytes, or have unusual bytes"""
    cand = {}
    while len(cand) < 7000:
        t = _rng_key(ktype, size)
        cand[RefKey(ktype, t).kid] = t
    picks = []
    for pat in ((0, 1), (2, 3), (1, 2), (0, 3), (0, 2), (1, 3), (0, 1, 2), (1, 2, 3), (0, 1, 3), (0, 2, 3)):
        seen = {}
        for k in cand:
            h = ''.join(k[2 * i:2 * i + 2] for i in pat)
            if h in seen:
                picks.append([cand[seen[h]], cand[k]])
                break
            seen[h] = k
    seen = {}
    for k in cand:                      # the same bytes in another order
        h = ''.join(sorted(k[i:i + 2] for i in (0, 2, 4, 6)))
        if h in seen and len(picks) < 13:
            picks.append([cand[seen[h]], cand[k]])
        seen[h] = k
    odd = []
    for cond in (lambda k: k[:2] == '00', lambda k: k[6:] == '00', lambda k: k[:2] == 'ff', lambda k: '0a' in (k[:2], k[6:]), lambda k: '20' in (k[:2], k[6:]),
                 lambda k: b64e(bytes.fromhex(k))[0] == '-', lambda k: b64e(bytes.fromhex(k))[-2] == '_', lambda k: k[:2] == '7b',
                 lambda k: '__' in b64e(bytes.fromhex(k)), lambda k: '--' in b64e(bytes.fromhex(k)), lambda k: '-_' in b64e(bytes.fromhex(k)), lambda k: '_-' in b64e(bytes.fromhex(k)),
                 lambda k: b64e(bytes.fromhex(k))[0] == '_', lambda k: b64e(bytes.fromhex(k))[0] == 'A' == b64e(bytes.fromhex(k))[1],
                 lambda k: '0000' in k, lambda k: k[2:4] == '00', lambda k: '0d0a' in k, lambda k: '2020' in k, lambda k: k[:2] == k[2:4], lambda k: k[:2] == '5c',
                 lambda k: b64e(bytes.fromhex(k)).isalpha() and b64e(bytes.fromhex(k)).isupper(), lambda k: b64e(bytes.fromhex(k)).isdigit()):
        x = [k for k in cand if cond(k)]
        if x:
            odd.append(cand[x[0]])
    return picks + [odd]


def _rng_key(ktype, size):
    rb = lambda k: rng.getrandbits(8 * k).to_bytes(k, 'big')
    h = {'size': 256, 'hmacKeyString': b64e(rb(32))}
    if ktype == 'HMAC_SHA1':
        return json.dumps(h)
    return json.dumps({'mode': 'CBC', 'size': size or 128, 'aesKeyString': b64e(rb((size or 128) // 8)), 'hmacKey': h})


def lookalikes(kind):
    """sets of keys with similar identifiers: all of them used and opened through the same objects"""
    ktype, purpose = L.KINDS[kind][:2]
    for group in alike(ktype, rng.choice([128, 192, 256])):
        env = L.Env(kind, '')
        env_type['t'] = kind
        T.ev('reset', kind=kind, via='')
        group = group + [_rng_key(ktype, 128)]
        rng.shuffle(group)
        refs = {}
        for t in group:
            r = RefKey(ktype, t)
            refs[r.kid] = r
        handles, outs = {}, {}
        for prim in range(1, len(group) + 1):
            write_set(env.path, 'set', purpose, ktype, [(i + 1, 'PRIMARY' if i + 1 == prim else 'ACTIVE', False, t) for i, t in enumerate(group)])
            load(env, handles, prim, kind)
            for op in OPS:
                global pickop
                pickop = op
                use(env, handles, prim, kind, outs, refs)
            pickop = None
        for h in (1, len(group)):
            T.ev('open', list=[open_one(handles[h], h, i, o) for i, o in list(outs.items())[::1 if h == 1 else -1]])
            T.ev('open', list=[open_one(handles[h], h, i, o) for i, o in rng.sample(list(outs.items()), len(outs))])
        env.close()


def bigs(sizes):
    """long data with heads and tails that look like something else"""
    ends = [b'\x10', b'\x10' * 16, b'\x01', b'\x0f', b'\0', b' ', b'\n', b'\r\n', b' \n', b'=', b'\x80', b'\xff', '\u20ac'.encode()]
    for z in sizes:
        for e in ends if THOROUGH else rng.sample(ends, 4) + [ends[0], b' \n']:
            body = rng.choice([bytes(z), b'a' * z, rng.getrandbits(8 * z).to_bytes(z, 'big')])
            yield body[:z - len(e)] + e
            yield e + body[:z - len(e)]


many = 3 if THOROUGH else 1
for kd in (('aes',) if PROP == 'C03' else ('hmac',)):
    for _ in range(2 * many):
        lookalikes(kd)
if PROP == 'C03':
    sweep('aes', list(range(0, 70)) + [4079, 4080, 4081, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536], 2 * many)
    sweep('aes', list(padlike()), many)
    sweep('aes', [131071, 131072, 131073, 200001, 262145] + ([1 << 20, 3000001] if THOROUGH else [1048577]), 1)
    sweep('aes', list(bigs([4096, 65536, 65536 + 7, 131072] + ([1 << 20] if THOROUGH else []))), 'all')
    sweep('rsa', list(range(0, 87)), 4 * many)
    sweep('rsa', [x for x in padlike() if len(x) < 87][::1 if THOROUGH else 3], 1)
else:
    sweep('hmac', list(range(0, 66)) + [4095, 4096, 65536], 2 * many)
    sweep('hmac', list(padlike())[::1 if THOROUGH else 3] + [131072, 200001, 1048577, 3000001], 1)
    sweep('hmac', list(bigs([4096, 65536, 65536 + 7, 131072, 1 << 20, (1 << 20) + 1])), 'all')
    sweep('rsasign', list(bigs([65537, (1 << 20) + 1]))[::1 if THOROUGH else 3], 'all')
    sweep('rsasign', [70000, 131073, 1048577], 2)
    sweep('dsa', [70000, 131073, 1048577], 2)
    sweep('rsasign', range(0, 130), 3 * many)
    sweep('dsa', range(0, 100), 2 * many)
T.close()
summary(histories=len(hists))
