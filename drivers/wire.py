"""C14: outputs and files of the real code, and reference-made inputs for it,
recorded with the evaluation tables of the primitives for spec/WireTrace."""
from use import *
import lifecycle_common as L

T = Trace(args.out)
patch_keygen()
det_random()
TD = os.path.join(VERIF, 'fixtures', 'golden')


def keyrec(k):
    return {'type': k.type, 'kid': k.kid, 'aes': getattr(k, 'aes', b'').hex(),
            'hmac': getattr(k, 'hmac', b'').hex(),
            'n': R.i2b(k.n).hex() if hasattr(k, 'n') else '', 'k': getattr(k, 'k', 0)}


def tables(op, k, raw, data, nonce):
    t = []

    def put(f, key, i, o):
        t.append({'f': f, 'k': key, 'i': i.hex(), 'o': o.hex()})
    try:
        if op in ('enc', 'encs'):
            if k.type == 'AES':
                put('hmac', k.hmac.hex(), raw[:-20], R.hmac_sha1(k.hmac, raw[:-20]))
                c = raw[5:-20]
                if len(c) > 16 and len(c) % 16 == 0:
                    put('cbcdec', k.aes.hex(), c, R.aes_cbc_decrypt(k.aes, c[:16], c[16:]))
            else:
                c = raw[5:]
                em = R.i2b(pow(R.b2i(c), k.d, k.n), k.k)
                put('rsapriv', R.i2b(k.n).hex(), c, em)
                seed = R._xor(em[1:21], R.mgf1(em[21:], 20))
                put('unmask', '', em, seed + R._xor(em[21:], R.mgf1(seed, k.k - 21)))
            return t
        msg = signed_msg(op, data, nonce)
        sig = raw if op == 'unv' else raw[5:] if op == 'sign' else raw[9 + len(data):]
        if k.type == 'HMAC_SHA1':
            put('hmac', k.hmac.hex(), msg, R.hmac_sha1(k.hmac, msg))
            return t
        put('sha1', '', msg, R.sha1(msg))
        if k.type.startswith('RSA'):
            put('rsapub', R.i2b(k.n).hex(), sig, R.i2b(pow(R.b2i(sig), k.e, k.n), k.k))
        else:
            rl = sig[3]
            r, s = sig[4:4 + rl], sig[6 + rl:]
            ok = R.dsa_verify(k.p, k.q, k.g, k.y, msg, R.dsa_der(R.b2i(r), R.b2i(s)))
            put('dsaver', k.kid, R.sha1(msg) + r + s, b'\1' if ok else b'\0')
    except Exception:
        pass
    return t


def out_event(obj, op, k, data, nonce, b64, lib=''):
    r = call(produce, obj, op, n(data), n(nonce), b64)
    e = dict(op=op, key=keyrec(k), data=data.hex(), nonce=nonce.hex(), raw='', text='', b64=b64, tab=[], lib=lib)
    e.update(r.fields())
    if r.ok:
        try:
            raw = b64d(r.val) if b64 else b(r.val)
            e['raw'] = raw.hex()
            e['text'] = r.val if b64 else ''
            e['tab'] = tables(op, k, raw, data, nonce)
        except Exception:
            e['raw'] = '?'
    T.ev('out', **e)
    return e['raw']


def open_event(obj, op, k, raw, data, nonce, pad=0, lib=''):
    """raw was made by the reference; the code must accept it"""
    txt = rng.random() < .5
    x = b64e(raw) if txt else n(raw)
    r = call(openit, obj, op, x, n(data), n(nonce), txt)
    body = raw[:len(raw) - pad]
    e = dict(op=op, key=keyrec(k), data=data.hex(), nonce=nonce.hex(), raw=raw.hex(), pad=pad,
             tab=tables(op, k, body, data, nonce), lib=lib, val='')
    e.update(r.fields())
    if r.ok:
        want = {'enc': tok(n(data)), 'encs': tok(n(data)), 'att': tok(n(data))}.get(op, 'TRUE')
        e['val'] = 'right' if r.val == want else 'wrong'
    T.ev('open', **e)


# ------------------------------------------------------------------ files
def trimmed(x):
    return R.i2b(x).hex()


def keyfile_event(ktype, text, hash_id):
    e = {'type': ktype, 'fields': [], 'sub': [], 'b64': [], 'big': [], 'size': -1, 'subsize': -1, 'mode': '',
         'bits': 0, 'arith': False, 'kid': '', 'tab': [], 'form': 'bad',
         'j': {'type': ktype, 'aes': '', 'hmac': '', 'n': '', 'e': '', 'p': '', 'q': '', 'g': '', 'y': ''}}
    try:
        e['kid'] = b64d(hash_id).hex()
        j = json.loads(text)
        k = RefKey(ktype, j)
        sub = j.get('publicKey', j.get('hmacKey', {}))
        e['fields'], e['sub'] = sorted(j), sorted(sub)
        e['size'] = j['size'] if type(j['size']) is int else -1
        e['subsize'] = sub.get('size', -1)
        e['mode'] = j.get('mode', '')
        for src in (j, sub):
            for f, v in src.items():
                if f in ('size', 'mode') or isinstance(v, dict):
                    continue
                hexv = base64.urlsafe_b64decode(v + '=' * (-len(v) % 4)).hex()
                e['b64'].append([v, hexv])
                if f not in ('aesKeyString', 'hmacKeyString'):
                    e['big'].append(hexv)
        e['bits'] = k.bits
        e['arith'] = bool(k.shape)
        jj = e['j']
        if ktype in ('AES', 'HMAC_SHA1'):
            jj['aes'], jj['hmac'] = getattr(k, 'aes', b'').hex(), k.hmac.hex()
            m = (R.i4(len(k.aes)) + k.aes + k.hmac) if ktype == 'AES' else k.hmac
        elif ktype.startswith('RSA'):
            jj['n'], jj['e'] = trimmed(k.n), trimmed(k.e)
            m = b''.join(R.i4(len(x)) + x for x in k.pub)
        else:
            for f in 'pqgy':
                jj[f] = trimmed(getattr(k, f))
            m = b''.join(R.i4(len(x)) + x for x in k.pub)
        e['tab'] = [{'f': 'sha1', 'k': '', 'i': m.hex(), 'o': R.sha1(m).hex()}]
        e['form'] = 'ok'
    except Exception as x:
        e['mode'] = type(x).__name__
    T.ev('keyfile', **e)


def meta_event(text):
    e = {'form': 'bad', 'fields': [], 'vers': [], 'purpose': '', 'type': '', 'kinds': False}
    try:
        j = json.loads(text)
        e['fields'] = sorted(j)
        e['purpose'], e['type'] = j['purpose'], j['type']
        e['kinds'] = isinstance(j['name'], str) and isinstance(j['encrypted'], bool)
        for v in j['versions']:
            e['vers'].append({'fields': sorted(v), 'st': v['status'],
                              'kinds': type(v['versionNumber']) is int and v['versionNumber'] > 0
                              and isinstance(v['exportable'], bool)})
        e['form'] = 'ok'
    except Exception:
        pass
    T.ev('meta', **e)


def dir_events(path, crypter=None):
    """files of a directory written by the code"""
    meta = open(os.path.join(path, 'meta')).read()
    meta_event(meta)
    m = json.loads(meta)
    for v in m['versions']:
        text = open(os.path.join(path, str(v['versionNumber']))).read()
        if crypter:
            raw = b64d(text)
            pt = None
            for k in crypter:
                pt = k.unseal(raw)
                if pt is not None:
                    T.ev('out', op='enc', key=keyrec(k), data=pt.hex(), nonce='', raw=raw.hex(), text=text,
                         b64=True, tab=tables('enc', k, raw, pt, b''), lib='', res='ok', err='', kz=False)
                    break
            text = pt.decode() if pt else ''
        r = call(lambda: keys.ReadKey(keyinfo.GetType(m['type']), text).hash_id)
        keyfile_event(m['type'], text, r.val if r.ok else '')


# ------------------------------------------------------------------ parts
def part_files():
    """key sets written by the code through keyczart"""
    for kind in ('aes', 'hmac', 'rsa', 'rsasign', 'dsa'):
        for via in ('', 'A'):
            reset_pool()
            env = L.Env(kind, via)
            sizes = {'aes': [128, 192, 256], 'hmac': [256], 'dsa': [1024]}.get(kind, [1024, 2048])
            for i, z in enumerate(sizes * 2):
                st = ['ACTIVE', 'PRIMARY', 'INACTIVE', 'PRIMARY'][i % 4]
                env.run({'op': 'addkey', 'status': st, 'size': z, 'via': via})
            T.ev('reset', kind=kind, via=via)
            dir_events(env.path, env.crypters['A'] if via else None)
            if not via and env.pubable():
                d2 = newdir()
                r = call(keyczart.PubKey, env.path, d2)
                if r.ok:
                    dir_events(d2)
                rmdir(d2)
            env.close()
    d = newdir()
    call(keyczart.Create, d, 'N\u00e4me "x" \\ y', keyinfo.SIGN_AND_VERIFY, 'dsa')
    try:
        meta_event(open(os.path.join(d, 'meta')).read())
    except OSError:
        meta_event('')
    rmdir(d)


def part_generated():
    """generated keys some of whose numbers are shorter than usual"""
    from Crypto.PublicKey import RSA, DSA
    pool = [RefKey('RSA_PRIV', x) for x in pool_keys('RSA_PRIV', 1024)]
    short = lambda x, m: x and len(R.i2b(x)) < len(R.i2b(m))
    found = []
    for what in ('dp', 'dq', 'd', 'dp', 'dq', 'e'):
        k = rng.choice(pool)
        p, q = sorted((k.p, k.q))
        phi = (p - 1) * (q - 1)
        e = rng.randrange(3, 1 << 24) | 1
        for _ in range(20000):
            e += 2
            try:
                d = pow(e, -1, phi)
            except ValueError:
                continue
            if what == 'e' or short({'dp': d % (p - 1), 'dq': d % (q - 1), 'd': d}[what], {'dp': p, 'dq': q, 'd': k.n}[what]):
                found.append((p, q, e, d))
                break
    primes = [x for k in pool for x in (k.p, k.q)]
    us = [(p, q) for p in primes for q in primes if p < q and (p * q).bit_length() == 1024 and short(pow(p, -1, q), q)]
    for p, q in us[:3]:
        for e in (65537, 257, 17, 65539):
            try:
                found.append((p, q, e, pow(e, -1, (p - 1) * (q - 1))))
                break
            except ValueError:
                pass
    dsas = [RefKey('DSA_PRIV', x) for x in special_keys()['DSA_PRIV']]
    real = RSA.generate, DSA.generate
    try:
        for kind, objs in (('rsa', [RSA.construct((p * q, e, d, p, q, pow(p, -1, q))) for p, q, e, d in found]),
                           ('rsasign', [RSA.construct((p * q, e, d, p, q, pow(p, -1, q))) for p, q, e, d in found]),
                           ('dsa', [DSA.construct((r.y, r.g, r.p, r.q, r.x)) for r in dsas])):
            for o in objs:
                def gen(size, randfunc=None, *a, **k):
                    if randfunc:
                        randfunc(16)
                    return o
                RSA.generate = DSA.generate = gen
                env = L.Env(kind, '')
                env.run({'op': 'addkey', 'status': 'PRIMARY', 'size': 1024, 'via': ''})
                T.ev('reset', kind=kind, via='short numbers')
                dir_events(env.path, None)
                env.close()
    finally:
        RSA.generate, DSA.generate = real


# extreme moduli, small and large exponents, primes in either order and of different lengths
EDGE = [json.dumps(x) for x in json.load(open(os.path.join(VERIF, 'fixtures', 'edgekeys.json'))).values()]


def special_keys():
    """reference-made keys with awkward numbers: leading zero bytes in material"""
    res = {'AES': [], 'HMAC_SHA1': [], 'DSA_PRIV': [], 'RSA_PRIV': []}
    for size in (128, 192, 256):
        for z in (0, 1, 4):
            aes, hm = bytes(z) + _rb(size // 8 - z), bytes(z) + _rb(32 - z)
            res['AES'].append(json.dumps({'mode': 'CBC', 'size': size, 'aesKeyString': b64e(aes),
                                          'hmacKey': {'size': 256, 'hmacKeyString': b64e(hm)}}))
            res['HMAC_SHA1'].append(json.dumps({'size': 256, 'hmacKeyString': b64e(hm)}))
    # zero bytes, white space and the like at either end, repeated bytes
    for f in (lambda k: _rb(k - 1) + b'\0', lambda k: _rb(k - 3) + bytes(3), lambda k: b' ' + _rb(k - 2) + b'\n', bytes,
              lambda k: b'\xff' * k, lambda k: b'=' * k, lambda k: _rb(k - 1) + b'\x80'):
        size = rng.choice((128, 192, 256))
        res['AES'].append(json.dumps({'mode': 'CBC', 'size': size, 'aesKeyString': b64e(f(size // 8)),
                                      'hmacKey': {'size': 256, 'hmacKeyString': b64e(f(32))}}))
        res['HMAC_SHA1'].append(json.dumps({'size': 256, 'hmacKeyString': b64e(f(32))}))
    g = RefKey('DSA_PRIV', json.dumps(pool_keys('DSA_PRIV', 1024)[0]))
    enc = lambda x: b64e(R.i2b(x, x.bit_length() // 8 + 1))
    want = 3
    x = 12345678901234567890
    while want:
        x += 1
        y = pow(g.g, x, g.p)
        if y.bit_length() <= 1016:       # y shorter than p
            want -= 1
            res['DSA_PRIV'].append(json.dumps(
                {'publicKey': {'p': enc(g.p), 'q': enc(g.q), 'g': enc(g.g), 'y': enc(y), 'size': 1024},
                 'x': enc(x), 'size': 1024}))
    res['DSA_PRIV'].append(json.dumps(pool_keys('DSA_PRIV', 1024)[1]))
    res['RSA_PRIV'] = [json.dumps(x) for x in pool_keys('RSA_PRIV', 1024)[:3]] + \
        [json.dumps(pool_keys('RSA_PRIV', 2048)[0]), json.dumps(pool_keys('RSA_PRIV', 4096)[0])] + EDGE
    return res


def _rb(k):
    return bytes(rng.randrange(256) for _ in range(k))


def obj_for(ktype, text, purpose, cls):
    d = newdir()
    write_set(d, 'x', purpose, ktype, [(1, 'PRIMARY', False, text)])
    r = call(cls.Read, d)
    rmdir(d)
    return r.val if r.ok else None


def steer(byts):
    """let the next draws of the operating system's random source be these"""
    real = os.urandom
    q = list(byts)

    def f(k):
        if q and len(q[0]) == k:
            return q.pop(0)
        return real(k)
    os.urandom = f

    def done():
        os.urandom = real
    return done


def libs():
    return ['m2crypto', 'pycrypto']


def part_outputs():
    sk = special_keys()
    lens = list(range(0, 50)) + [63, 64, 65, 255, 256, 257]
    if THOROUGH:
        lens = list(range(0, 200)) + [255, 256, 257, 1000, 4095, 4096, 4097]
    for ktype, lst in sk.items():
        for i, text in enumerate(lst):
            T.ev('reset', kind=ktype, via='')
            k = RefKey(ktype, text)
            r = call(lambda: keys.ReadKey(keyinfo.GetType(ktype), text))
            if r.ok:
                keyfile_event(ktype, str(r.val), r.val.hash_id)
            if ktype == 'AES':
                c = obj_for(ktype, text, 'DECRYPT_AND_ENCRYPT', keyczar.Crypter)
                for lib in libs():
                    keys.ACTIVE_CRYPT_LIB = lib
                    for ln in (lens if k.aes[0] and i < 9 else rng.sample(lens, 8)):
                        op = rng.choice(['enc', 'encs'])
                        out_event(c, op, k, datum(ln), b'', rng.random() < .5, lib)
                        d = datum(ln)
                        iv = rng.choice([_rb(16), bytes(16), b'\xff' * 16])
                        open_event(c, rng.choice(['enc', 'encs']), k, k.seal(d, iv), d, b'', lib=lib)
                keys.ACTIVE_CRYPT_LIB = 'm2crypto' if keys.EVP else 'pycrypto'
            elif ktype == 'RSA_PRIV':
                rsa_enc(k, text)
                signs(k, text, 3 if k.k > 256 else 12)
            else:
                signs(k, text, len(lens) if ktype == 'HMAC_SHA1' and k.hmac[0] and i < 9 else 14)


def datum(ln):
    m = rng.randrange(5)
    if m == 0:
        return bytes(ln)
    if m == 1:
        return bytes([255]) * ln
    if m == 2:
        return (b'\0' + _rb(ln))[:ln]
    if m == 3:
        return (_rb(ln) + b'\x01\x00')[-ln:] if ln else b''
    return _rb(ln)


def rsa_enc(k, text):
    c = obj_for('RSA_PRIV', text, 'DECRYPT_AND_ENCRYPT', keyczar.Crypter)
    mx = k.k - 42
    for ln in [0, 1, 2, 20, mx - 1, mx] if k.k < 500 else [0, mx]:
        out_event(c, 'enc', k, datum(ln), b'', rng.random() < .5)
    # too long a message is refused (never truncated)
    r = call(c.Encrypt, n(_rb(mx + 1)))
    T.ev('refuse', **r.fields())
    if k.k > 128:
        return
    # seeds for which intermediate values begin with zero bytes
    found = {'ms1': 2, 'ms2': 1, 'c1': 2, 'plain': 3}
    tries = 0
    while any(found.values()) and tries < 200000:
        tries += 1
        seed = _rb(20)
        d = datum(rng.choice([0, 1, 30, mx]))
        em = R.oaep_encode(d, k.k, seed)
        kind = 'plain'
        if em[1] == 0 and em[2] == 0:
            kind = 'ms2'
        elif em[1] == 0:
            kind = 'ms1'
        if not found.get(kind):
            if not found['c1'] or tries % 16:
                continue
        ct = R.i2b(pow(R.b2i(em), k.e, k.n), k.k)
        if not found.get(kind):
            if ct[0]:
                continue
            kind = 'c1'
        found[kind] -= 1
        raw = b'\0' + bytes.fromhex(k.kid) + ct
        open_event(c, 'enc', k, raw, d, b'')
        done = steer([seed])
        out_event(c, 'enc', k, d, b'', False)
        done()


LONG = [4096, 32767, 32768, 65535, 65536, 70001, 100000]


def signs(k, text, count):
    s = obj_for(k.type, text, 'SIGN_AND_VERIFY', keyczar.Signer)
    u = obj_for(k.type, text, 'SIGN_AND_VERIFY', keyczar.UnversionedSigner)
    for i in range(count):
        d = datum(rng.choice([0, 1, 2, 3, 4, 5, 8, 55, 56, 63, 64, 65, i]))
        nonce = datum(rng.choice([0, 1, 4, 16, 20, 300]))
        for op, o in (('sign', s), ('att', s), ('unv', u)):
            out_event(o, op, k, d, nonce, rng.random() < .5)
            sig = ref_sign(k, signed_msg(op, d, nonce))
            open_event(o, op, k, frame(op, k, d, sig), d, nonce)
            if op == 'att' and k.type == 'DSA_PRIV':
                z = rng.choice([1, 2, 7, 20])
                open_event(o, op, k, frame(op, k, d, sig) + bytes(z), d, nonce, pad=z)
    # long data and nonces
    for ln in rng.sample(LONG, len(LONG) if THOROUGH else 2):
        for op, o in (('sign', s), ('att', s), ('att', s), ('unv', u)):
            d, nonce = (datum(ln), datum(5)) if rng.random() < .5 else (datum(5), datum(ln))
            out_event(o, op, k, d, nonce, False)
            sig = ref_sign(k, signed_msg(op, d, nonce))
            open_event(o, op, k, frame(op, k, d, sig), d, nonce)
    # values that begin with zero bytes
    if k.type == 'RSA_PRIV' and k.k <= 128:
        hits = 0
        for i in range(5000):
            d = b'msg %d' % i
            for op, o in (('sign', s), ('unv', u)):
                msg = signed_msg(op, d, b'')
                sig = crt_pow(k, R.b2i(R.emsa(msg, k.k)))
                if sig >> (8 * (k.k - 1)) == 0:
                    hits += 1
                    out_event(o, op, k, d, b'', False)
                    open_event(o, op, k, frame(op, k, d, R.i2b(sig, k.k)), d, b'')
            if hits >= 3:
                break
    if k.type == 'DSA_PRIV':
        want = {'r19': 1, 's19': 1, 'r21': 1, 's21': 1, 'r20': 1}
        kk = rng.randrange(10 ** 10, 10 ** 40)
        for _ in range(20000):
            if not any(want.values()):
                break
            kk += 1
            r = pow(k.g, kk, k.p) % k.q
            d = b'd%d' % rng.randrange(1000)
            sig = R.dsa_sign(k.p, k.q, k.g, k.x, d + b'\0', kk)
            rl, sl = sig[3], sig[5 + sig[3]]
            for name in ('r%d' % rl if rl >= 19 else 'r19', 's%d' % sl if sl >= 19 else 's19'):
                if want.get(name):
                    want[name] -= 1
                    open_event(s, 'sign', k, frame('sign', k, d, sig), d, b'')


def crt_pow(k, m):
    return pow(m, k.d, k.n)


def ref_sign(k, msg):
    if k.type == 'HMAC_SHA1':
        return R.hmac_sha1(k.hmac, msg)
    if k.type.startswith('RSA'):
        return R.i2b(pow(R.b2i(R.emsa(msg, k.k)), k.d, k.n), k.k)
    return R.dsa_sign(k.p, k.q, k.g, k.x, msg, rng.randrange(2, k.q - 1))


def frame(op, k, data, sig):
    h = b'\0' + bytes.fromhex(k.kid)
    return sig if op == 'unv' else h + sig if op == 'sign' else h + R.i4(len(data)) + data + sig


def part_sessions():
    """session material and messages"""
    for wrap in ('AES', 'RSA_PRIV'):
        wt = make_key(wrap, 2048 if wrap != 'AES' else None)
        wk = RefKey(wrap, wt)
        c = obj_for(wrap, wt, 'DECRYPT_AND_ENCRYPT', keyczar.Crypter)
        for st in ('HMAC_SHA1', 'DSA_PRIV', 'RSA_PRIV'):
            stext = make_key(st)
            sk = RefKey(st, stext)
            sg = obj_for(st, stext, 'SIGN_AND_VERIFY', keyczar.Signer)
            T.ev('reset', kind='session', via='')
            for i in range(3):
                plain_session(c, wk)
                if wrap == 'AES' or wk.k >= 256:
                    signed_session(c, wk, sg, sk)


EMPTY_SESS = dict(form='bad', kind='', pt='', key=dict(type='AES', kid='', aes='', hmac='', n='', k=0),
                  kidok=False, msg='', data='', mtab=[], nonce='', inner='', skey=dict(
                      type='', kid='', aes='', hmac='', n='', k=0), stab=[], fields=[], res='ok', err='', kz=False)


def sess_key(aes, hm):
    t = json.dumps({'mode': 'CBC', 'size': len(aes) * 8, 'aesKeyString': b64e(aes),
                    'hmacKey': {'size': len(hm) * 8, 'hmacKeyString': b64e(hm)}})
    return RefKey('AES', t), t


def wrapped(wk, material):
    """-> plaintext of session material; records the wrapping as an output"""
    raw = b64d(material)
    pt = wk.unseal(raw)
    T.ev('out', op='enc', key=keyrec(wk), data=(pt or b'').hex(), nonce='', raw=raw.hex(), text=material, b64=True,
         tab=tables('enc', wk, raw, pt or b'', b''), lib='', res='ok', err='', kz=False)
    return pt


def plain_session(c, wk):
    e = json.loads(json.dumps(EMPTY_SESS))
    e['kind'] = 'plain'
    data = datum(rng.choice([0, 5, 16, 40]))

    def go():
        s = keyczar.SessionEncrypter(c)
        return s.session_material, s.Encrypt(n(data))
    r = call(go)
    e.update(r.fields())
    try:
        if r.ok:
            pt = wrapped(wk, r.val[0])
            e['pt'] = pt.hex()
            la = int.from_bytes(pt[4:8], 'big')
            k, _ = sess_key(pt[8:8 + la], pt[12 + la:])
            raw = b64d(r.val[1])
            e.update(form='ok', key=keyrec(k), msg=raw.hex(), data=data.hex(),
                     mtab=tables('enc', k, raw, data, b''))
    except Exception:
        pass
    T.ev('sess', **e)
    # the other direction: reference-made material of every AES size
    for size in (16, 24, 32):
        k, _ = sess_key(_rb(size), _rb(32))
        mat = ref_wrap(wk, R.i4(2) + R.i4(size) + k.aes + R.i4(32) + k.hmac)
        d = datum(rng.choice([0, 15, 16, 33]))
        r = call(lambda: keyczar.SessionDecrypter(c, b64e(mat)).Decrypt(b64e(k.seal(d))))
        T.ev('golden', what='session %d' % size, want=d.hex(), got=hx(r.val) if r.ok else '', **r.fields())


def ref_wrap(wk, pt):
    if wk.type == 'AES':
        return wk.seal(pt)
    em = R.oaep_encode(pt, wk.k, _rb(20))
    return b'\0' + bytes.fromhex(wk.kid) + R.i2b(pow(R.b2i(em), wk.e, wk.n), wk.k)


def signed_session(c, wk, sg, sk):
    e = json.loads(json.dumps(EMPTY_SESS))
    e['kind'] = 'signed'
    data = datum(rng.choice([0, 5, 16, 40]))

    def go():
        s = keyczar.SignedSessionEncrypter(c, sg)
        return s.session_material, s.Encrypt(n(data))
    r = call(go)
    e.update(r.fields())
    try:
        if r.ok:
            pt = wrapped(wk, r.val[0])
            j = json.loads(pt.decode())
            e['fields'] = sorted(j)
            k = RefKey('AES', json.dumps(j['key']))
            h = keys.AesKey.Read(json.dumps(j['key'])).hash_id
            keyfile_event('AES', json.dumps(j['key']), h)
            nonce = b64d(j['nonce'])
            raw = b64d(r.val[1])
            ln = int.from_bytes(raw[5:9], 'big')
            inner = raw[9:9 + ln]
            e.update(form='ok', key=keyrec(k), msg=raw.hex(), data=data.hex(), nonce=nonce.hex(),
                     mtab=tables('enc', k, inner, data, b''), inner=inner.hex(), skey=keyrec(sk),
                     stab=tables('att', sk, raw, inner, nonce))
    except Exception:
        pass
    T.ev('sess', **e)
    k, t = sess_key(_rb(16), _rb(32))
    nonce = _rb(16)
    mat = ref_wrap(wk, json.dumps({'nonce': b64e(nonce), 'key': json.loads(t)}).encode())
    d = datum(rng.choice([0, 15, 16, 33]))
    inner = k.seal(d)
    msg = frame('att', sk, inner, ref_sign(sk, signed_msg('att', inner, nonce)))
    r = call(lambda: keyczar.SignedSessionDecrypter(c, sg, b64e(mat)).Decrypt(b64e(msg)))
    T.ev('golden', what='signed session', want=d.hex(), got=hx(r.val) if r.ok else '', **r.fields())


def part_golden():
    """data and key sets of the other implementations and of earlier releases"""
    T.ev('reset', kind='golden', via='')
    txt = 'This is some test data'
    cnt = 0

    def g(what, want, fn):
        r = call(fn)
        v = r.val
        got = hx(v) if isinstance(v, (str, bytes)) else verdict(v) if r.ok else ''
        T.ev('golden', what=what, want=want, got=got, **r.fields())

    def rd(p):
        return open(p).read()
    for fam in ('java', 'cpp06b', 'cpp', 'py'):
        for s in sorted(os.listdir(os.path.join(TD, fam))):
            d = os.path.join(TD, fam, s)
            for v in ('1', '2'):
                o = os.path.join(d, v + '.out')
                if not os.path.exists(o):
                    continue
                if s == 'aes-crypted':
                    g(d, hx(txt), lambda: keyczar.Crypter(readers.EncryptedReader(
                        readers.CreateReader(d), keyczar.Crypter.Read(os.path.join(TD, fam, 'aes')))).Decrypt(rd(o)))
                elif s in ('aes', 'aes-noprimary', 'rsa'):
                    g(d, hx(txt), lambda: keyczar.Crypter.Read(d).Decrypt(rd(o)))
                    if s != 'rsa':
                        g(d + ' stream', tok(txt), lambda: n(bytes.fromhex(openit(
                            keyczar.Crypter.Read(d), 'encs', rd(o), txt, '', True))))
                else:
                    for cls in (keyczar.Signer, keyczar.Verifier):
                        g(d, 'TRUE', lambda: cls.Read(d).Verify(txt, rd(o)))
                        g(d, 'FALSE', lambda: cls.Read(d).Verify(txt + 'x', rd(o)))
                    pub = d + '.public'
                    if os.path.exists(pub):
                        g(pub, 'TRUE', lambda: keyczar.Verifier.Read(pub).Verify(txt, rd(o)))
    J = os.path.join(TD, 'java')
    g('java session', hx(txt), lambda: keyczar.SessionDecrypter(
        keyczar.Crypter.Read(J + '/rsa'), rd(J + '/rsa/session.material.out')).Decrypt(rd(J + '/rsa/session.ciphertext.out')))
    g('java signed session', hx(txt), lambda: keyczar.SignedSessionDecrypter(
        keyczar.Crypter.Read(J + '/rsa'), keyczar.Verifier.Read(J + '/dsa'),
        rd(J + '/signedsession/signed.session.out')).Decrypt(rd(J + '/signedsession/signed.ciphertext.out')))
    X = os.path.join(TD, 'crosscomp')
    real = 'This is not a test, this is a real string'
    g('crosscomp aes 1', hx('Some text to encrypt'), lambda: keyczar.Crypter.Read(X + '/aes').Decrypt(rd(X + '/aes/1.out')))
    g('crosscomp aes 2', hx(real), lambda: keyczar.Crypter.Read(X + '/aes').Decrypt(rd(X + '/aes/2.out')))
    g('crosscomp rsa 1', hx(real), lambda: keyczar.Crypter.Read(X + '/rsa').Decrypt(rd(X + '/rsa/1.out')))
    g('crosscomp dsa 1', 'TRUE', lambda: keyczar.Verifier.Read(X + '/dsa').Verify(real, rd(X + '/dsa/1.out')))
    g('crosscomp hmac 1', 'TRUE', lambda: keyczar.Verifier.Read(X + '/hmac').Verify(real, rd(X + '/hmac/1.out')))
    # key sets read and written back by the code keep the format and the key
    for fam in ('java', 'cpp06b', 'py'):
        for s in ('aes', 'hmac', 'rsa', 'rsa-sign', 'dsa'):
            src = os.path.join(TD, fam, s)
            d = newdir()
            for f in ('meta', '1', '2'):
                shutil.copy(os.path.join(src, f), d)
            r = call(keyczart.Demote, d, 1)
            want = {v: (k.fp, k.kid) for v, k in load_ref(src).items()}
            try:
                got = {v: (k.fp, k.kid) for v, k in load_ref(d).items()}
            except Exception:
                got = None
            T.ev('golden', what='rewrite ' + src, want='same', got='same' if want == got else 'different', **r.fields())
            dir_events(d)
            rmdir(d)


part_files()
part_generated()
part_golden()
part_sessions()
part_outputs()
T.close()
summary(events=T.n)
