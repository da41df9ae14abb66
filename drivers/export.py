"""C09: exports of public keys at any point of a lifecycle history."""
from use import *
import lifecycle_common as L

T = Trace(args.out)
patch_keygen()
det_random()


def secrets_of(ref):
    if ref.type == 'RSA_PRIV':
        m = [ref.d, ref.p, ref.q, ref.d % (ref.p - 1), ref.d % (ref.q - 1), pow(ref.q, -1, ref.p)]
    elif ref.type == 'DSA_PRIV':
        m = [ref.x]
    else:
        m = []
    res = []
    for x in m:
        for y in (R.i2b(x), b'\0' + R.i2b(x)):
            res += [y, y.hex().encode(), base64.b64encode(y).rstrip(b'='), base64.urlsafe_b64encode(y).rstrip(b'=')]
        res.append(str(x).encode())
    return [x for x in res if len(x) > 15]


def leak(path, refs, stale=()):
    sec = [s for k in refs for s in secrets_of(k)]
    for f in os.listdir(path):
        if f in stale:
            continue
        c = open(os.path.join(path, f), 'rb').read()
        if any(s in c for s in sec):
            return True
    return False


def export(env, dest, how, stale, readable=True, destok=True, src=None):
    src = src or env.path
    proj = lambda p: project_dir(p, env.crypters) if p and os.path.isdir(p) else dict(NODIR, vers=[])
    before, dbefore = proj(src), proj(dest)
    raw = {f: open(os.path.join(src, f)).read() for f in os.listdir(src)}
    if how == 'tool':
        r = call(keyczart.PubKey, src, dest)
    elif how == 'main':
        r = call(keyczart.main, ['pubkey', '--location=' + src] + (['--destination=' + dest] if dest else []))
    else:
        r = call(lambda: keyczar.GenericKeyczar(env.reader()).PublicKeyExport(dest))
    after = proj(src)
    if {f: open(os.path.join(src, f)).read() for f in os.listdir(src)} != raw and after == before:
        after = dict(after, extra=['changed bytes'])
    refs = env.refs()
    T.ev('export', how=how, src=before, srcafter=after, dst=proj(dest), dstbefore=dbefore, readable=readable, destok=destok,
         leak=bool(dest and os.path.isdir(dest) and leak(dest, refs, stale)), stale=sorted(stale), msg=r.msg, **r.fields())
    return r


def uses(env, dest):
    lst = []

    def u(what, want, fn):
        r = call(fn)
        got = r.val if r.ok else r.err
        lst.append(dict(what=what, want=want, got=got))
    refs = env.refs()
    meta = json.load(open(os.path.join(env.path, 'meta')))
    prim = [v['versionNumber'] for v in meta['versions'] if v['status'] == 'PRIMARY']
    priv = {v['versionNumber']: k for v, k in zip(meta['versions'], refs)}
    if env.purpose == 'SIGN_AND_VERIFY':
        ld = call(keyczar.Verifier.Read, dest)
        lu = call(keyczar.UnversionedVerifier.Read, dest)
        lst.append(dict(what='the exported set cannot be loaded', want='ok', got=ld.fields()['res'] if not lu.err else lu.err))
        if not (ld.ok and lu.ok):
            T.ev('uses', list=lst)
            return
        ver, uv = ld.val, lu.val
        u('a signer was built from public keys', 'KeyczarError', lambda: keyczar.Signer.Read(dest) and 'ok')
        for num, k in priv.items():
            data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 16, 33])))
            for op in ('sign', 'att', 'unv'):
                nonce = b'nn' if op == 'att' else b''
                out = ref_frame(op, k, data, ref_sign(k, signed_msg(op, data, nonce)))
                o = uv if op == 'unv' else ver
                want = data.hex() if op == 'att' else 'TRUE'
                u('a signature of version %d is not verified by the exported set' % num, want,
                  lambda: openit(o, op, n(out), n(data), n(nonce), False))
                bad = out[:-1] + bytes([out[-1] ^ 1])
                u('a bad signature is verified by the exported set', 'NONE' if op == 'att' else 'FALSE',
                  lambda: neg(op, openit(o, op, n(bad), n(data), n(nonce), False)))
        if prim:
            sg = keyczar.Signer(env.reader())
            out = sg.Sign('hello')
            u('a signature of the private set is not verified by the exported set', 'TRUE', lambda: openit(ver, 'sign', out, 'hello', '', True))
        u('an unknown key', 'KeyNotFoundError', lambda: openit(ver, 'sign', n(b'\0\1\2\3\4' + bytes(40)), 'x', '', False))
    else:
        ld = call(keyczar.Encrypter.Read, dest)
        lst.append(dict(what='the exported set cannot be loaded', want='ok', got=ld.err or 'ok'))
        u('a crypter was built from public keys', 'KeyczarError', lambda: keyczar.Crypter.Read(dest) and 'ok')
        if ld.ok and prim:
            pt = n(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 20, 86]))))
            r = call(ld.val.Encrypt, pt)
            lst.append(dict(what='the exported set does not encrypt', want='ok', got=r.err or 'ok'))
            if r.ok:
                lst.append(dict(what='the exported set does not encrypt under the primary key', want=priv[prim[0]].kid,
                                got=b64d(r.val)[1:5].hex()))
                lst.append(dict(what='the private set does not decrypt what the exported set encrypts', want=tok(pt),
                                got=tok(priv[prim[0]].unseal(b64d(r.val)) or b'') if priv[prim[0]].unseal(b64d(r.val)) is not None else 'NONE'))
                u('the private set refuses what the exported set encrypts', tok(pt),
                  lambda: tok(keyczar.Crypter(env.reader()).Decrypt(r.val)))
        elif ld.ok:
            u('the exported set encrypts without a primary key', 'NoPrimaryKeyError', lambda: ld.val.Encrypt('x') and 'ok')
    T.ev('uses', list=lst)


def neg(op, v):
    return v


# DSA: ref_sign needs x, available in the private key; bad signatures may be
# refused with a Keyczar error instead of a negative result
_openit = openit


def openit(o, op, out, data, nonce, b64):
    try:
        return _openit(o, op, out, data, nonce, b64)
    except errors.KeyNotFoundError:
        raise
    except errors.KeyczarError:
        return 'NONE' if op == 'att' else 'FALSE'


def history(h, kind, via):
    reset_pool()
    env = L.Env(kind, via)
    T.ev('reset', kind=kind)
    dest = newdir('pub')
    stale = set()
    for s in h:
        if s['step'] == 'cmd':
            env.run(env.adapt(s['c']))
            continue
        if rng.random() < .6:
            rmdir(dest)
            dest = newdir('pub')
            stale = set()
        mark(env)
        how = 'api' if via else rng.choice(['tool', 'main', 'api'])
        r = export(env, dest, how, stale)
        if r.ok:
            uses(env, dest)
        if via:
            d2 = newdir('pub')
            export(env, d2, rng.choice(['tool', 'main']), set(), readable=False)
            rmdir(d2)
        stale |= set(f for f in os.listdir(dest) if f != 'meta')
    rmdir(dest)
    env.close()


def mark(env, odd=False):
    """some versions may be exported in private form; the public export is not that"""
    p = os.path.join(env.path, 'meta')
    m = json.load(open(p))
    for v in m['versions']:
        if rng.random() < .4:
            v['exportable'] = not v['exportable']
    if odd:
        m['name'] = rng.choice(['', 'a "b" \\ c', u'n\u00e4me \u20ac', 'x' * 300, '{}', '0'])
        rng.shuffle(m['versions'])
    open(p, 'w').write(json.dumps(m))


def scattered():
    """sets whose numbers, order, names and paths are unusual"""
    for kind in ('rsasign', 'dsa', 'rsa'):
        for nums in ([3, 1, 2], [9, 10, 11, 2], [1, 100, 20, 3], [2, 255, 256], [7], list(range(1, 13))):
            reset_pool()
            env = L.Env(kind, '')
            T.ev('reset', kind=kind)
            prim = rng.choice(nums + [0])
            vers = [(v, 'PRIMARY' if v == prim else rng.choice(['ACTIVE', 'INACTIVE']), rng.random() < .5,
                     make_key(env.type)) for v in nums[:len(pool_keys(env.type, 1024))]]
            write_set(env.path, 'odd', env.purpose, env.type, vers)
            mark(env, True)
            for how in ('tool', 'main', 'api'):
                d = newdir('pub')
                dd = rng.choice([d, d + '/', os.path.join(d, '.'), os.path.relpath(d)])
                r = export(env, dd, how, set())
                if r.ok and how == 'api':
                    uses(env, d)
                rmdir(d)
            env.close()


def refusals():
    """sets without a public half, missing destinations, sets that are public already"""
    for kind in ('aes', 'hmac', 'rsa', 'rsasign', 'dsa'):
        for nv in (0, 2):
            reset_pool()
            env = L.Env(kind, '')
            T.ev('reset', kind=kind)
            for i in range(nv):
                env.run(env.adapt(dict(op='addkey', status=['PRIMARY', 'ACTIVE'][i], size=0, v=0)))
            for how in ('tool', 'main', 'api'):
                d = newdir('pub')
                r = export(env, d, how, set())
                # exporting an exported set again
                if r.ok:
                    d2 = newdir('pub')
                    how2 = rng.choice(['tool', 'main'])
                    export(env, d2, how2, set(), src=d)
                    rmdir(d2)
                rmdir(d)
            if nv:
                for how in ('tool', 'main'):
                    export(env, None, how, set(), destok=False)
                    export(env, os.path.join(WORK, 'nowhere', 'x'), how, set(), destok=False)
                    for same in (env.path, env.path + os.sep, os.path.join(env.path, '.', '')):
                        export(env, same, how, set(), destok=False)      # would destroy the private keys
            env.close()


hists = [x['hist'] for x in read_input()]
kinds = ['rsasign', 'dsa', 'rsa']
for i, h in enumerate(hists):
    history(h, kinds[i % 3], 'A' if i % 4 == 3 else '')
refusals()
scattered()
T.close()
summary(histories=len(hists), events=T.n)
