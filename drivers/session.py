"""Sessions: replays the model's histories on the real session classes."""
from use import *

det_random()
T = Trace(args.out)


def _rb(k):
    return rng.getrandbits(8 * k).to_bytes(k, 'big') if k else b''


class Set(object):
    """a key set directory with independent rotation"""

    def __init__(self, ktype, purpose, size=None):
        self.ktype, self.purpose, self.size = ktype, purpose, size
        self.dir, self.pub = newdir('k'), newdir('p')
        self.vers, self.texts, self.refs = [], {}, {}
        self.rotate()

    def write(self):
        for d in (self.dir, self.pub):
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
        prim = max(self.texts)
        vs = [(v, 'PRIMARY' if v == prim else rng.choice(['ACTIVE', 'INACTIVE']), False, self.texts[v]) for v in self.vers]
        write_set(self.dir, 'n', self.purpose, self.ktype, vs)
        if self.ktype.endswith('PRIV'):
            pp = 'ENCRYPT' if self.purpose.startswith('DECRYPT') else 'VERIFY'
            write_set(self.pub, 'n', pp, self.ktype.replace('PRIV', 'PUB'),
                      [(v, s, e, json.dumps(json.loads(t)['publicKey'])) for v, s, e, t in vs])

    def rotate(self):
        v = len(self.texts) + 1
        self.texts[v] = make_key(self.ktype, self.size)
        self.refs[v] = RefKey(self.ktype, self.texts[v])
        self.vers.append(v)
        self.write()

    def revoke(self, v):
        self.vers.remove(v)
        self.write()

    def prim(self):
        return self.refs[max(self.texts)]

    def public(self):
        return self.pub if self.ktype.endswith('PRIV') and rng.random() < .7 else self.dir


LENS = [0, 1, 15, 16, 17, 100, 1000, 17, 100, 5000, 70000, 20, 33, 140000, 47, 300000]


def history(h, wt, st, mt):
    reset_pool()
    W = Set(wt, 'DECRYPT_AND_ENCRYPT', 2048 if wt == 'RSA_PRIV' else rng.choice([128, 256]))
    S = {'S': Set(st, 'SIGN_AND_VERIFY')}
    S['M'] = Set(mt, 'SIGN_AND_VERIFY')
    T.ev('reset', kind=wt + '/' + st + '/' + mt, via='')
    sess, msgs, decs = [], [], []     # python side of the model's sequences

    def nonce_of(j):
        return sess[j - 1].get('nonce', b'') if j else b''

    def do(c):
        op = c['op']
        e = {k: c[k] for k in ('i', 'j', 'k', 'p', 'v')}
        if op == 'rotw':
            W.rotate()
        elif op == 'revw':
            W.revoke(c['v'])
        elif op == 'rots':
            S[c['p']].rotate()
        elif op == 'revs':
            S[c['p']].revoke(c['v'])
        elif op == 'open':
            def go():
                enc = (keyczar.Encrypter if rng.random() < .7 else keyczar.Crypter).Read(W.dir) \
                    if wt == 'AES' else keyczar.Encrypter.Read(W.public())
                if c['k'] == 'plain':
                    return keyczar.SessionEncrypter(enc)
                return keyczar.SignedSessionEncrypter(enc, keyczar.Signer.Read(S[c['p']].dir))
            r = call(go)
            e.update(r.fields())
            x = {'obj': r.val if r.ok else None, 'kind': c['k'], 'nonce': b''}
            if r.ok:
                m = call(lambda: r.val.session_material)
                x['mat'] = m.val if m.ok else ''
                try:
                    pt = None
                    for k in W.refs.values():
                        pt = k.unseal(b64d(x['mat']))
                        if pt is not None:
                            break
                    if c['k'] == 'signed':
                        x['nonce'] = b64d(json.loads(pt.decode())['nonce'])
                except Exception:
                    pass
            sess.append(x)
        elif op == 'send':
            x = sess[c['i'] - 1]
            data = _rb(rng.choice(LENS))
            raw = rng.random() < .3 and x['kind'] == 'plain'
            r = call(lambda: x['obj'].Encrypt(n(data), None) if raw else x['obj'].Encrypt(n(data)))
            e.update(r.fields())
            e['data'] = tok(data)
            out = r.val if r.ok and isinstance(r.val, str) else ''
            if raw and out:
                out = b64e(b(out))
            inner = b''
            try:
                q = b64d(out)
                inner = q if x['kind'] == 'plain' else q[9:9 + int.from_bytes(q[5:9], 'big')]
            except Exception:
                pass
            msgs.append({'out': out, 'inner': inner, 'data': tok(data), 'kind': x['kind']})
        elif op == 'forge':
            m = msgs[c['i'] - 1]
            inner, k = m['inner'], c['k']
            if k in ('resign', 'resignS', 'nonce'):
                rk = S['M' if k == 'resign' else 'S'].prim()
                nc = b'' if k == 'nonce' else nonce_of(c['j'])
                out = ref_frame('att', rk, inner, ref_sign(rk, signed_msg('att', inner, nc)))
            elif k == 'strip':
                out = inner
            elif k == 'swap':
                o = [y for y in msgs if y['kind'] == 'signed' and y['inner'] != inner and y['inner']]
                if o:
                    q = b64d(rng.choice(o)['out'])
                    ln = int.from_bytes(q[5:9], 'big')
                    out = q[:5] + R.i4(len(inner)) + inner + q[9 + ln:]
                else:
                    out = ref_frame('att', S['S'].prim(), inner, bytes(20))
            else:
                out = ref_frame('att', S['S'].prim(), inner, rng.choice([b'', bytes(20), _rb(128)]))
            e['data'] = m['data']
            # a resigned body whose session has no nonce is signed for no session
            if k in ('resign', 'resignS') and sess[c['j'] - 1]['kind'] == 'plain':
                e['k'] = 'bare'
            msgs.append({'out': b64e(out), 'inner': inner, 'data': m['data'], 'kind': 'forged'})
        elif op == 'build':
            x = sess[c['i'] - 1]

            def build(mat, who=c['p']):
                cr = keyczar.Crypter.Read(W.dir)
                if c['k'] == 'plain':
                    return keyczar.SessionDecrypter(cr, mat)
                s = S[who]
                return keyczar.SignedSessionDecrypter(cr, keyczar.Verifier.Read(s.public()), mat)
            r = call(build, x.get('mat', ''))
            e.update(r.fields())
            decs.append(r.val if r.ok else None)
            if rng.random() < .3 and x.get('mat'):
                raw = bytearray(b64d(x['mat']))
                raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
                y = call(build, b64e(bytes(raw)))
                T.ev('tamper', **y.fields())
        elif op == 'decrypt':
            return decrypt(c['i'], c['j'])
        T.ev(op, **e)

    def decrypt(i, j):
        d, m = decs[i - 1], msgs[j - 1]
        if d is None:
            return
        raw = rng.random() < .3 and isinstance(d, keyczar.SessionDecrypter)
        r = call(lambda: d.Decrypt(n(b64d(m['out'])), None) if raw else d.Decrypt(m['out']))
        val = tok(r.val) if r.ok and r.val is not None else 'refused'
        T.ev('decrypt', i=i, j=j, k='', p='', v=0, val=val, **r.fields())

    for c in h:
        if c['op']:
            do(c)
    # every decrypter against every message, in a random order
    pairs = [(i + 1, j + 1) for i in range(len(decs)) for j in range(len(msgs))]
    rng.shuffle(pairs)
    for i, j in pairs[:60 if not THOROUGH else 200]:
        decrypt(i, j)
    for s in (W, S['S'], S['M']):
        rmdir(s.dir)
        rmdir(s.pub)


def main():
    hs = [x['hist'] for x in read_input()]
    wts = ['AES', 'RSA_PRIV', 'AES']
    sts = ['HMAC_SHA1', 'RSA_PRIV', 'DSA_PRIV']
    for i, h in enumerate(hs):
        st = sts[i % 3]
        mt = st if rng.random() < .7 else rng.choice(sts)
        history(h, wts[(i // 3) % 3], st, mt)
    T.close()
    summary(events=T.n)


main()
