"""C07: every configuration of Roles built with the real code."""
from use import *

T = Trace(args.out)
det_random()


class Custom(readers.Reader):
    """a reader of the user's own"""

    def __init__(self, meta, kk):
        self.meta, self.kk = meta, kk

    def GetMetadata(self):
        return self.meta

    def GetKey(self, v):
        return self.kk[v]

    def Close(self):
        return

    @classmethod
    def CreateReader(cls, location):
        return None


class SubEnc(readers.EncryptedReader):
    @classmethod
    def CreateReader(cls, location):
        return None


ct = make_key('AES')
SEAL = RefKey('AES', ct)
cd = newdir()
write_set(cd, 'c', 'DECRYPT_AND_ENCRYPT', 'AES', [(1, 'PRIMARY', False, ct)])
CRYPTER = keyczar.Crypter.Read(cd)

# a few keys of each type: (text as stored, reference with all components)
POOL = {}
for t in ('AES', 'HMAC_SHA1', 'DSA_PRIV', 'RSA_PRIV'):
    reset_pool()
    l = []
    for i in range(4):
        txt = make_key(t)
        l.append((txt, RefKey(t, txt)))
    POOL[t] = l
for fam in ('RSA', 'DSA'):
    POOL[fam + '_PUB'] = [(json.dumps(json.loads(x)['publicKey']), r) for x, r in POOL[fam + '_PRIV']]
SEALED = {}


def stored(t, i, enc):
    txt = POOL[t][i][0]
    if not enc:
        return txt
    if (t, i) not in SEALED:
        SEALED[t, i] = b64e(SEAL.seal(txt.encode()))
    return SEALED[t, i]


def build(c):
    """-> a function that constructs the role, and the reference keys"""
    t = c['type'] if c['type'] in POOL else 'AES'
    nums = sorted(rng.sample(range(1, 15), len(c['sts'])))
    if len(c['sts']) == 2 and rng.random() < .3:
        nums.reverse()
    texts = {v: stored(t, i, c['enc']) for i, v in enumerate(nums)}
    refs = [POOL[t][i][1] for i in range(len(nums))]
    meta = {'name': 'x', 'purpose': c['purpose'], 'type': c['type'], 'encrypted': c['enc'],
            'versions': [{'versionNumber': v, 'status': s, 'exportable': False} for v, s in zip(nums, c['sts'])]}
    cls = getattr(keyczar, c['role'])
    rd = c['reader']
    path = None
    if rd in ('file', 'read', 'encfile'):
        path = newdir()
        with open(os.path.join(path, 'meta'), 'w') as f:
            json.dump(meta, f)
        for v, x in texts.items():
            with open(os.path.join(path, str(v)), 'w') as f:
                f.write(x)

    def mock():
        m = readers.MockReader('x', PURPOSE[c['purpose']], keyinfo.GetType(c['type']), c['enc'])
        for v, s in zip(nums, c['sts']):
            m.kmd.AddVersion(keydata.KeyVersion(v, STATUS[s], False))
            m.SetKey(v, texts[v])
        return m

    def go():
        if rd == 'read':
            return cls.Read(path)
        if rd == 'file':
            return cls(readers.CreateReader(path))
        if rd == 'custom':
            return cls(Custom(json.dumps(meta), texts))
        if rd == 'mock':
            return cls(mock())
        if rd == 'static':
            return cls(readers.StaticKeyReader(keys.ReadKey(keyinfo.GetType(t), texts[nums[0]]), PURPOSE[c['purpose']]))
        if rd == 'encfile':
            return cls(readers.EncryptedReader(readers.CreateReader(path), CRYPTER))
        if rd == 'encmock':
            return cls(readers.EncryptedReader(mock(), CRYPTER))
        return cls(SubEnc(Custom(json.dumps(meta), texts), CRYPTER))
    return go, refs, path


_sigs = {}


def able(obj, refs, unv):
    """what the object can do, tried with every operation it might have"""
    res = set()
    msg = b'probe'

    def attempt(fn):
        try:
            return fn()
        except (Exception, SystemExit):
            return None
    for name in ('Encrypt',):
        out = attempt(lambda: obj.Encrypt('probe', None))
        if isinstance(out, str) and any(r.unseal(b(out)) == msg for r in refs if r.type in ('AES', 'RSA_PRIV')):
            res.add('enc')
    for r in refs:
        if r.type in ('AES', 'RSA_PRIV'):
            if ('w', r.kid) not in _sigs:
                _sigs['w', r.kid] = ref_wrap(r, msg)
            w = _sigs['w', r.kid]
            if attempt(lambda: obj.Decrypt(n(w), None)) == 'probe':
                res.add('dec')
        if r.type != 'AES':
            if ('s', r.kid) not in _sigs:
                _sigs['s', r.kid] = {op: ref_frame(op, r, msg, ref_sign(r, signed_msg(op, msg, b'n' if op == 'att' else b'')))
                                     for op in ('sign', 'att', 'unv')}
            s = _sigs['s', r.kid]
            if attempt(lambda: obj.Verify('probe', n(s['unv' if unv else 'sign']), None)):
                res.add('ver')
            if not unv and attempt(lambda: obj.AttachedVerify(n(s['att']), 'n', None)) == 'probe':
                res.add('ver')
    for op in (('unv',) if unv else ('sign', 'att')):
        out = attempt(lambda: produce(obj, op, 'probe', 'n', False))
        if isinstance(out, str) and judge(op, b(out), msg, b'n', [r for r in refs if r.type != 'AES'])[0]:
            res.add('sign')
    return sorted(res)


batch = []
cnt = 0
cfgs = [x['c'] for x in read_input()]
for c in cfgs:
    go, refs, path = build(c)
    r = call(go)
    a = able(r.val, refs, c['role'].startswith('Unv')) if r.ok else []
    batch.append(dict(c=c, able=a, msg=r.msg, **r.fields()))
    cnt += 1
    if path:
        rmdir(path)
    if len(batch) == 100:
        T.ev('batch', list=batch)
        batch = []
if batch:
    T.ev('batch', list=batch)
T.close()
summary(configurations=cnt)
