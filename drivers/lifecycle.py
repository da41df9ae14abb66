"""Replays model transitions and histories of KeySetMC on the real code."""
from drv import *

patch_keygen()
det_random()
T = Trace(args.out)
NAMES = ['Test', '', 'a "quoted" \\ name', u'n\u00e4me \u20ac', 'x' * 200, 'long ' * 700, "it's {json}: [1]",
         ' both ends ', 'tail\n', '\tline one\r\nline two', '0', 'null', 'None', u'\U0001f511 \u202e', '\x00\x1f\x7f', 'a/b/../c', '%s%(x)s', u'e\u0301', '   ']
KINDS = {'aes': ('AES', 'DECRYPT_AND_ENCRYPT', ''), 'hmac': ('HMAC_SHA1', 'SIGN_AND_VERIFY', ''),
         'rsa': ('RSA_PRIV', 'DECRYPT_AND_ENCRYPT', 'rsa'),
         'rsasign': ('RSA_PRIV', 'SIGN_AND_VERIFY', 'rsa'),
         'dsa': ('DSA_PRIV', 'SIGN_AND_VERIFY', 'dsa')}

# the crypter "A" (two versions) and its reference keys
ADIR = newdir('A')
write_set(ADIR, 'A', 'DECRYPT_AND_ENCRYPT', 'AES',
          [(1, 'ACTIVE', False, make_key('AES')), (2, 'PRIMARY', False, make_key('AES', 256))])
AREF = load_ref(ADIR)
CRY = {'A': list(AREF.values())}
_A = {}


def crypter(via):
    if not via:
        return None
    if via not in _A:
        _A[via] = keyczar.Crypter.Read(ADIR)
    return _A[via]


def proj(path):
    return project_dir(path, CRY)


def pooled(kind):
    return kind not in ('aes', 'hmac')


flip = [0]
ZERO = 999999001        # in the model 0 stands for the default size; this is a literal zero


def real_size(z):
    return 0 if z == ZERO else z


def run_cmd(c, path, kind):
    """Execute one model command on the real directory."""
    flip[0] += 1
    op, via = c['op'], c['via']
    if op == 'create':
        p = PURPOSE.get(c['purpose'])
        return call(keyczart.Create, path, c['name'], p, c['asym'] or None)
    if op == 'addkey':
        size = real_size(c['size']) or (None if flip[0] % 2 else -1)
        if c['size'] == ZERO:
            size = 0
        return call(keyczart.AddKey, path, STATUS[c['status']], crypter(via), size, _limit=60)
    if not via:
        fn = {'promote': keyczart.Promote, 'demote': keyczart.Demote, 'revoke': keyczart.Revoke}[op]
        return call(fn, path, c['v'])

    def api():
        rd = readers.EncryptedReader(readers.CreateReader(path), crypter(via))
        czar = keyczar.GenericKeyczar(rd)
        getattr(czar, op.capitalize())(c['v'])
        w = writers.CreateWriter(path)
        czar.Write(w, crypter(via))
        if op == 'revoke':
            w.Remove(c['v'])
        w.Close()
    return call(api)


def adapt(c, kind, shift=0, keep=False):
    """Instantiate a model command for a key kind."""
    t, purpose, asym = KINDS[kind]
    c = dict(c)
    if c['op'] == 'create':
        if c['purpose'] == 'DECRYPT_AND_ENCRYPT':
            c['purpose'], c['asym'] = purpose, asym
        c['name'] = rng.choice(NAMES)
    if c['op'] == 'addkey' and kind.startswith('rsa') and c['size'] in (0, 256):
        # keep the generator fast, still exercising the 2048-bit default
        if c['size'] == 256 or rng.random() < 0.8:
            c['size'] = 1024
    if c['op'] in ('promote', 'demote', 'revoke') and c['v'] > 0:
        c['v'] += shift
    return c


def materialise(pre, kind, shift):
    path = newdir()
    if pre['meta']:
        t, purpose, _ = KINDS[kind]
        vers = []
        vl = list(pre['vers'])
        rng.shuffle(vl)
        for v in vl:
            size = rng.choice([128, 192, 256]) if t == 'AES' else None
            vers.append((v['n'] + shift, v['st'], rng.random() < 0.3, make_key(t, size),
                         AREF[2] if v['seal'] else None))
        write_set(path, rng.choice(NAMES), purpose, t, vers, pre['enc'])
    return path


def do_edge(e, kind, shift):
    path = materialise(e['pre'], kind, shift)
    T.ev('reset', dir=proj(path), kind=kind)
    c = adapt(e['c'], kind, shift)
    r = run_cmd(c, path, kind)
    T.ev('cmd', c=c, dir=proj(path), pool=pooled(kind), msg=r.msg, **r.fields())
    rmdir(path)


def do_history(h, kind):
    reset_pool()
    path = newdir()
    T.ev('reset', dir=proj(path), kind=kind)
    for c in h:
        c = adapt(c, kind)
        r = run_cmd(c, path, kind)
        T.ev('cmd', c=c, dir=proj(path), pool=pooled(kind), msg=r.msg, **r.fields())
    rmdir(path)


def do_memory(h, kind, via):
    """The same history on one key set object, written at the end and reloaded."""
    reset_pool()
    t, purpose, asym = KINDS[kind]
    path = newdir()
    write_set(path, rng.choice(NAMES), purpose, t, [], enc=bool(via))

    def read():
        rd = readers.CreateReader(path)
        if via:
            rd = readers.EncryptedReader(rd, crypter(via))
        return keyczar.GenericKeyczar(rd)
    r = call(read)
    if not r.ok:
        raise SystemExit('cannot read an empty key set: %s %s' % (r.err, r.msg))
    czar = r.val
    T.ev('reset', dir=project_obj(czar, via), kind=kind)
    for c in h:
        if c['op'] == 'create':
            continue
        c = adapt(c, kind)
        c['via'] = via
        if c['op'] == 'addkey':
            r = call(czar.AddVersion, STATUS[c['status']], None if c['size'] == 0 else real_size(c['size']), _limit=60)
        else:
            r = call(getattr(czar, c['op'].capitalize()), c['v'])
        T.ev('cmd', c=c, dir=project_obj(czar, via), pool=pooled(kind), msg=r.msg, **r.fields())
        if rng.random() < 0.2:
            # write, check the stored form, and continue with a reloaded object
            w = writers.CreateWriter(path)
            rw = call(czar.Write, w, crypter(via))
            for f in os.listdir(path):       # files of revoked versions are the tool's business
                if f.isdigit() and int(f) not in [v.version_number for v in czar.versions]:
                    os.remove(os.path.join(path, f))
            T.ev('cmd', c=dict(op='write', via=via), dir=proj(path), pool=pooled(kind), msg=rw.msg,
                 **rw.fields())
            r = call(read)
            T.ev('cmd', c=dict(op='read', via=via), dir=project_obj(r.val, via) if r.ok else proj(path),
                 pool=pooled(kind), msg=r.msg, **r.fields())
            if not r.ok:
                break
            czar = r.val
    rmdir(path)


def do_rng_repeat(kind):
    """The random source repeats earlier output while keys are generated."""
    t, purpose, asym = KINDS[kind]
    real = os.urandom
    log, replay = [], []

    def fake(k):
        if replay:
            x = replay.pop(0)
            if len(x) == k:
                return x
        x = real(k)
        log.append(x)
        return x
    for repeats in [1, 2, 3, 4] * 3:
        path = newdir()
        write_set(path, 'r', purpose, t, [])
        T.ev('reset', dir=proj(path), kind=kind)
        del log[:]
        os.urandom = fake
        try:
            for i in range(4):
                del replay[:]
                if i:
                    replay.extend(log[:] * repeats)
                c = dict(op='addkey', via='', v=0, status=rng.choice(['PRIMARY', 'ACTIVE']), size=0)
                r = run_cmd(c, path, kind)
                T.ev('cmd', c=c, dir=proj(path), pool=False, msg=r.msg, **r.fields())
                for _ in range(rng.randrange(3)):
                    c = dict(op=rng.choice(['demote', 'demote', 'promote']), via='', v=rng.randrange(1, i + 2), status='', size=0)
                    r = run_cmd(c, path, kind)
                    T.ev('cmd', c=c, dir=proj(path), pool=False, msg=r.msg, **r.fields())
        finally:
            os.urandom = real
        rmdir(path)


def do_odd(kind):
    """sizes and version numbers nobody should use"""
    t, purpose, asym = KINDS[kind]
    sizes = [ZERO, 1, 8, 64, 127, 129, 160, 191, 193, 224, 255, 257, 320, 511, 1023, 1025, -128, -2, -256, 1 << 20, 16, 32, 0]
    if not t.startswith('RSA'):
        sizes += [512, 768, 1024, 1536, 2048, 3072, 4096]
    if t != 'AES':
        sizes += [128, 192]
    if t not in ('AES', 'HMAC_SHA1'):
        sizes += [256, 1536, 3072, 8192]
    if t == 'DSA_PRIV':
        sizes += [2048]
    for mem in (False, True):
        path = newdir()
        vers = [(3, 'PRIMARY', False, make_key(t)), (5, 'INACTIVE', True, make_key(t))]
        write_set(path, 'odd', purpose, t, vers)
        czar = keyczar.GenericKeyczar(readers.CreateReader(path)) if mem else None
        P = (lambda: project_obj(czar, '')) if mem else (lambda: proj(path))
        T.ev('reset', dir=P(), kind=kind)
        cs = [dict(op='addkey', via='', v=0, status=rng.choice(list(STATUS)), size=z) for z in rng.sample(sizes, len(sizes))]
        cs += [dict(op=o, via='', v=v, status='', size=0) for o in ('promote', 'demote', 'revoke')
               for v in (-1, 0, 1, 2, 4, 6, 1 << 31, 1 << 64, -3, -5, 33, 30)]
        rng.shuffle(cs)
        for c in cs:
            if mem:
                if c['op'] == 'addkey':
                    z = None if c['size'] == 0 else real_size(c['size'])
                    r = call(czar.AddVersion, STATUS[c['status']], z, _limit=60)
                else:
                    r = call(getattr(czar, c['op'].capitalize()), c['v'])
            else:
                r = run_cmd(c, path, kind)
            if abs(c['v']) > 1 << 30:
                c = dict(c, v=-9)
            T.ev('cmd', c=c, dir=P(), pool=pooled(kind), msg=r.msg, **r.fields())
        rmdir(path)


def do_many(kind, count, first, step=1):
    """sets with many versions, or with large or scattered numbers"""
    t, purpose, asym = KINDS[kind]
    path = newdir()
    nums = [first + step * i for i in range(count)]
    prim = rng.choice(nums + [0])
    vers = [(v, 'PRIMARY' if v == prim else rng.choice(['ACTIVE', 'INACTIVE']), rng.random() < .3, make_key(t)) for v in nums]
    rng.shuffle(vers)
    write_set(path, 'many', purpose, t, vers)
    T.ev('reset', dir=proj(path), kind=kind)
    for i in range(14):
        d = proj(path)
        cur = [r['n'] for r in d['vers']]
        op = ['promote', 'demote', 'revoke', 'addkey'][i % 4]
        v = rng.choice(cur + [max(cur)])
        if op == 'revoke':
            v = rng.choice([r['n'] for r in d['vers'] if r['st'] == 'INACTIVE'] or cur)
        c = dict(op=op, via='', v=0 if op == 'addkey' else v, status=rng.choice(list(STATUS)) if op == 'addkey' else '', size=0)
        r = run_cmd(c, path, kind)
        T.ev('cmd', c=c, dir=proj(path), pool=pooled(kind), msg=r.msg, **r.fields())
    rmdir(path)


inp = read_input()
edges = [x['edge'] for x in inp if 'edge' in x]
hists = [x['hist'] for x in inp if 'hist' in x]
ne = 0
for e in edges:
    do_edge(e, 'aes', 0)
    ne += 1
# the same transitions on other key types and version numbers, sampled in the quick tier
share = 1.0 if THOROUGH else 0.08
for kind, shift in (('hmac', 8), ('aes', 97), ('rsa', 0), ('rsasign', 8), ('dsa', 0)):
    for e in edges:
        if kind in ('rsa', 'rsasign') and any(v['seal'] for v in e['pre']['vers']) and rng.random() < 0.5:
            continue
        if rng.random() < share * (0.25 if kind in ('rsa', 'rsasign', 'dsa') and not THOROUGH else 1):
            do_edge(e, kind, shift)
            ne += 1
nh = 0
order = ['aes', 'hmac', 'rsasign', 'dsa', 'rsa']
for i, h in enumerate(hists):
    kind = order[i % len(order)] if i % 3 == 0 else ('aes', 'hmac')[i % 2]
    do_history(h, kind)
    nh += 1
for i, h in enumerate(hists):
    kind = order[i % len(order)] if i % 4 == 0 else ('aes', 'hmac')[i % 2]
    do_memory(h, kind, '' if i % 3 else 'A')
    nh += 1
for k in ('aes', 'hmac'):
    do_rng_repeat(k)
for k in KINDS:
    do_odd(k)
for k in ('aes', 'hmac'):
    for count, first, step in ((11, 1, 1), (40, 1, 1), (120, 5, 1), (270, 1, 1), (4, 253, 1), (4, 998, 1), (4, 65533, 1), (5, 9, 89),
                               (3, 2147483640, 1), (3, 7, 100000)):
        do_many(k, count, first, step)
T.close()
summary(edges_replayed=ne, histories_replayed=nh)
