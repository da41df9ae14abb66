"""C21: management histories and roles on plug-in storage backends."""
from use import *
import types

_rb = lambda k: bytes(rng.randrange(256) for _ in range(k))

T = Trace(args.out)
patch_keygen()
det_random()
KINDS = {'aes': ('AES', 'DECRYPT_AND_ENCRYPT', ''), 'hmac': ('HMAC_SHA1', 'SIGN_AND_VERIFY', ''),
         'rsa': ('RSA_PRIV', 'DECRYPT_AND_ENCRYPT', 'rsa'), 'rsasign': ('RSA_PRIV', 'SIGN_AND_VERIFY', 'rsa'),
         'dsa': ('DSA_PRIV', 'SIGN_AND_VERIFY', 'dsa')}


# ------------------------------------------------- the plug-ins' storage
class Fault(Exception):
    pass


state = types.ModuleType('kzplug_state')
state.stores = {}       # (plug-in, location) -> {file name: text}
state.calls = []
state.count = [0]
state.fail_at = [0]     # number of the mutating call that fails
state.fail_with = [Fault]
state.read_fail_at = [0]  # number of the reading call at read_loc that fails
state.read_loc = ['']


def accept(who, loc):
    if not isinstance(loc, str):
        return False
    if loc.startswith('broken:'):
        if who == 'p1':
            raise state.fail_with[0]('storage cannot be opened')
        return True
    return loc.startswith(who + ':') or loc.startswith('both:') or (loc in state.greedy)


def log(h, t, op, v=0, loc=''):
    state.calls.append(dict(h=h, t=t, op=op, v=v, loc=loc))


def fetch(h, op, v, loc):
    log(h, 'r', op, v, loc)
    if state.read_fail_at[0] and loc == state.read_loc[0]:
        state.read_fail_at[0] -= 1
        if state.read_fail_at[0] == 0:
            raise state.fail_with[0]('storage failed')


def mutate(h, op, v, loc, fn):
    if state.fail_at[0]:
        state.fail_at[0] -= 1
        if state.fail_at[0] == 0:
            log(h, 'w', op, v, loc)
            raise state.fail_with[0]('storage failed')
    log(h, 'w', op, v, loc)
    fn()


state.greedy = set()
state.accept, state.log, state.mutate, state.fetch = accept, log, mutate, fetch
sys.modules['kzplug_state'] = state
PLUGIN = '''
from keyczar import readers, writers, errors
import kzplug_state as S
WHO = %r

class R(readers.Reader):
  def __init__(self, loc):
    S.count[0] += 1
    self.h, self.loc, self.open = S.count[0], loc, True
    S.log(self.h, 'r', 'open', 0, loc)
  def _get(self, name):
    try:
      return S.stores.setdefault((WHO, self.loc), {})[name]
    except KeyError:
      raise errors.KeyczarError('not stored: %%s' %% name)
  def GetMetadata(self):
    S.fetch(self.h, 'getmeta', 0, self.loc)
    return self._get('meta')
  def GetKey(self, version_number):
    S.fetch(self.h, 'getkey', version_number, self.loc)
    return self._get(str(version_number))
  def Close(self):
    S.log(self.h, 'r', 'close', 0, self.loc)
  @classmethod
  def CreateReader(cls, location):
    if S.accept(WHO, location):
      return cls(location)

class W(writers.Writer):
  def __init__(self, loc):
    S.count[0] += 1
    self.h, self.loc = S.count[0], loc
    S.log(self.h, 'w', 'open', 0, loc)
  def _s(self):
    return S.stores.setdefault((WHO, self.loc), {})
  def WriteMetadata(self, metadata, overwrite=True):
    if not overwrite and 'meta' in self._s():
      raise errors.KeyczarError('exists')
    t = str(metadata)
    S.mutate(self.h, 'putmeta', 0, self.loc, lambda: self._s().__setitem__('meta', t))
  def WriteKey(self, key, version_number, encrypter=None):
    t = str(key)
    if encrypter:
      t = encrypter.Encrypt(t)
    S.mutate(self.h, 'putkey', version_number, self.loc, lambda: self._s().__setitem__(str(version_number), t))
  def Remove(self, version_number):
    S.mutate(self.h, 'remove', version_number, self.loc, lambda: self._s().pop(str(version_number)))
  def Close(self):
    S.log(self.h, 'w', 'close', 0, self.loc)
  @classmethod
  def CreateWriter(cls, location):
    if S.accept(WHO, location):
      return cls(location)
'''


def plugin(who):
    p = newdir('plugin_' + who)
    open(os.path.join(p, 'kz_backend_%s.py' % who), 'w').write(PLUGIN % who)
    open(os.path.join(p, 'README'), 'w').write('this is not Python')
    open(os.path.join(p, 'notes.pyx'), 'w').write('nor is this')
    return p


PATHS = [plugin('p1'), os.path.join(WORK, 'not', 'there'), plugin('p2'), plugin('p3')]
os.environ['KEYCZAR_BACKEND_PATHS'] = os.pathsep.join(PATHS[:2])

ADIR = newdir('A')
write_set(ADIR, 'A', 'DECRYPT_AND_ENCRYPT', 'AES', [(1, 'ACTIVE', False, make_key('AES')), (2, 'PRIMARY', False, make_key('AES', 256))])
CRY = {'A': list(load_ref(ADIR).values())}
state.stores[('p1', 'p1:crypter')] = {f: open(os.path.join(ADIR, f)).read() for f in os.listdir(ADIR)}


def crypter(via):
    return keyczar.Crypter.Read(rng.choice([ADIR, 'p1:crypter'])) if via else None


# --------------------------------------------------------------- locations
_no = [0]


def place(cls):
    """-> (class of location, location, backend that serves it, where its files are)"""
    _no[0] += 1
    i = _no[0]
    if cls in ('dir', 'alldir'):
        d = newdir('loc')
        if cls == 'alldir':
            state.greedy.add(d)
        return cls, d, 'file'
    name = rng.choice(['x%d', 'set %d', '//host/%d?a=b&c', u'n\u00e4me%d', 'a/%d/', './%d/.', 'a/../%d', ' %d ', 'UP%dCase', '~/%d', '$HOME/%d', '%%41/%d', '%d//', 'x%d\n']) % i
    return cls, {'p1': 'p1:', 'p2': 'p2:', 'p3': 'p3:', 'both': 'both:', 'none': 'none:', 'broken': 'broken:'}[cls] + name, \
        {'p1': 'p1', 'p2': 'p2', 'p3': 'p3', 'both': 'p1', 'none': '', 'broken': ''}[cls]


def project(pl):
    cls, loc, who = pl
    if who == 'file':
        return project_dir(loc, CRY)
    d = newdir('proj')
    for f, t in state.stores.get((who, loc), {}).items():
        open(os.path.join(d, f), 'w').write(t)
    r = project_dir(d, CRY)
    rmdir(d)
    return r


def everything():
    """digest of all stores, to see that nothing else changes"""
    res = {}
    for k, v in state.stores.items():
        if v:
            res[k] = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()
    for d in DIRS:
        for f in sorted(os.listdir(d)):
            res[(d, f)] = hashlib.sha1(open(os.path.join(d, f), 'rb').read()).hexdigest()
    return res


DIRS = [ADIR]


def run_cmd(c, loc):
    op, via = c['op'], c['via']
    if op == 'create':
        return call(keyczart.Create, loc, c['name'], PURPOSE.get(c['purpose']), c['asym'] or None)
    if op == 'addkey':
        return call(keyczart.AddKey, loc, STATUS[c['status']], crypter(via), c['size'] or None, _limit=60)
    if not via:
        fn = {'promote': keyczart.Promote, 'demote': keyczart.Demote, 'revoke': keyczart.Revoke}[op]
        return call(fn, loc, c['v'])

    def api():
        cr = crypter(via)
        czar = keyczart.CreateGenericKeyczar(loc, cr)
        getattr(czar, op.capitalize())(c['v'])
        if rng.random() < .5:
            keyczart.UpdateGenericKeyczar(czar, loc, cr)
        else:
            czar.Write(loc, cr)
        if op == 'revoke':
            w = writers.CreateWriter(loc)
            try:
                w.Remove(c['v'])
            finally:
                w.Close()
    return call(api)


def adapt(c, kind):
    t, purpose, asym = KINDS[kind]
    c = dict(c)
    if c['op'] == 'create' and c['purpose'] == 'DECRYPT_AND_ENCRYPT':
        c['purpose'], c['asym'] = purpose, asym
    if c['op'] == 'addkey' and kind.startswith('rsa') and c['size'] in (0, 256):
        c['size'] = 1024
    return c


def history(h, kind, cls):
    reset_pool()
    pl = place(cls)
    loc = pl[1]
    if pl[2] == 'file':
        DIRS.append(loc)
    T.ev('reset', dir=project(pl), kind=kind, loc=loc, cls=cls)
    for c in h:
        c = adapt(c, kind)
        before = everything()
        fault = rng.choice([1, 2, 3, 4]) if rng.random() < .2 and pl[2] not in ('file', '') else 0
        state.fail_with[0] = rng.choice([Fault, IOError, errors.KeyczarError, OSError, ValueError, KeyError])
        rfault = 0
        if not fault and c['op'] != 'create' and pl[2] not in ('file', '') and rng.random() < .25:
            rfault = rng.choice([1, 1, 2, 3])
        del state.calls[:]
        state.fail_at[0], state.read_fail_at[0], state.read_loc[0] = fault, rfault, loc
        r = run_cmd(c, loc)
        hit = bool(fault) and state.fail_at[0] == 0 or bool(rfault) and state.read_fail_at[0] == 0
        state.fail_at[0] = state.read_fail_at[0] = 0
        calls = [dict(h=x['h'], t=x['t'], op=x['op'], v=x['v']) for x in state.calls if x['loc'] == loc]
        after = everything()
        mine = lambda k: k[1] == loc or k[0] == loc
        ok = {k: v for k, v in before.items() if not mine(k)} == {k: v for k, v in after.items() if not mine(k)}
        if pl[2] not in ('file', '') and (any(k[1] == loc and k[0] != pl[2] for k in after) or os.path.exists(loc)):
            ok = False
        T.ev('cmd', c=c, dir=project(pl), pool=kind not in ('aes', 'hmac'), msg=r.msg, cls=cls, calls=calls, hit=hit,
             otherok=ok, **r.fields())
    uses(pl, kind)
    if pl[2] == 'file':
        DIRS.remove(loc)
        rmdir(loc)


def uses(pl, kind):
    """the roles work on the location as they do on a directory"""
    cls, loc, who = pl
    t, purpose, asym = KINDS[kind]
    d = project(pl)
    lst = []
    copy = newdir('copy')
    files = {f: open(os.path.join(loc, f)).read() for f in os.listdir(loc)} if who == 'file' else state.stores.get((who, loc), {})
    for f, x in files.items():
        open(os.path.join(copy, f), 'w').write(x)
    roles = ['Encrypter', 'Crypter', 'Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier', 'GenericKeyczar']
    for name in roles:
        cl = getattr(keyczar, name)
        for how in ('read', 'plain', 'enc'):
            if how == 'read':
                a, e = call(cl.Read, loc), call(cl.Read, copy)
            elif how == 'plain':
                a, e = [call(lambda: cl(readers.CreateReader(x))) for x in (loc, copy)]
            else:
                a, e = [call(lambda: cl(readers.EncryptedReader(readers.CreateReader(x), crypter('A')))) for x in (loc, copy)]
            if who == '':
                lst.append(dict(what='%s (%s) of a location nobody serves' % (name, how), want='KeyczarError',
                                got='KeyczarError' if a.err and cls == 'broken' else a.err))
                continue
            lst.append(dict(what='%s (%s) is loaded or refused otherwise than from a directory' % (name, how), want=e.err or 'ok',
                            got=a.err or 'ok'))
            if not (a.ok and e.ok):
                continue
            data, nonce = n(_rb(20)), n(_rb(8))
            ops = {'Encrypter': ['enc', 'encs'], 'Crypter': ['enc', 'encs'], 'Signer': ['sign', 'att'], 'UnversionedSigner': ['unv']}.get(name, [])
            for op in ops:
                if t == 'RSA_PRIV' and op == 'encs':
                    continue
                opener = e.val
                if name == 'Encrypter':
                    opener = keyczar.Crypter(readers.EncryptedReader(readers.CreateReader(copy), crypter('A')) if how == 'enc' else readers.CreateReader(copy))
                x, y = call(produce, a.val, op, data, nonce, True), call(produce, e.val, op, data, nonce, True)
                lst.append(dict(what='%s of the backend\'s set succeeds or fails otherwise than from a directory' % op, want=y.err or 'ok',
                                got=x.err or 'ok'))
                if x.ok and y.ok:
                    want = tok(data) if op in ('enc', 'encs', 'att') else 'TRUE'
                    z = call(openit, opener, op, x.val, data, nonce, True)
                    lst.append(dict(what='%s of the backend\'s set is not opened by the directory\'s' % op, want=want, got=z.val if z.ok else z.err))
                    if name != 'Encrypter':
                        z = call(openit, a.val, op, y.val, data, nonce, True)
                        lst.append(dict(what='%s of the directory\'s set is not opened by the backend\'s' % op, want=want, got=z.val if z.ok else z.err))
    if who and d['meta'] and not d['enc']:
        dst, dst2 = newdir('pub'), newdir('pub')
        a, e = call(keyczart.PubKey, loc, dst), call(keyczart.PubKey, copy, dst2)
        lst.append(dict(what='export', want=e.err or 'ok', got=a.err or 'ok'))
        cat = lambda p: tok(json.dumps({f: json.loads(open(os.path.join(p, f)).read()) for f in sorted(os.listdir(p))}, sort_keys=True))
        lst.append(dict(what='exported public keys', want=cat(dst2), got=cat(dst)))
        rmdir(dst)
        rmdir(dst2)
    rmdir(copy)
    T.ev('uses', list=lst)


def choice(classes=('dir', 'p1', 'p2', 'p3', 'both', 'alldir', 'none', 'broken'), readfirst=True):
    """which backend is asked"""
    names = {'FileReader': 'file', 'FileWriter': 'file'}
    for cls in classes:
        for _ in range(3):
            pl = place(cls)
            for what, fn in [('reader', readers.CreateReader), ('writer', writers.CreateWriter)][::1 if readfirst else -1]:
                state.fail_with[0] = rng.choice([errors.KeyczarError, IOError, Fault])
                r = call(fn, pl[1])
                who = ''
                if r.ok:
                    m = type(r.val).__module__
                    who = m[-2:] if m[-3:-1] == '_p' else names.get(type(r.val).__name__, '?')
                T.ev('choice', cls=cls, what=what, who=who, msg=r.msg, **r.fields())
            if cls in ('dir', 'alldir'):
                rmdir(pl[1])


hists = [x['hist'] for x in read_input() if 'hist' in x]
# backends that are made available later: the first request is one to read, or one to write
choice(('dir', 'p1', 'none', 'both'))
os.environ['KEYCZAR_BACKEND_PATHS'] = os.pathsep.join(PATHS[:3])
choice(('p2', 'p1', 'dir', 'both'))
os.environ['KEYCZAR_BACKEND_PATHS'] = os.pathsep.join(PATHS)
choice(('p3',), False)
choice()
kinds = ['aes', 'hmac', 'aes', 'rsasign', 'hmac', 'dsa', 'aes', 'rsa']
classes = ['p1', 'both', 'p2', 'p3', 'alldir', 'none', 'dir', 'p1', 'broken']
for i, h in enumerate(hists):
    history(h, kinds[i % len(kinds)], classes[i % len(classes)])
choice()
T.close()
summary(histories=len(hists))
