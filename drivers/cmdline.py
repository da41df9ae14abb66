"""C19: keyczart command lines drawn from the specification, on real directories."""
import runpy
from drv import *

patch_keygen()
det_random()
T = Trace(args.out)
COUNT = dict(lines=0, changed=0, entry={}, genkey=0)
NAMES = {'n1': ' Test set ', 'n2': 'a=b=c', 'n3': '--name=x', 'n4': u'n\u00e4me \u20ac "q" \\ \'', 'n5': '',
         'n6': 'x' * 3000, 'n7': '{"name": ["%s"]}\t$HOME `id` ; *'}
# other values a name may have; each stands for one of those above at times
ALIKE = ['"quoted"', "'quoted'", '`q`', '(x)', '[x]', '<x>', '%41%20b', 'a+b', '\\n', 'a\\tb', 'None', 'null', 'true', '-1', '--', '-', '=', '"', "'", 'x\n', '\ty', '#c', 'a#b',
       'a,b', 'a;b', '@file', '~', '../x', u'\u00e9', u'e\u0301', u'\ufeffb', u'\u200b', u'\U0001f511', 'UPPER', 'crypt', 'a  b', '&amp;', '{0}', '%s', '%', '$x', '${HOME}', '\\']
ODD = ['plain', 'with space', 'eq=ual=s', '--dashes=1', u'\u00fcml\u00e4ut', "quo'te\"s", 'semi;colon&amp', 'pct%s%(x)s', '{brace}', 'tail.', '-', 'location=', 'UPPER', '1', 'meta',
       '$HOME', '${KZV}', '$KZV', '~', '~root', '%41', 'a*b', '[a]', ' lead', 'trail ', 'back\\slash', '#hash', 'q?x', 'new\nline', 'tab\t', 'None', u'e\u0301']
os.environ['KZV'] = 'elsewhere'
TYPOS = {'crypter': ['crypters', 'Crypter', 'crypte', 'crypt', 'encrypter', ' crypter', 'crypter ', '-crypter', 'cripter', 'CRYPTER', ''],
         'location': ['loc', 'Location', 'locations', 'location '], 'size': ['Size', 'bits', 'siz', 'keysize'],
         'status': ['Status', 'state', 'stat'], 'version': ['Version', 'versions', 'ver', 'v'], 'purpose': ['Purpose', 'purp', 'use'],
         'name': ['Name', 'names', 'title'], 'asymmetric': ['asymetric', 'Asymmetric', 'asym'], 'destination': ['dest', 'destiny', 'Destination']}
BOGUS = ['bogus', 'Create', 'addKey', 'add', 'create ', '--create', 'ADDKEY', 'help', '--help', '', 'promote=1', 'revokee', '-revoke']


def digest(path):
    """bytes of everything below a path"""
    h = hashlib.sha1()
    if os.path.isfile(path):
        return hashlib.sha1(open(path, 'rb').read()).hexdigest()
    for root, ds, fs in sorted(os.walk(path)):
        ds.sort()
        h.update(repr((os.path.relpath(root, path), sorted(fs), sorted(ds))).encode())
        for f in sorted(fs):
            h.update(open(os.path.join(root, f), 'rb').read())
    return h.hexdigest()


class World(object):
    def __init__(self):
        reset_pool()
        self.root = newdir('w')
        odd = rng.sample(ODD, 9)
        self.path = {}
        for lab in ('D1', 'D2', 'D3', 'P1', 'P2', 'A', 'B', 'H'):
            p = os.path.join(self.root, odd.pop())
            os.mkdir(p)
            self.path[lab] = p
        # a way to each of them through a symbolic link and back
        self.links = os.path.join(self.root, 'links')
        os.makedirs(os.path.join(self.links, 'sub'))
        os.makedirs(os.path.join(self.root, 'deep', 'er'))
        os.symlink(os.path.join(self.root, 'deep'), os.path.join(self.links, 'up'))
        for p in list(self.path.values()):
            os.mkdir(os.path.join(self.links, os.path.basename(p)))       # what a wrong reading of the path finds
        self.path['X'] = os.path.join(self.root, 'no', odd.pop())
        self.path['F'] = os.path.join(self.root, 'a file')
        self.path['E'] = ''
        open(self.path['F'], 'w').write('{}')
        self.refs = {}
        for c in 'AB':
            write_set(self.path[c], c, 'DECRYPT_AND_ENCRYPT', 'AES',
                      [(1, 'ACTIVE', False, make_key('AES')), (2, 'PRIMARY', False, make_key('AES', 256))])
            self.refs[c] = list(load_ref(self.path[c]).values())
        write_set(self.path['H'], 'H', 'SIGN_AND_VERIFY', 'HMAC_SHA1', [(1, 'PRIMARY', False, make_key('HMAC_SHA1'))])
        os.chdir(self.root)

    def dirs(self):
        return [dict(loc=x, dir=project_dir(self.path[x], self.refs)) for x in ('D1', 'D2', 'D3', 'P1', 'P2')]

    def bytes(self):
        d = {x: digest(p) for x, p in self.path.items() if os.path.exists(p)}
        d['root'] = repr(sorted(os.listdir(self.root)))
        return d

    def spell(self, f, v):
        if f in ('location', 'destination', 'crypter'):
            p = self.path[v]
            r = rng.random()
            if p and r < .25:
                return os.path.relpath(p, self.root)
            if p and r < .35 and v != 'F':
                return p + os.sep
            if p and .45 < r < .55 and v not in 'XF':
                return os.path.join(self.links, 'up', '..', os.path.basename(p))
            if p and r < .45:
                return os.path.join(os.path.dirname(p), '.', os.path.basename(p))
            return p
        if f == 'name':
            return NAMES[v]
        return v

    def write(self, t):
        """one argument"""
        v = self.spell(t['f'], t['val'])
        if t['k'] == 'flag':
            return '--%s=%s' % (t['f'], v)
        if t['k'] == 'noeq':
            return '--' + rng.choice([t['f'], t['f'], t['f'] + ' ' + v.replace('=', ''), t['f'] + ':' + v.replace('=', ''), ''])
        if t['k'] == 'unknown':
            return '--%s=%s' % (rng.choice(TYPOS[t['f']]), v)
        return rng.choice(['-%s=%s' % (t['f'], v), '%s=%s' % (t['f'], v), t['f'], v if v[:2] != '--' else v[1:], '-' + t['f'][0], u'\u2013%s=%s' % (t['f'], v), ' --%s=%s' % (t['f'], v)])

    def close(self):
        os.chdir(WORK)
        rmdir(self.root)


def entry(argv, way):
    """run a command line; -> Res, ok only for exit status 0"""
    def judge(r):
        if r.ok and r.val not in (None, 0):
            return Res(False, None, 'exit', False, str(r.val))
        return r
    if way == 'main':
        return judge(call(keyczart.main, list(argv), _limit=60))
    old = sys.argv
    sys.argv = ['keyczart'] + list(argv)
    try:
        if way == 'setuptools':
            return judge(call(keyczart._main_setuptools, _limit=60))

        def script():
            try:
                runpy.run_module('keyczar.keyczart', run_name='__main__')
                return 0
            except SystemExit as e:
                return e.code
        return judge(call(script, _limit=60))
    finally:
        sys.argv = old


def tokens(toks):
    return [dict(t, val=NAMES[t['val']] if t['f'] == 'name' and t['val'] in NAMES else t['val']) for t in toks]


def line(w, c):
    for n in ('n1', 'n4', 'n7'):
        if rng.random() < .6:
            NAMES[n] = rng.choice(ALIKE)
    cmd = c['cmd']
    word = cmd if cmd != 'bogus' else rng.choice(BOGUS)
    argv = [word] + [w.write(t) for t in c['toks']]
    if word.startswith('--') and cmd == 'bogus' and rng.random() < .5:
        argv = argv[1:] + argv[:1]
        if argv[0] in keyczart.commands:
            argv = argv[::-1]
    before = w.bytes()
    way = rng.choice(['main', 'main', 'main', 'setuptools', 'script'])
    r = entry(argv, way)
    after = w.bytes()
    ch = sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
    T.ev('line', cmd=cmd, toks=tokens(c['toks']), dirs=w.dirs(), changed=ch, argv=argv, way=way, msg=r.msg, **r.fields())
    COUNT['lines'] += 1
    COUNT['changed'] += bool(ch)
    COUNT['entry'][way] = COUNT['entry'].get(way, 0) + 1


GEN = {'aes': 'aes', 'aescrypted': 'aes-crypted', 'hmac': 'hmac', 'rsa': 'rsa', 'rsasign': 'rsa-sign', 'dsa': 'dsa',
       'rsasignpublic': 'rsa-sign.public', 'dsapublic': 'dsa.public'}


def outs_ok(root):
    msg = b'This is some test data'
    try:
        aes = load_ref(os.path.join(root, 'aes'))
        for lab in ('aes', 'aescrypted', 'hmac', 'rsa', 'rsasign', 'dsa'):
            d = os.path.join(root, GEN[lab])
            if lab == 'aescrypted':
                refs = {}
                for v in (1, 2):
                    raw = b64d(open(os.path.join(d, str(v))).read())
                    refs[v] = RefKey('AES', [k.unseal(raw) for k in aes.values() if k.unseal(raw)][0].decode())
            else:
                refs = load_ref(d)
            for v in (1, 2):
                raw = b64d(open(os.path.join(d, '%d.out' % v)).read())
                k = refs[v]
                if raw[:5] != b'\0' + bytes.fromhex(k.kid):
                    return False
                if lab in ('aes', 'aescrypted', 'rsa'):
                    if k.unseal(raw) != msg:
                        return False
                elif lab == 'hmac':
                    if R.hmac_sha1(k.hmac, msg + b'\0') != raw[5:]:
                        return False
        return True
    except Exception:
        return False


def genkey(toks, stale):
    reset_pool()
    root = newdir('g=')
    for x in GEN.values():
        os.mkdir(os.path.join(root, x))
        if stale:
            open(os.path.join(root, x, rng.choice(['meta', '7', 'old.out'])), 'w').write('{}')
    other = os.path.join(root, 'other')
    os.mkdir(other)
    open(os.path.join(other, 'keep'), 'w').write('x')

    def snap():
        d = {lab: digest(os.path.join(root, x)) for lab, x in GEN.items()}
        d['root'] = repr(sorted(os.listdir(root))) + digest(other)
        return d
    spell = dict(G=root, X=os.path.join(root, 'no'))
    argv = ['genkey']
    for t in toks:
        v = spell.get(t['val'], t['val'])
        argv.append({'flag': '--%s=%s', 'noeq': '--%s%.0s', 'unknown': '--%sx=%s', 'bare': '-%s=%s'}[t['k']] % (t['f'], v))
    before = snap()
    r = entry(argv, rng.choice(['main', 'setuptools']))
    after = snap()
    ch = sorted(x for x in before if before[x] != after[x])
    crypt = {}
    try:
        crypt['G'] = list(load_ref(os.path.join(root, 'aes')).values())
    except Exception:
        pass
    dirs = [dict(loc=lab, dir=project_dir(os.path.join(root, x), crypt)) for lab, x in GEN.items()]
    T.ev('gen', toks=toks, changed=ch, dirs=dirs, outs=outs_ok(root), argv=argv, msg=r.msg, **r.fields())
    COUNT['genkey'] += 1
    rmdir(root)


def tk(k, f, val):
    return dict(k=k, f=f, val=val)


for x in read_input():
    w = World()
    T.ev('reset', dirs=w.dirs())
    for c in x['hist']:
        line(w, c)
    before = w.bytes()
    r = entry([], rng.choice(['main', 'setuptools', 'script']))
    T.ev('line', cmd='', toks=[], dirs=w.dirs(), changed=[k for k, v in w.bytes().items() if before[k] != v], argv=[], way='', msg=r.msg, **r.fields())
    w.close()
G = tk('flag', 'location', 'G')
for stale in (False, True):
    genkey([G], stale)
    genkey([tk('flag', 'size', '256'), G, tk('flag', 'name', 'other')], stale)
    genkey([G, tk('unknown', 'crypter', 'A')], stale)
    genkey([tk('bare', 'crypter', 'A'), G], stale)
    genkey([G, tk('noeq', 'name', '')], stale)
    genkey([G, tk('flag', 'version', 'abc')], stale)
    genkey([tk('flag', 'size', 'x'), G], stale)
    genkey([tk('flag', 'location', 'X')], stale)
T.close()
summary(**COUNT)
