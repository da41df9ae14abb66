"""A real key directory under management commands (shared by several drivers)."""
from drv import *

KINDS = {'aes': ('AES', 'DECRYPT_AND_ENCRYPT', ''), 'hmac': ('HMAC_SHA1', 'SIGN_AND_VERIFY', ''),
         'rsa': ('RSA_PRIV', 'DECRYPT_AND_ENCRYPT', 'rsa'),
         'rsasign': ('RSA_PRIV', 'SIGN_AND_VERIFY', 'rsa'),
         'dsa': ('DSA_PRIV', 'SIGN_AND_VERIFY', 'dsa')}

_A = {}


def crypter_dir():
    if 'dir' not in _A:
        d = newdir('A')
        write_set(d, 'A', 'DECRYPT_AND_ENCRYPT', 'AES',
                  [(1, 'ACTIVE', False, make_key('AES')), (2, 'PRIMARY', False, make_key('AES', 256))])
        _A['dir'] = d
        _A['ref'] = list(load_ref(d).values())
        _A['obj'] = keyczar.Crypter.Read(d)
    return _A['dir']


class Env(object):
    def __init__(self, kind, via=''):
        self.kind, self.via = kind, via
        self.type, self.purpose, self.asym = KINDS[kind]
        self.path = newdir()
        crypter_dir()
        self.crypters = {'A': _A['ref']}
        write_set(self.path, 'set', self.purpose, self.type, [], enc=bool(via))

    def pubable(self):
        return self.kind in ('rsa', 'rsasign', 'dsa')

    def crypter(self):
        return _A['obj'] if self.via else None

    def reader(self):
        r = readers.CreateReader(self.path)
        return readers.EncryptedReader(r, self.crypter()) if self.via else r

    def project(self):
        return project_dir(self.path, self.crypters)

    def refs(self):
        """reference keys currently stored"""
        res = []
        try:
            meta = json.load(open(os.path.join(self.path, 'meta')))
            for v in meta['versions']:
                t = open(os.path.join(self.path, str(v['versionNumber']))).read()
                if self.via:
                    for k in self.crypters['A']:
                        p = k.unseal(b64d(t))
                        if p is not None:
                            t = p.decode()
                            break
                res.append(RefKey(self.type, t))
        except Exception:
            pass
        return res

    def adapt(self, c):
        c = dict(c, via=self.via)
        if c['op'] == 'addkey':
            if self.kind.startswith('rsa'):
                c['size'] = rng.choice([1024] * 8 + [2048, 2048, 0, 4096])
            elif self.kind == 'aes':
                c['size'] = rng.choice([0, 128, 192, 256])
        return c

    def run(self, c):
        op = c['op']
        if op == 'addkey':
            return call(keyczart.AddKey, self.path, STATUS[c['status']], self.crypter(), c['size'] or None,
                        _limit=60)
        if not self.via:
            fn = {'promote': keyczart.Promote, 'demote': keyczart.Demote, 'revoke': keyczart.Revoke}[op]
            return call(fn, self.path, c['v'])

        def api():
            czar = keyczar.GenericKeyczar(self.reader())
            getattr(czar, op.capitalize())(c['v'])
            w = writers.CreateWriter(self.path)
            czar.Write(w, self.crypter())
            if op == 'revoke':
                w.Remove(c['v'])
            w.Close()
        return call(api)

    def close(self):
        rmdir(self.path)
