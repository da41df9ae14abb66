"""Environment for running the real keyczar code (imported first by every driver).

PyCrypto 2.6.1 as installed here is partly broken under Python 3.12 (its AES
extension raises SystemError, its random generator needs time.clock).  That is
a defect of the sandbox's library, not of keyczar, so the drivers replace just
those two pieces of the *library*: the AES block cipher behind Crypto.Cipher.AES
(by M2Crypto's OpenSSL AES) and Crypto.Random (by os.urandom).  No line of
/repo is touched, and keyczar is always imported from /repo's working tree.
"""
import os
import sys
import time
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'python', 'src')
sys.dont_write_bytecode = True
if not hasattr(time, 'clock'):
    time.clock = time.perf_counter


def _install():
    from M2Crypto import EVP
    import Crypto.Cipher

    class _Cipher(object):
        block_size = 16
        key_size = 0

        def __init__(self, key, mode=1, IV=b'', *a, **k):
            self._key, self._iv, self._mode = bytes(key), bytes(IV), mode
            self.IV, self.mode = self._iv, mode
            if len(key) not in (16, 24, 32):
                raise ValueError('AES key must be either 16, 24, or 32 bytes long')
            if mode != 2:
                raise NotImplementedError('shim supports CBC only')
            if len(IV) != 16:
                raise ValueError('IV must be 16 bytes long')
            self._c = {}

        def _do(self, data, op):
            if len(data) % 16:
                raise ValueError('Input strings must be a multiple of 16 in length')
            if op not in self._c:
                self._c[op] = EVP.Cipher(alg='aes_%d_cbc' % (len(self._key) * 8),
                                         key=self._key, iv=self._iv, op=op, padding=0)
            return bytes(self._c[op].update(bytes(data)))

        def encrypt(self, data):
            return self._do(data, 1)

        def decrypt(self, data):
            return self._do(data, 0)

    m = types.ModuleType('Crypto.Cipher._AES')
    m.new = _Cipher
    m.block_size = 16
    m.key_size = 0
    m.MODE_ECB, m.MODE_CBC, m.MODE_CFB, m.MODE_PGP, m.MODE_OFB, m.MODE_CTR = 1, 2, 3, 4, 5, 6
    sys.modules['Crypto.Cipher._AES'] = m
    Crypto.Cipher._AES = m

    r = types.ModuleType('Crypto.Random')
    r.__path__ = []

    class _Rng(object):
        closed = False

        def read(self, n):
            return _REAL_URANDOM(n)

        def close(self):
            pass

        def flush(self):
            pass

        def reinit(self):
            pass
    r.new = lambda *a, **k: _Rng()
    r.get_random_bytes = lambda n: _REAL_URANDOM(n)
    r.atfork = lambda: None
    sys.modules['Crypto.Random'] = r
    import Crypto
    import random
    Crypto.Random = r
    rr = types.ModuleType('Crypto.Random.random')

    class StrongRandom(random.Random):
        def __init__(self, *a, **k):
            random.Random.__init__(self)

        def random(self):
            return int.from_bytes(_REAL_URANDOM(7), 'big') / float(1 << 56)

        def getrandbits(self, k):
            return int.from_bytes(_REAL_URANDOM((k + 7) // 8), 'big') >> (-k % 8)

    rr.StrongRandom = StrongRandom
    sys.modules['Crypto.Random.random'] = rr
    r.random = rr


# random bytes for PyCrypto-internal use (blinding) must not be observed by the
# drivers' instrumentation of os.urandom
_REAL_URANDOM = os.urandom
_install()
sys.path.insert(0, SRC)
