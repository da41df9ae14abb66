"""C18: fresh random material."""
from vlib import *


def run(prop):
    ck = Check(prop)
    deep = TIER == 'thorough'
    ck.model('FreshMC', 'FreshMC2' if deep else 'FreshMC', workers=8)
    if deep:
        r = ck.model('FreshMC', 'FreshMC_buffered', expect_ok=False, workers=8)
        if r.ok or 'NoReuse is violated' not in r.out:
            raise MachineryError('a shared buffer is not refuted:\n%s' % r.out[-2000:])
    h = ck.model('FreshMC', 'FreshHist', args=['-simulate', 'num=%d' % (240 if deep else 40), '-depth', '41', '-seed', str(SEED)])
    tr = ck.drive('fresh.py', 'fresh.ndjson', inp=[{'hist': x} for x in h.printed('HIST')], timeout=850)
    ck.validate('FreshTrace', tr)
    ck.assumptions = ['the source is observed at os.urandom, os.getrandom, the random module\'s import of it and /dev/urandom',
                      'RSA and DSA key generation inside the crypto library is replaced by fixture keys; the bytes handed to it are checked',
                      'two processes and up to 8 threads']
    return ck.finish()
