"""C22: shared use of key set objects."""
from vlib import *


def run(prop):
    ck = Check(prop)
    scheds = []
    for cfg, k in (('Share', 2), ('Share3', 3)):
        m = ck.model('Share', cfg, workers=4)
        scheds += [{'n': k, 's': x} for x in m.printed('SCHED')]
    b = ck.model('Share', 'ShareBad', expect_ok=False)
    if b.ok:
        raise MachineryError('the model does not notice working state in the shared object')
    parts = ('aes', 'rsac', 'hmac', 'dsa', 'rsas')
    for tr in ck.together([lambda p=p: ck.drive('share.py', p + '.ndjson', inp=scheds, timeout=780, env={'VERIF_PART': p}) for p in parts]):
        ck.validate('ShareTrace', tr)
    ck.assumptions = ['control changes hands between bytecode instructions of the keyczar package, not inside PyCrypto or the standard library',
                      'operations only use the key set; management commands on an object in use are not covered']
    return ck.finish()
