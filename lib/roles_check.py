"""C07: roles, purposes and readers."""
import json
from vlib import *


def run(prop):
    ck = Check(prop)
    m = ck.model('RolesMC', 'RolesMC2' if TIER == 'thorough' else 'RolesMC')
    seen, inp = set(), []
    for c in m.printed('CFG'):
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            inp.append({'c': c})
    tr = ck.drive('roles.py', 'roles.ndjson', inp=inp, timeout=850)
    ck.validate('RolesTrace', tr)
    ck.assumptions = ['sets of at most 2 (thorough: 4) versions; larger sets differ only in the number of versions']
    return ck.finish()
