#!/usr/bin/env python3
"""check.py <property>: decide one property (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
TABLE = {'C22': 'share_check', 'C20': 'der_check', 'C21': 'backend_check', 'C19': 'cmdline_check', 'C18': 'fresh_check', 'C16': 'interop_check', 'C15': 'crash_check', 'C13': 'session_check', 'C12': 'b64_check', 'C10': 'stream_check', 'C11': 'stream_check', 'C01': 'lifecycle_check', 'C02': 'lifecycle_check', 'C03': 'keyuse_check', 'C04': 'keyuse_check', 'C14': 'wire_check',
         'C07': 'roles_check', 'C08': 'seal_check', 'C09': 'export_check', 'C05': 'forge_check', 'C06': 'forge_check', 'C17': 'forge_check'}

if __name__ == '__main__':
    prop = sys.argv[1]
    try:
        rc = importlib.import_module(TABLE[prop]).run(prop)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
