#!/usr/bin/env python3
"""addfix.py PROP COMMITISH WHAT: add a fixed: line to known_findings.txt"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h', sys.argv[2]], text=True).strip()
p = os.path.join(V, 'known_findings.txt')
ls = open(p).read().splitlines()
i = max(k for k, l in enumerate(ls) if l.startswith('fixed:'))
ls.insert(i + 1, 'fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[3]))
open(p, 'w').write('\n'.join(ls) + '\n')
