#!/usr/bin/env python3
"""rewrites the lines Bounds and Assumptions of DESIGN.md from the harnesses"""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def lines(prop):
    mod = importlib.import_module('harness.' + prop.lower())
    q, t = mod.scenarios('quick'), mod.scenarios('thorough')
    seen = {}
    for s in q:
        seen.setdefault(s['fn'], []).append(s)
    parts = ['`%s`%s: %s%s' % (f, ' x%d' % len(v) if len(v) > 1 else '', 'e.g. ' if len(v) > 1 else '', v[0]['bounds']) for f, v in seen.items()]
    return ('* **Bounds (quick, %d scenarios; thorough: %d):** %s.' % (len(q), len(t), '; '.join(parts)),
            '* **Assumptions:** %s.' % '; '.join(mod.ASSUMPTIONS))


p = os.path.join(HERE, 'DESIGN.md')
out, cur = [], None
for l in open(p).read().split('\n'):
    m = re.match(r'### (C\d\d) ', l)
    if m:
        cur = lines(m.group(1))
    if cur and l.startswith('* **Bounds (quick'):
        l = cur[0]
    elif cur and l.startswith('* **Assumptions:**'):
        l = cur[1]
    elif l.startswith('## '):
        cur = None
    out.append(l)
open(p, 'w').write('\n'.join(out))
