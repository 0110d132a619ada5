#!/usr/bin/env python3
"""Maintainer's tool (no check runs it): records milestones that are unreachable by construction of an entry
(its operation mask, its missing closer, ...).  Usage: unreachable.py PID OUTPUT-OF-CHECK...   Review the result by hand."""
import re, sys, json, os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'unreachable.json')
d = json.load(open(P)) if os.path.exists(P) else {}
pid = sys.argv[1]
for f in sys.argv[2:]:
    t = open(f).read().split('\n')
    for i, l in enumerate(t):
        m = re.match(r'\s+must-reach: (.*)', l)
        if m:
            e = re.search(r'entry (\w+) \[([^. ]+)\.', t[i + 2]); s = d.setdefault(pid, {}).setdefault(e.group(2) + '/' + e.group(1), [])
            if m.group(1) not in s: s.append(m.group(1)); s.sort()
json.dump(d, open(P, 'w'), indent=0, sort_keys=True); open(P, 'a').write('\n')
