#!/usr/bin/env python3
"""Turns catch.sh's output (stdin) into tools/caught.json, keeping earlier entries."""
import json, os, sys
f = '/verif/tools/caught.json'
d = json.load(open(f)) if os.path.exists(f) else {}
for l in sys.stdin:
    w = l.split()
    if len(w) > 2: d[w[0]] = f'{w[1]} quick' if w[2] == 'CAUGHT' else 'not caught'
json.dump(dict(sorted(d.items())), open(f, 'w'), indent=1)
