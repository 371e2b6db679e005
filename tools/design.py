#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, pathlib, re
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
ORACLE = json.load(open('tools/oracles.json'))
har = {}
for f in sorted(pathlib.Path('harness').rglob('*.go')):
    t = f.read_text()
    for m in re.finditer(r'//verif:prop=(\S+) ([^\n]*)\n(?://[^\n]*\n)*func (\w+)\(', t):
        b = re.search(r'bounds="([^"]*)"', m[2])
        tier = 'thorough only; ' if 'tier=thorough' in m[2] else ''
        for p in m[1].split(','):
            har.setdefault(p, []).append((m[3], str(f), tier + (b[1] if b else '')))
out = open('tools/design_head.md').read()
out += '## 5. Per property\n\nFor each: what the reference (oracle) is, and the harnesses with their bounds ("thorough" values in brackets).\n\n'
for p in props:
    out += f"### {p['id']} {p['title']}\n\n{ORACLE[p['id']]}\n\nBeyond the tests: {p['why_tests_cant']}\n\n"
    for n, f, b in har.get(p['id'], []):
        out += f"* `{n}` ({f[8:]}): {b}\n"
    out += '\n'
out += '''## 6. Cost

A whole quick sweep takes about 5 minutes on 8 cores (2-40 s per check, of which 2-3 s load and compile the
tree); solver time is a small part except in C18, C19, C23 and C26 (text arithmetic).

'''
tail = open('tools/design_tail.md').read()
fs = json.load(open('known-findings.json'))
tail = tail.replace('@FINDINGS@', '\n'.join(f"* {f['property']} `{f['commit']}`: {f['what']}" for f in fs))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
res = json.load(open('tools/caught.json'))
for d in sorted(pathlib.Path('seeded').iterdir(), key=lambda d: d.name):
    m = json.load(open(d/'meta.json'))
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {res.get(d.name, '-')} |")
tail = tail.replace('@SEEDS@', '\n'.join(rows))
open('DESIGN.md', 'w').write(out + tail)
