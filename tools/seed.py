#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from specs and confirms each planted bug in a scratch copy.
usage: seed.py SPEC.py [id...]   (SPEC.py defines BUGS, a list of dicts)
  id, prop, edits=[(file, old, new)...], pkg, test (Go test file text with TestDemo), tags, needs, breaks
"""
import json, os, pathlib, runpy, shutil, subprocess, sys
W = '/tmp/seed/w'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
DEMO = '''#!/bin/bash
# exit 0 when the demonstration passes; run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/home"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=${GOPATH:-$(go env GOPATH)} GOMODCACHE=${GOMODCACHE:-$(go env GOMODCACHE)} GOCACHE=${GOCACHE:-$(go env GOCACHE)}
for v in $(compgen -v TRAKX_); do unset "$v"; done
unset PORT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/overlay.json"
HOME=$t/home ZZTMP=$t timeout 280 go test %(flags)s-vet=off -count=1 -overlay "$t/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd=W, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(W, ignore_errors=True); os.makedirs('/tmp/seed', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
    sh('git checkout -q -- . && git clean -fdq')
def tests():
    h = '/tmp/seed/home'; shutil.rmtree(h, ignore_errors=True); os.makedirs(h)
    e = dict(ENV, HOME=h)
    a = subprocess.run('go test -json -vet=off -count=1 -p 1 -timeout 5m ./... > /tmp/seed/d.json; go test -json -vet=off -count=1 -p 1 -tags heroku -run "^TestForwarded" ./tracker/http > /tmp/seed/h.json; python3 /opt/vp/results.py /tmp/seed/o.json gojson:/tmp/seed/d.json gojson:/tmp/seed/h.json', shell=True, cwd=W, env=e, capture_output=True, text=True)
    o = json.load(open('/tmp/seed/o.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    return sorted(set(b['stable']) - set(o['passed']))
def build(b):
    d = pathlib.Path('/verif/seeded')/b['id']
    sh('git checkout -q -- . && git clean -fdq')
    orig = {}
    for f, old, new in b['edits']:
        p = pathlib.Path(W)/f; s = p.read_text()
        if s.count(old) != 1: return f'edit matches {s.count(old)} times: {old[:60]!r}'
        p.write_text(s.replace(old, new))
        # every removed line must be the original repository's
    g = sh('gofmt -l $(git diff --name-only)').stdout.strip()
    if g: sh('gofmt -w ' + g)
    diff = sh('git diff').stdout
    if not diff: return 'no change'
    base = sh('git log --format=%H --reverse | head -1').stdout.strip()
    for f in {e[0] for e in b['edits']}:
        cur = sh(f'git show HEAD:{f}').stdout.splitlines(); old0 = set(sh(f'git show {base}:{f}').stdout.splitlines())
        for l in [l[1:] for l in sh(f'git diff {f}').stdout.splitlines() if l.startswith('-') and not l.startswith('---')]:
            if l.strip() and l not in old0: return 'removes a line of ours: ' + l
    r = sh('go build ./... && go build -tags heroku ./... && go build -tags fast ./...')
    if r.returncode: return 'build: ' + r.stderr[-600:]
    m = tests()
    if m: return f'stable tests fail: {m[:4]}'
    d.mkdir(parents=True, exist_ok=True)
    (d/'patch.diff').write_text(diff)
    (d/'demo_test.go').write_text(b['test'])
    flags = (f"-tags {b['tags']} " if b.get('tags') else '') + b.get('flags', '')
    (d/'demo.sh').write_text(DEMO % dict(pkg=b['pkg'], flags=flags)); (d/'demo.sh').chmod(0o755)
    (d/'meta.json').write_text(json.dumps({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1)+'\n')
    bad = sh(f'bash {d}/demo.sh')
    sh('git checkout -q -- . && git clean -fdq')
    good = sh(f'bash {d}/demo.sh')
    err = ''
    if good.returncode: err = 'demo fails on the unchanged tree:\n' + (good.stdout+good.stderr)[-1500:]
    elif not bad.returncode: err = 'demo passes with the bug'
    elif 'build failed' in bad.stdout+bad.stderr or 'FAIL' not in bad.stdout: err = 'demo does not build/run: ' + (bad.stdout+bad.stderr)[-600:]
    if err:
        shutil.rmtree(d); return err
    return ''
fresh()
bugs = runpy.run_path(sys.argv[1])['BUGS']
want = set(sys.argv[2:])
for b in bugs:
    if want and b['id'] not in want: continue
    if not want and (pathlib.Path('/verif/seeded')/b['id']).exists(): continue
    e = build(b)
    print(b['id'], b['prop'], 'OK' if not e else 'REJECTED ' + e, flush=True)
shutil.rmtree(W, ignore_errors=True)
