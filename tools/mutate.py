#!/usr/bin/env python3
"""Mutation testing of the checks (not itself a check).

  mutate.py tests MUTS.jsonl OUT.jsonl     build each mutant, run the repository's tests
  mutate.py checks OUT.jsonl CAUGHT.jsonl  run the quick checks on those the tests let through

MUTS.jsonl comes from tools/mutate. Works in copies under /tmp/mut."""
import json, os, subprocess, sys, threading, queue, shutil, glob, re, collections
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
W = int(os.environ.get('W', '6'))

def sh(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return -1, 'timeout'

def apply(m, d):
    f = os.path.join(d, m['File'])
    src = open(os.path.join('/repo', m['File']), 'rb').read()
    open(f, 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])
    return f

def restore(m, d):
    shutil.copy(os.path.join('/repo', m['File']), os.path.join(d, m['File']))

def tests(m, d):
    home = d + '.home'
    shutil.rmtree(home, ignore_errors=True); os.makedirs(home)
    env = dict(ENV, HOME=home)
    rc, _ = sh('go build ./... && go build -tags "heroku fast" ./...', d, env, 120)
    if rc: return 'nobuild'
    pkg = './' + os.path.dirname(m['File'][2:])
    ns = "unshare -n sh -c 'ip link set lo up; "
    go = 'go test -json -vet=off -count=1 -p 1 -timeout 60s '
    pkgs = [f'./{x}' for x in ('bencoding', 'config', 'controller', 'tracker/http', 'tracker/storage/map', 'tracker/udp', 'tracker/utils/unsafemanip', 'pools')]
    first = [pkg] if pkg in pkgs else []
    rest = [x for x in pkgs + ['./tracker'] if x not in first]
    passed = set()
    for c in ([' '.join(first)] if first else []) + [' '.join(rest), '-tags heroku -run ^TestForwarded ./tracker/http']:
        rc, out = sh(ns + go + c + "'", d, dict(env), 200)
        for l in out.splitlines():
            if '"Test":' in l and ('"Action":"pass"' in l or '"Action":"fail"' in l):
                try: e = json.loads(l)
                except ValueError: continue
                i = f"{e['Package']}/{e['Test']}"
                if e['Action'] == 'pass': passed.add(i)
                elif i in STABLE: return 'killed'
    if STABLE - passed: return 'killed'
    return 'survived'

def run(items, work, out):
    q = queue.Queue(); [q.put(i) for i in items]
    lock = threading.Lock(); n = [0]
    def loop(w):
        d = f'/tmp/mut/{sys.argv[1]}{w}'
        if not os.path.exists(d): subprocess.run(['cp', '-a', '/repo', d], check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            apply(m, d)
            try: r = work(m, d)
            finally: restore(m, d)
            with lock:
                m.update(r); out.write(json.dumps(m) + '\n'); out.flush(); n[0] += 1
                if n[0] % 50 == 0: print(n[0], '/', len(items), flush=True)
    os.makedirs('/tmp/mut', exist_ok=True)
    ts = [threading.Thread(target=loop, args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]

def key(m): return (m['File'], m['Start'], m['End'], m['New'])
def load(p): return [json.loads(l) for l in open(p)] if os.path.exists(p) else []

if sys.argv[1] == 'tests':
    done = {key(m) for m in load(sys.argv[3])}
    ms = [m for m in load(sys.argv[2]) if key(m) not in done]
    run(ms, lambda m, d: {'tests': tests(m, d)}, open(sys.argv[3], 'a'))
else:
    fns = {}
    cost = {}
    for f in glob.glob('/verif/evidence/*.json'):
        e = json.load(open(f)); cost[e['property']] = e['wall_s']
        for g in e['coverage']['functions_encoded']:
            fns.setdefault(g, set()).add(e['property'])
    anch = {}
    for l in open('/verif/properties.jsonl'):
        x = json.loads(l); anch[x['id']] = x['anchors']['files']
    def props(m):
        pkg = os.path.dirname(m['File'][2:]) or 'zzmain'
        fn = m['Func']
        mm = re.match(r'\((\*?)(.*)\)\.(.*)', fn) 
        r = set()
        for g, ps in fns.items():
            g0 = re.sub(r'\[.*?\]', '', g)
            recv, _, name = fn.rpartition('.')
            recv = re.sub(r'\[.*?\]', '', recv.lstrip('*'))
            want = f'{pkg}.{recv}).{name}' if recv else f'{pkg}.{name}'
            if want in g0: r |= ps
        return sorted(r, key=lambda p: (m['File'][2:] not in anch[p], cost[p]))
    def checks(m, d):
        ps = props(m)
        ps = [p for p in ps if p not in ('C09', 'C10', 'C20', 'C29', 'C31') or m['File'][2:] in anch[p]]
        if m.get('C31'): ps = sorted(set(ps) | {'C31'}, key=lambda p: p != 'C31')
        heroku = 'C23' in ps and m['File'].startswith('./tracker/http/')
        ps = [p for p in ps if p != 'C23']
        if not ps and not heroku: return {'caught': None, 'ran': []}
        rc, out = sh(f'/verif/bin/gosym check -prop {",".join(ps)} -tier quick -repo {d} -nocross -workers 3', '/verif', dict(ENV, CGO_ENABLED='0', GONOSUMDB='*', GOSUMDB='off'), 300)
        if heroku and 'VIOLATION' not in out:
            rc2, out2 = sh(f'/verif/bin/gosym check -prop C23 -tier quick -repo {d} -nocross -workers 3', '/verif', dict(ENV, CGO_ENABLED='0', GONOSUMDB='*', GOSUMDB='off'), 300)
            out += out2
        c = re.search(r'VIOLATION property=(\S+)', out)
        return {'caught': c and c.group(1), 'ran': ps, 'timeout': rc == -1, 'notes': [l[:200] for l in out.splitlines() if 'REDUCED' in l or 'INCONC' in l][:6]}
    done = {key(m) for m in load(sys.argv[3])}
    ms = [m for m in load(sys.argv[2]) if m['tests'] == 'survived' and key(m) not in done]
    W = int(os.environ.get('W', '3'))
    run(ms, checks, open(sys.argv[3], 'a'))
