#!/usr/bin/env python3
"""seed.py new ID        make seeded/ID/patch.diff from the worktree /tmp/seed (edited by hand or by `sub`)
   seed.py verify ID..   apply to /repo, build, run the stable tests, run the demo with and without, undo
   seed.py check ID..    run the quick check of its property against a patched scratch copy"""
import sys, os, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, 'seeded')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# exit 0: the property holds; run with cwd /repo
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
gcc -O1 -g -w -I. -o "$T/demo" "$D/demo.c" neco.c -lm -lpthread -ldl || exit 98
cd "$T" && timeout 60 "$T/demo"
'''
def mk(id, prop, subs, needs, breaks, demo, demosh=None):
    """subs: list of (file, old, new)"""
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    sh('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (w, w))
    for f, a, b in subs:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(a) == 1, (id, f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % w).stdout)
    shutil.rmtree(w)
    open(os.path.join(d, 'demo.c'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(demosh or DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def tests():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode: return 'build failed ' + r.stdout[-500:]
    o = '/tmp/seed-test.json'; sh('bash /opt/vp/test.sh ' + o)
    b = json.load(open('/opt/vp/BASELINE.json')); p = json.load(open(o))
    st = next(b[k] for k in ('stable', 'passed', 'tests', 'stable_pass') if k in b)
    miss = sorted(set(st) - set(p['passed']))
    return 'missing ' + str(miss[:8]) if miss else ''
def verify(id):
    d = os.path.join(S, id); assert not sh('git -C /repo status --porcelain').stdout
    demo = 'cd /repo && bash %s/demo.sh' % d
    r0 = sh(demo)
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d); assert a.returncode == 0, a.stdout
        t = tests(); r1 = sh(demo)
    finally: sh('git -C /repo checkout -- .')
    ok = r0.returncode == 0 and r1.returncode != 0 and not t
    print(id, 'OK' if ok else 'BAD', 'demo clean=%d patched=%d' % (r0.returncode, r1.returncode), t, '' if ok else r0.stdout[-300:] + r1.stdout[-300:], flush=True)
def check(id, prop=None, env=''):
    d = os.path.join(S, id); w = tempfile.mkdtemp(prefix='seedc-', dir='/tmp'); v = tempfile.mkdtemp(prefix='seedv-', dir='/tmp')
    try:
        sh('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q' % (w, w))
        a = sh('cd %s && git apply %s/patch.diff' % (w, d)); assert a.returncode == 0, a.stdout
        sh('cp -a %s/check.py %s/checks.py %s/harness %s/ && mkdir -p %s/build && cp -a %s/build/obj %s/build/' % (V, V, V, v, v, V, v))
        p = prop or json.load(open(d + '/meta.json'))['property']; t0 = time.time()
        r = sh('cd %s && %s VERIF_REPO=%s python3 check.py %s' % (v, env, w, p))
        print(id, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR %d' % r.returncode), '%.0fs' % (time.time() - t0), r.stdout.strip()[-400:].replace('\n', ' | '), flush=True)
    finally: shutil.rmtree(w); shutil.rmtree(v)
if __name__ == '__main__':
    if sys.argv[1] == 'verify': [verify(i) for i in sys.argv[2:] or sorted(os.listdir(S))]
    if sys.argv[1] == 'check':
        for i in sys.argv[2:] or sorted(os.listdir(S)): check(*i.split(':'))
