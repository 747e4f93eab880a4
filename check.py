#!/usr/bin/env python3
"""Runs the property-based checks of one property against /repo's working tree.

  check.py C01              run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE    re-run one saved (shrunk) failing case
  check.py --setup          compile the harness objects once
"""
import sys, os, zlib, json, subprocess, hashlib, time, fcntl, shutil, signal, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(HERE, 'harness')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, BINS
NPROC = 8

def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    if r.returncode:
        sys.stderr.write('FAILED: %s\n%s\n' % (' '.join(cmd), r.stdout[-4000:]))
        raise SystemExit(2)
    return r.stdout

def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:20]

def harness_obj(src, flags, tag):
    """compile a harness source; cached by content (harness sources and neco.h only)"""
    deps = [os.path.join(H, f) for f in sorted(os.listdir(H)) if f.endswith('.h')] + [os.path.join(REPO, 'neco.h'), os.path.join(H, src)]
    key = digest(deps, tag + ' '.join(flags) + src)
    d = os.path.join(BUILD, 'obj'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s.%s.o' % (src, key))
    if os.path.exists(out): return out
    cxx = src.endswith('.cc')
    tmp = out + '.%d.%d' % (os.getpid(), int(time.time() * 1e6) % 10**9)
    run((['g++', '-std=c++17'] if cxx else ['gcc', '-std=gnu11']) + ['-O1', '-g', '-w', '-fno-strict-aliasing', '-I' + REPO, '-c', os.path.join(H, src), '-o', tmp] + flags)
    os.rename(tmp, out)
    return out

def build(binname, variant, outdir):
    """link harness binary `binname` with neco built as `variant` from the working tree"""
    b, v = BINS[binname], VARIANTS[variant]
    os.makedirs(outdir, exist_ok=True)
    cc = v.get('cc', 'gcc')
    inst = v.get('instrument', [])
    with ThreadPoolExecutor(NPROC) as ex:
        hobjs = [ex.submit(harness_obj, s, b.get('hflags', []) + v.get('hflags', []), variant if v.get('hflags') else '') for s in b['src']]
        nobjs = []
        for s in v.get('neco', ['neco.c']):
            o = os.path.join(outdir, 'neco.%s.%s.%s.o' % (binname, variant, s.replace('/', '_')))
            nobjs.append((o, ex.submit(run, [cc, '-std=gnu11', '-w'] + v['flags'] + inst + ['-I' + REPO, '-I' + REPO + '/deps', '-c', os.path.join(REPO, s), '-o', o])))
        objs = [h.result() for h in hobjs]
        for o, f in nobjs: f.result(); objs.append(o)
    wraps = ['-Wl,' + ','.join('--wrap=' + w for w in b['wrap'])] if b.get('wrap') else []
    out = os.path.join(outdir, '%s.%s' % (binname, variant))
    run([v.get('ld', 'g++'), '-o', out] + objs + inst + wraps + ['-lm', '-lpthread', '-ldl'])
    return out

def env_for(variant):
    e = dict(os.environ); e['LC_ALL'] = 'C'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:use_sigaltstack=0'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=78'
    e['TSAN_OPTIONS'] = 'exitcode=79:halt_on_error=1:report_signal_unsafe=0:handle_segv=0'
    return e

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        with ThreadPoolExecutor(NPROC) as ex:
            seen = set(); fs = []
            for b in BINS.values():
                for s in b['src']:
                    k = (s, tuple(b.get('hflags', [])))
                    if k not in seen: seen.add(k); fs.append(ex.submit(harness_obj, s, b.get('hflags', []), ''))
            for f in fs: f.result()
        print('setup ok'); return 0
    if a and a[0] == '--replay': return replay(a[1])
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a: tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(pid, tier, seed)

def check(pid, tier, seed):
    t0 = time.time()
    spec = CHECKS[pid]
    outdir = os.path.join(BUILD, 'bin', pid); os.makedirs(outdir, exist_ok=True)
    lock = open(os.path.join(outdir, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir='/tmp')
    try:
        return check2(pid, tier, seed, spec, outdir, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def check2(pid, tier, seed, spec, outdir, scratch, t0):
    runs = spec['runs']
    act = [r for r in runs if tier == 'thorough' or r.get('quick', 1) > 0]
    need = sorted({(r['bin'], v) for r in act for v in [r.get('variant', 'base')] + r.get('peers', [])})
    bins = {}
    with ThreadPoolExecutor(NPROC) as ex:
        fs = {k: ex.submit(build, k[0], k[1], outdir) for k in need}
        for k, f in fs.items(): bins[k] = f.result()
    tb = time.time()
    jobs = []
    mult = float(os.environ.get('VERIF_SCALE', '1'))
    for r in runs:
        n = int((r.get('quick', 0) if tier == 'quick' else r.get('thorough', r.get('quick', 0) * 12)) * mult)
        if n <= 0: continue
        sh = min(r.get('shards', spec.get('par', NPROC)), max(1, n // r.get('minper', 4)))
        for s in range(sh):
            jobs.append(dict(r=r, shard=s, nsh=sh, count=(n - s + sh - 1) // sh))
    # interleave runs so that every kind of case is tried early
    jobs.sort(key=lambda j: j['shard'])
    cap = spec.get('cap', 200 if tier == 'quick' else 780)
    pending = list(jobs); active = []; results = []; failure = None; errors = []
    while pending or active:
        while pending and len(active) < spec.get('par', NPROC) and not failure:
            j = pending.pop(0); r = j['r']
            k = (r['bin'], r.get('variant', 'base'))
            j['out'] = os.path.join(scratch, 'o.%d.%s.%s.%d.json' % (len(results) + len(active) + len(pending) * 1000, r['prop'], k[1], j['shard']))
            left = max(3.0, cap - (time.time() - tb))
            cmd = [bins[k], '--prop', r['prop'], '--seed', str(salted(seed, k[1])), '--start', str(j['shard']), '--step', str(j['nsh']), '--count', str(j['count']),
                   '--budget', '%.1f' % left, '--shrink', str(r.get('shrink', 15)), '--out', j['out'], '--scratch', scratch] + args_of(r, bins)
            j['p'] = subprocess.Popen(cmd, env=env_for(k[1]), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
            active.append(j)
        time.sleep(0.02)
        for j in list(active):
            if j['p'].poll() is None: continue
            active.remove(j)
            err = j['p'].stderr.read().decode(errors='replace')
            if j['p'].returncode != 0 or not os.path.exists(j['out']):
                errors.append('%s/%s: exit %s %s' % (j['r']['prop'], j['r'].get('variant', 'base'), j['p'].returncode, err[-300:])); continue
            d = json.load(open(j['out'])); d['variant'] = j['r'].get('variant', 'base'); d['bin'] = j['r']['bin']; d['args'] = args_of(j['r'], bins); d['peers'] = j['r'].get('peers', []); d['rargs'] = j['r'].get('args', []) + (['--racy'] if j['r'].get('racy') else []) + (['--kinds', ','.join(j['r']['kinds'])] if j['r'].get('kinds') else [])
            results.append(d)
            if d['failure'] and not failure:
                if confirm(bins[(d['bin'], d['variant'])], d, scratch):
                    failure = d
                else: errors.append('%s: failure did not replay: %s' % (d['prop'], d['failure']['msg'][:300]))
        if failure:
            for j in active:
                try: os.killpg(j['p'].pid, signal.SIGKILL)
                except ProcessLookupError: pass
                j['p'].wait()
            active = []; pending = []
    ev = evidence(pid, tier, seed, spec, results, time.time() - t0, failure, errors)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    known = load_known(pid)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if failure:
        path = save_replay(pid, tier, seed, failure)
        print('%s: %s: %s' % (failure['prop'], failure['failure']['kind'], failure['failure']['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    if errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        if not results or any('exit' in e for e in errors): return 2
    c = ev['coverage']
    print('%s %s seed=%d: held on %d generated cases (%d distinct non-trivial), %.1f s' % (pid, tier, seed, c['evaluations'], c['distinct_nontrivial'], ev['wall_s']))
    return 0

def salted(seed, variant):
    """each build variant gets its own cases"""
    return seed if variant == 'base' else seed + 1000 * (1 + zlib.crc32(variant.encode()) % 9973)

def args_of(r, bins):
    a = [str(x) for x in r.get('args', [])]
    if r.get('racy'): a.append('--racy')
    if r.get('kinds'): a += ['--kinds', ','.join(r['kinds'])]
    for v in r.get('peers', []): a += ['--peer', bins[(r['bin'], v)]]
    return a

def confirm(binp, d, scratch):
    f = d['failure']; path = os.path.join(scratch, 'confirm.%s.%s' % (d['prop'], f['index']))
    with open(path, 'w') as o: o.write('choices:\n%s\nend\n' % wrapnum(f['choices']))
    if '--racy' in d['args']: return True   # seen at least twice by the engine; needs a particular timing
    for _ in range(1 if f['kind'] in ('stall', 'hang') else 3):
        r = subprocess.run([binp, '--prop', d['prop'], '--replay', path, '--scratch', scratch] + [str(x) for x in d['args']], env=env_for(d['variant']), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode != 1: return False
    return True

def wrapnum(s):
    t = s.split(); return '\n'.join(' '.join(t[i:i + 24]) for i in range(0, len(t), 24))

def save_replay(pid, tier, seed, d):
    f = d['failure']; dd = os.path.join(HERE, 'replays'); os.makedirs(dd, exist_ok=True)
    path = os.path.join(dd, '%s-%s-%s.txt' % (pid, d['prop'], d['variant']))
    with open(path, 'w') as o:
        o.write('# property %s violated; re-run this case with: python3 /verif/check.py --replay %s\n' % (pid, path))
        o.write('property: %s\nbin: %s\nvariant: %s\nprop: %s\nargs: %s\npeers: %s\nseed: %d case: %s tier: %s\nkind: %s\nmessage: %s\nshrunk from %s to %d choices in %s runs\n' % (
            pid, d['bin'], d['variant'], d['prop'], ' '.join(map(str, d['rargs'])), ' '.join(d['peers']), seed, f['index'], tier, f['kind'], f['msg'].replace('\n', ' '), f['orig_choices'], len(f['choices'].split()), f['shrink_runs']))
        o.write('choices:\n%s\nend\n\n# the case, written out\n%s\n' % (wrapnum(f['choices']), '\n'.join('# ' + l for l in f['render'].split('\n'))))
    return path

def replay(path):
    meta = {}
    for l in open(path):
        if l.startswith('choices:'): break
        if ':' in l: k, v = l.split(':', 1); meta[k] = v.strip()
    outdir = os.path.join(BUILD, 'bin', 'replay')
    b = build(meta['bin'], meta['variant'], outdir)
    extra = meta.get('args', '').split()
    for v in meta.get('peers', '').split(): extra += ['--peer', build(meta['bin'], v, outdir)]
    meta = {k: v.strip() for k, v in meta.items()}
    scratch = tempfile.mkdtemp(prefix='verif-replay-', dir='/tmp')
    try:
        r = subprocess.run([b, '--prop', meta['prop'], '--replay', path, '-v', '--scratch', scratch] + extra, env=env_for(meta['variant']))
    finally: shutil.rmtree(scratch, ignore_errors=True)
    if r.returncode == 1: print('VIOLATION property=%s replay=%s' % (meta['property'], path))
    return r.returncode

def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid): out.append(l.split(' ', 2)[2].strip())
    return out

def evidence(pid, tier, seed, spec, results, wall, failure, errors):
    byrule = {}; labels = {}; hashes = {}; samples = []; runs = {}
    for d in results:
        byrule[d['prop']] = d['rule']
        hashes.setdefault(d['prop'], set()).update(d['hashes'])
        k = '%s/%s' % (d['prop'], d['variant'])
        q = runs.setdefault(k, dict(evaluations=0, inconclusive=0, unreproduced=0, other_kinds=0, cut_by_budget=False, labels={}))
        q['evaluations'] += d['evaluations']; q['inconclusive'] += d['inconclusive']; q['unreproduced'] += d['unreproduced']; q['other_kinds'] += d['other_kinds']; q['cut_by_budget'] |= d['cut']
        if d['inconclusive_why']: q['inconclusive_why'] = d['inconclusive_why'][:200]
        if d['unreproduced_msg']: q['unreproduced_msg'] = d['unreproduced_msg'][:300]
        for l, n in d['labels'].items(): q['labels'][l] = q['labels'].get(l, 0) + n
    seen = set()
    for d in results:
        if d['samples'] and d['prop'] not in seen: seen.add(d['prop']); samples += [dict(generator=d['prop'], case=x[:3000]) for x in d['samples'][:2]]
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'exploration'), wall_s=round(wall, 2), violations=1 if failure else 0,
        coverage=dict(evaluations=sum(d['evaluations'] for d in results), distinct_nontrivial=sum(len(h) for h in hashes.values()),
            rule='; '.join('%s: %s' % (p, byrule[p]) for p in sorted(byrule)), samples=samples, runs=runs),
        assumptions=spec.get('assumptions', []))
    if errors: ev['coverage']['errors'] = errors
    if failure: ev['coverage']['failure'] = dict(prop=failure['prop'], variant=failure['variant'], kind=failure['failure']['kind'], msg=failure['failure']['msg'][:2000])
    return ev

if __name__ == '__main__':
    sys.exit(main())
