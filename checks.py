# What each check builds and runs. A run is a generator/oracle pair ("prop" of a
# harness binary), a build variant of neco, and case counts per tier.
CLK = ['clock_gettime', 'nanosleep', 'epoll_wait', 'clock_nanosleep', 'epoll_pwait']
KIT = ['pbt.cc', 'vclock.c', 'alloc.cc', 'kit.cc']
BINS = {
    'prog': dict(src=KIT + ['coprog.cc', 'p_prog.cc'], wrap=CLK),
    'time': dict(src=KIT + ['p_time.cc'], wrap=CLK),
    'clean': dict(src=KIT + ['p_clean.cc'], wrap=CLK),
    'life': dict(src=KIT + ['p_life.cc'], wrap=CLK),
    'io': dict(src=KIT + ['p_io.cc'], wrap=CLK + ['read', 'write', 'accept', 'connect']),
    'stream': dict(src=KIT + ['p_stream.cc'], wrap=CLK + ['read', 'write']),
    'ctx': dict(src=KIT + ['p_ctx.cc'], wrap=CLK),
    'sig': dict(src=KIT + ['p_sig.cc'], wrap=CLK),
    'work': dict(src=KIT + ['p_work.cc'], wrap=CLK + ['pthread_create', 'pthread_join', 'pthread_detach', 'pthread_cond_timedwait', 'pthread_mutex_lock', 'pthread_mutex_unlock']),
    'threads': dict(src=KIT + ['p_threads.cc'], wrap=CLK),
    'fault': dict(src=KIT + ['p_fault.cc'], wrap=CLK + ['mmap', 'munmap', 'mprotect', 'epoll_create1', 'epoll_ctl', 'pthread_create']),
    'net': dict(src=KIT + ['p_net.cc'], wrap=CLK + ['getaddrinfo', 'freeaddrinfo', 'socket', 'setsockopt', 'bind', 'listen', 'fcntl', 'connect', 'accept', 'pipe', 'pthread_create', 'read']),
    'ops': dict(src=KIT + ['p_ops.cc'], wrap=CLK),
    'rand': dict(src=KIT + ['p_rand.cc'], wrap=CLK),
    'err': dict(src=KIT + ['p_err.cc'], wrap=CLK),
    'stats': dict(src=KIT + ['p_stats.cc'], wrap=CLK),
    'end': dict(src=KIT + ['p_end.cc'], wrap=CLK),
    'sched': dict(src=KIT + ['coprog.cc', 'p_sched.cc'], wrap=CLK),
    'crowd': dict(src=KIT + ['p_crowd.cc'], wrap=CLK),
}
NOAM = ['neco.c', 'deps/sco.c', 'deps/stack.c', 'deps/worker.c']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-mllvm', '-asan-stack=0']
VARIANTS = {
    'base':  dict(flags=['-O2', '-g']),
    'o0':    dict(flags=['-O0', '-g']),
    'clang': dict(cc='clang', flags=['-O2', '-g']),
    'noam':  dict(flags=['-O1', '-g', '-DNECO_NOAMALGA'], neco=NOAM),
    'asan':  dict(cc='clang', ld='clang++', flags=['-O1', '-g'], instrument=SAN),
    'asan_noam': dict(cc='clang', ld='clang++', flags=['-O1', '-g', '-DNECO_NOAMALGA'], neco=NOAM, instrument=SAN),
    'asan_nopool': dict(cc='clang', ld='clang++', flags=['-O1', '-g', '-DNECO_NOPOOL'], instrument=SAN),
    'nopool': dict(flags=['-O1', '-g', '-DNECO_NOPOOL']),
    'guards': dict(flags=['-O1', '-g', '-DNECO_USEGUARDS']),
    'guardsx': dict(flags=['-O1', '-g', '-DNECO_USEGUARDS'], hflags=['-DGUARDED']),
    'heap':  dict(flags=['-O1', '-g', '-DNECO_USEHEAPSTACK']),
    'nofree': dict(flags=['-O1', '-g', '-DNECO_NOSTACKFREELIST']),
    'noasm': dict(flags=['-O1', '-g', '-DLLCO_NOASM']),
    'burst1': dict(flags=['-O1', '-g', '-DNECO_BURST=1']),
    'smallstk': dict(flags=['-O1', '-g', '-DNECO_STACKSIZE=262144', '-DNECO_GAPSIZE=4096', '-DNECO_USEGUARDS', '-DNECO_DEFCAP=1', '-DNECO_MAXCAP=3'], hflags=['-DSTK=262144']),
    'nowork': dict(flags=['-O1', '-g', '-DNECO_NOWORKERS']),
    'tsan':  dict(cc='clang', ld='clang++', flags=['-O1', '-g'], instrument=['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']),
    'tsan_noam': dict(cc='clang', ld='clang++', flags=['-O1', '-g', '-DNECO_NOAMALGA'], neco=NOAM, instrument=['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']),
    'nowrwork': dict(flags=['-O1', '-g', '-DNECO_NOWRITEWORKERS'], hflags=['-DNOWRW']),
}
def R(bin, prop, variant='base', quick=0, thorough=None, **k):
    d = dict(bin=bin, prop=prop, variant=variant, quick=quick, **k)
    if thorough is not None: d['thorough'] = thorough
    return d
def prog(prop, n=90000):
    return [R('prog', prop, 'base', n, n * 20), R('prog', prop, 'noam', n // 4, n * 6), R('prog', prop, 'asan', n // 12, n * 2),
            R('prog', prop, 'nopool', 0, n * 2), R('prog', prop, 'noasm', 0, n * 2), R('prog', prop, 'burst1', 0, n * 2)]
# Runs of another property's generator in which only the failures that break *this* property count.
CAN = ['cancel', 'cancel-*', 'spurious-cancel', 'spurious-exit', 'lost-cancel', 'stuck-cancel', 'swallowed']
TIM = ['early-timeout', 'early', 'late', 'stuck-deadline']
ERR = ['lasterr', 'message', 'read-zero', 'early-eof']
LEAK = ['leak', 'fdleak', 'threadleak', 'mapleak', 'close-leak']
CHECKS = {
    'C01': dict(runs=prog('c01')),
    'C02': dict(runs=prog('c02')),
    'C03': dict(runs=prog('c03')),
    'C04': dict(runs=prog('c04')),
    'C05': dict(runs=prog('c05')),
    'C06': dict(runs=prog('c06')),
    'C07': dict(runs=[R('time', 'c07s', 'base', 24000), R('time', 'c07s', 'noam', 4000), R('time', 'c07s', 'asan', 1500), R('time', 'c07r', 'base', 80)]
                + [R('prog', 'c07p', 'base', 50000), R('prog', 'c07p', 'noam', 10000), R('prog', 'c07p', 'asan', 4000), R('prog', 'c07q', 'base', 24000), R('prog', 'c07q', 'noam', 4000), R('prog', 'c07q', 'asan', 2000), R('ops', 'c07x', 'nowrwork', 10000), R('ops', 'c07x', 'base', 6000), R('ops', 'c07x', 'noam', 2000), R('ops', 'c07x', 'asan', 1000)]),
    'C08': dict(runs=[R('clean', 'c08c', 'base', 40000), R('clean', 'c08c', 'noam', 6000), R('clean', 'c08c', 'asan', 3000),
                      R('prog', 'c08p', 'base', 30000), R('prog', 'c08d', 'base', 30000), R('prog', 'c08p', 'noam', 6000), R('prog', 'c08d', 'noam', 6000), R('prog', 'c08p', 'asan', 2500), R('prog', 'c08d', 'asan', 2500), R('prog', 'c08v', 'base', 24000), R('prog', 'c08v', 'noam', 4000), R('prog', 'c08v', 'asan', 2000), R('ops', 'c08x', 'nowrwork', 10000), R('ops', 'c08x', 'base', 6000), R('ops', 'c08x', 'noam', 2000), R('ops', 'c08x', 'asan', 1000)]),
    'C09': dict(runs=[R('life', 'c09l', 'base', 40000), R('life', 'c09l', 'noam', 8000), R('life', 'c09l', 'asan', 4000), R('life', 'c09l', 'asan_nopool', 3000), R('life', 'c09l', 'noasm', 4000), R('life', 'c09m', 'base', 400), R('life', 'c09m', 'noam', 100), R('life', 'c09m', 'asan_nopool', 40),
                      R('prog', 'c09p', 'base', 30000), R('prog', 'c09p', 'noam', 6000), R('prog', 'c09p', 'asan', 2500)]),
    'C10': dict(runs=[R('sched', 'c10f', 'base', 30000), R('sched', 'c10f', 'noam', 8000), R('sched', 'c10d', 'base', 6000, peers=['noam', 'nopool', 'noasm', 'heap', 'o0']),
                      R('sched', 'c10f', 'asan', 2000), R('sched', 'c10s', 'base', 16000), R('sched', 'c10s', 'noam', 4000), R('sched', 'c10s', 'asan', 1000), R('sched', 'c10s', 'noasm', 0, 40000), R('sched', 'c10s', 'burst1', 0, 40000), R('sched', 'c10f', 'nopool', 0, 60000), R('sched', 'c10f', 'noasm', 0, 60000)]),
    'C11': dict(runs=prog('c11') + [R('ops', 'c11x', 'nowrwork', 10000), R('ops', 'c11x', 'base', 4000), R('ops', 'c11x', 'noam', 2000), R('ops', 'c11x', 'asan', 1000)]),
    'C12': dict(runs=prog('c12')),
    'C13': dict(runs=[R('io', 'c13', 'nowrwork', 20000), R('io', 'c13', 'base', 8000), R('io', 'c13', 'noam', 3000), R('io', 'c13', 'asan', 2000), R('io', 'c13', 'burst1', 4000), R('io', 'c13n', 'base', 8000), R('io', 'c13n', 'noam', 2000), R('io', 'c13n', 'asan', 1000), R('io', 'c13u', 'base', 4000), R('io', 'c13u', 'noam', 1500), R('io', 'c13u', 'asan', 800)]),
    'C14': dict(runs=[R('stream', 'c14', 'nowrwork', 30000), R('stream', 'c14', 'base', 8000), R('stream', 'c14', 'noam', 3000), R('stream', 'c14', 'asan', 4000), R('stream', 'c14', 'burst1', 4000), R('stream', 'c14d', 'nowrwork', 8000), R('stream', 'c14d', 'base', 2000), R('stream', 'c14d', 'noam', 800), R('stream', 'c14d', 'asan', 1000)]),
    'C15': dict(runs=[R('ctx', 'c15', v, 2400) for v in ('base', 'noam', 'noasm', 'guards', 'heap', 'nofree', 'nopool', 'smallstk', 'o0')] + [R('ctx', 'c15', 'asan', 1600)]),
    'C16': dict(runs=[R('fault', 'c16p', 'base', 12000), R('fault', 'c16p', 'noam', 4000), R('fault', 'c16p', 'asan', 1000), R('fault', 'c16p', 'guards', 3000), R('fault', 'c16p', 'smallstk', 6000), R('fault', 'c16p', 'nopool', 1500), R('fault', 'c16p', 'asan_noam', 600), R('fault', 'c16s', 'base', 2000), R('fault', 'c16s', 'noam', 1000), R('fault', 'c16s', 'smallstk', 500)]),
    'C17': dict(runs=[R('sig', 'c17m', 'base', 40000), R('sig', 'c17m', 'noam', 8000), R('sig', 'c17m', 'asan', 4000), R('sig', 'c17x', 'base', 5000), R('sig', 'c17x', 'noam', 1000), R('sig', 'c17r', 'base', 200), R('sig', 'c17p', 'base', 6000), R('sig', 'c17p', 'noam', 2000)]),
    'C18': dict(par=20, runs=[R('work', 'c18', 'base', 2000, racy=True), R('work', 'c18', 'noam', 700, racy=True), R('work', 'c18', 'tsan', 250, racy=True), R('work', 'c18', 'tsan_noam', 120, racy=True), R('work', 'c18', 'asan', 120, racy=True)]),
    'C19': dict(par=12, runs=[R('threads', 'c19t', 'base', 1000, racy=True), R('threads', 'c19t', 'noam', 400, racy=True), R('threads', 'c19t', 'tsan', 250, racy=True), R('threads', 'c19t', 'tsan_noam', 120, racy=True), R('threads', 'c19t', 'asan', 80, racy=True), R('threads', 'c19n', 'base', 240, racy=True), R('threads', 'c19n', 'noam', 80, racy=True), R('threads', 'c19o', 'base', 4000), R('threads', 'c19o', 'noam', 1000), R('threads', 'c19o', 'asan', 500)]),
    'C20': dict(par=16, runs=[R('net', 'c20', 'base', 9600, racy=True), R('net', 'c20', 'noam', 2400, racy=True), R('net', 'c20', 'asan', 1500, racy=True)]),
    'C22': dict(runs=[R('prog', 'c22p', 'base', 30000), R('prog', 'c22c', 'base', 30000), R('prog', 'c22p', 'noam', 6000), R('prog', 'c22c', 'noam', 6000), R('prog', 'c22p', 'asan', 2000), R('prog', 'c22c', 'asan', 2000),
                      R('stats', 'c22w', 'nowrwork', 12000), R('stats', 'c22w', 'base', 6000), R('stats', 'c22w', 'noam', 3000), R('stats', 'c22w', 'asan', 1500)]),
    'C23': dict(runs=[R('err', 'c23a', 'base', 16000), R('err', 'c23a', 'noam', 4000), R('err', 'c23a', 'asan', 2000), R('err', 'c23a', 'burst1', 2000), R('err', 'c23m', 'base', 12000), R('err', 'c23m', 'noam', 3000), R('err', 'c23p', 'base', 1400), R('err', 'c23p', 'noam', 300), R('err', 'c23q', 'base', 160), R('err', 'c23q', 'noam', 80)]),
    'C24': dict(runs=[R('end', 'c24r', 'base', 1600), R('end', 'c24r', 'noam', 400), R('end', 'c24r', 'noasm', 200), R('end', 'c24x', 'base', 240), R('end', 'c24x', 'noam', 80), R('end', 'c24x', 'guardsx', 120)]),
    'C21': dict(runs=[R('rand', 'c21', 'base', 16000, peers=['noam', 'o0']), R('rand', 'c21', 'noam', 3000), R('rand', 'c21', 'asan', 2000), R('rand', 'c21c', 'base', 16000), R('rand', 'c21c', 'noam', 3000), R('rand', 'c21c', 'asan', 1500)]),
}
def cross(pid, kinds, *rs):
    for b, p, v, n in rs: CHECKS[pid]['runs'].append(R(b, p, v, n, kinds=kinds))
cross('C07', TIM, ('io', 'c13', 'nowrwork', 8000), ('io', 'c13', 'base', 2000), ('stream', 'c14', 'nowrwork', 8000), ('sig', 'c17m', 'base', 10000), ('prog', 'c08d', 'base', 10000), ('prog', 'c12', 'base', 8000))
cross('C08', CAN, ('io', 'c13', 'nowrwork', 8000), ('io', 'c13', 'base', 2000), ('stream', 'c14', 'nowrwork', 8000), ('stream', 'c14d', 'nowrwork', 2000), ('sig', 'c17m', 'base', 10000), ('prog', 'c12', 'base', 8000), ('work', 'c18', 'base', 300), ('rand', 'c21', 'base', 3000), ('net', 'c20', 'base', 400))
cross('C16', LEAK, ('prog', 'c01', 'base', 8000), ('prog', 'c08p', 'base', 8000), ('prog', 'c12', 'base', 8000), ('life', 'c09l', 'base', 8000), ('stream', 'c14', 'nowrwork', 8000), ('net', 'c20', 'base', 1000), ('threads', 'c19t', 'base', 200), ('work', 'c18', 'base', 300))
cross('C23', ERR, ('prog', 'c01', 'base', 8000), ('prog', 'c04', 'base', 8000), ('prog', 'c08p', 'base', 8000), ('prog', 'c12', 'base', 8000), ('prog', 'c05', 'base', 8000), ('io', 'c13', 'nowrwork', 8000), ('io', 'c13', 'base', 2000), ('stream', 'c14', 'nowrwork', 8000), ('sig', 'c17m', 'base', 8000), ('net', 'c20', 'base', 500), ('rand', 'c21', 'base', 3000))
cross('C22', ['stats'], ('sig', 'c17m', 'base', 8000), ('time', 'c07s', 'base', 4000), ('prog', 'c12', 'base', 8000), ('prog', 'c05', 'base', 8000))
cross('C09', ['zombie', 'join-early', 'double-exit', 'ids', 'start', 'args', 'fresh-state', 'join'], ('clean', 'c08c', 'base', 8000), ('prog', 'c08p', 'base', 8000), ('prog', 'c12', 'base', 8000))
for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17):  # magnitudes
    CHECKS['C%02d' % n]['runs'] += [R('crowd', 'c%02db' % n, v, c) for v, c in (('base', 3000), ('noam', 800), ('asan', 300))]
for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 17, 21):  # marathons
    CHECKS['C%02d' % n]['runs'] += [R('crowd', 'c%02dz' % n, v, c) for v, c in (('nowrwork' if n in (13, 14) else 'base', 96), ('noam', 24), ('asan', 16))]
for n in (1, 7, 8, 9, 12, 13, 14, 17, 18, 21):  # restarts
    CHECKS['C%02d' % n]['runs'] += [R('crowd', 'c%02dy' % n, v, c) for v, c in (('base', 60 if n in (13, 14, 18) else 240), ('noam', 40), ('asan', 16))]
cross('C16', LEAK, *[('crowd', 'c%02dy' % n, 'base', 40) for n in (1, 8, 9, 12, 13, 14, 17, 18)])
CHECKS['C19']['runs'] += [R('crowd', 'c19b', v, c, racy=True) for v, c in (('base', 160), ('noam', 40), ('tsan', 24))]
CHECKS['C20']['runs'] += [R('crowd', 'c20b', v, c, racy=True) for v, c in (('base', 160), ('noam', 60), ('asan', 24))]
for n, c in ((13, 400), (14, 240), (21, 400)):
    CHECKS['C%02d' % n]['runs'] += [R('crowd', 'c%02db' % n, v, k) for v, k in ((('nowrwork', c),) if n != 21 else ()) + (('base', c // 2), ('noam', c // 4), ('asan', c // 6))]
cross('C22', ['stats'], ('crowd', 'c01b', 'base', 600), ('crowd', 'c04b', 'base', 600), ('crowd', 'c05b', 'base', 600), ('crowd', 'c06b', 'base', 600), ('crowd', 'c09b', 'base', 600), ('crowd', 'c07b', 'base', 600), ('crowd', 'c13b', 'base', 100), ('crowd', 'c17b', 'base', 400))
for q in ('C08', 'C16', 'C23'):
    for r in CHECKS[q]['runs']:
        if r.get('kinds') and r['bin'] in ('work', 'net', 'threads'): r['racy'] = True
