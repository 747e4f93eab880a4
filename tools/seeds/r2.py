import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from seed import mk
N = 'neco.c'
H = '#include "neco.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <unistd.h>\n#include <errno.h>\n'
M = 'int main() { return neco_start(co, 0) ? 1 : 0; }\n'
mk('c01-broadcast-buffers', 'C01', [(N, '''    if (broadcast) {
        yield_for_sched_resume();
        return sent;
    }

    if (chan->buflen < chan->bufcap) {''', '''    if (broadcast && (sent > 0 || chan->buflen == chan->bufcap)) {
        yield_for_sched_resume();
        return sent;
    }

    if (chan->buflen < chan->bufcap) {''')], 'a broadcast on a buffered channel with room while nobody is receiving',
 'the broadcast message is kept and received later by a receiver that was not waiting', H + r'''
static void co(int argc, void *argv[]) {
    neco_chan *c; neco_chan_make(&c, sizeof(int), 2); int m = 5;
    if (neco_chan_broadcast(c, &m) != 0) exit(1);
    if (neco_chan_tryrecv(c, &m) != NECO_EMPTY) { puts("a broadcast nobody waited for was delivered"); exit(1); }
    neco_chan_release(c);
}
''' + M)
mk('c05-broadcast-batch', 'C05', [(N, '''    struct coroutine *co = colist_pop_front(&cvar->queue);
    while (co) {
        co->completed = true;
        sched_resume(co);
        co = colist_pop_front(&cvar->queue);
    }
    yield_for_sched_resume();''', '''    // Wake up the waiters in batches, so that a large number of them does not
    // delay the scheduler.
    int nbatch = 0;
    struct coroutine *co = colist_pop_front(&cvar->queue);
    while (co) {
        co->completed = true;
        sched_resume(co);
        if (++nbatch == 24) {
            break;
        }
        co = colist_pop_front(&cvar->queue);
    }
    yield_for_sched_resume();''')], 'a broadcast while more than 24 coroutines wait on the condition',
 'the waiters beyond the 24th are not woken', H + r'''
static neco_mutex mu; static neco_cond cv; static int woke;
static void w(int argc, void *argv[]) { neco_mutex_lock(&mu); if (neco_cond_wait_dl(&cv, &mu, neco_now() + NECO_SECOND) == NECO_OK) woke++; neco_mutex_unlock(&mu); }
static void co(int argc, void *argv[]) {
    neco_mutex_init(&mu); neco_cond_init(&cv);
    for (int i = 0; i < 40; i++) neco_start(w, 0);
    neco_cond_broadcast(&cv); neco_sleep(50 * NECO_MILLISECOND);
    printf("%d of 40 woken\n", woke); exit(woke == 40 ? 0 : 1);
}
''' + M)
mk('c06-recheck', 'C06', [(N, '''    colist_push_back(&wg->queue, co);
    rt->nwaitgroupers++;
    copause(deadline);
    rt->nwaitgroupers--;
    remove_from_list(co);
    return checkdl(co, INT64_MAX);''', '''    do {
        colist_push_back(&wg->queue, co);
        rt->nwaitgroupers++;
        copause(deadline);
        rt->nwaitgroupers--;
        remove_from_list(co);
        ret = checkdl(co, INT64_MAX);
    } while (ret == NECO_OK && wg->count > 0);
    return ret;''')], 'several waiters, the first of which adds to the group again before the others have run',
 'a coroutine that was waiting when the count reached zero is not released', H + r'''
static neco_waitgroup wg; static int released;
static void a(int argc, void *argv[]) { neco_waitgroup_wait(&wg); neco_waitgroup_add(&wg, 1); }
static void b(int argc, void *argv[]) { neco_waitgroup_wait(&wg); released++; }
static void co(int argc, void *argv[]) {
    neco_waitgroup_init(&wg); neco_waitgroup_add(&wg, 1);
    neco_start(a, 0); neco_start(b, 0); neco_start(b, 0);
    neco_waitgroup_done(&wg); neco_sleep(50 * NECO_MILLISECOND);
    if (released != 2) { puts("waiters are stuck"); exit(1); }
    exit(0);
}
''' + M)
mk('c07-compare-narrow', 'C07', [(N, '''    return 
        a->deadline < b->deadline ? -1 : a->deadline > b->deadline ? 1 :
        a->id < b->id ? -1 : a->id > b->id;''', '''    int64_t diff = a->deadline - b->deadline;
    return diff ? (int)diff : a->id < b->id ? -1 : a->id > b->id;''')], 'deadlines that differ by more than 2^31 ns, or by a multiple of 2^32',
 'timers fire in the wrong order or late', H + r'''
static int order[4], n;
static void s(int argc, void *argv[]) { neco_sleep(*(int64_t *)argv[0]); order[n++] = (int)(intptr_t)argv[1]; }
static void co(int argc, void *argv[]) {
    int64_t a = 3 * NECO_SECOND, b = 20 * NECO_MILLISECOND;
    neco_start(s, 2, &a, (void *)1); neco_start(s, 2, &b, (void *)2);
    neco_sleep(400 * NECO_MILLISECOND);
    printf("%d timers fired\n", n); exit(n == 1 && order[0] == 2 ? 0 : 1);
}
''' + M)
mk('c09-lastid-late', 'C09', [(N, '''        rt->costarter->lastid = co->id;
        co->starterid = rt->costarter->id;''', '''        co->starterid = rt->costarter->id;'''), (N, '''    rt->costarter = coself();
    sco_start(&desc);
    return NECO_OK;
fail:''', '''    struct coroutine *starter = coself();
    rt->costarter = starter;
    sco_start(&desc);
    if (starter) {
        starter->lastid = co->id;
    }
    return NECO_OK;
fail:''')], 'a coroutine that ends at once, and whose pooled memory is reused by another start before its starter goes on',
 'the last started id is the id of a coroutine started by somebody else', H + r'''
static int64_t first;
static void leaf(int argc, void *argv[]) { }
static void child(int argc, void *argv[]) { first = neco_getid(); }
static void joiner(int argc, void *argv[]) { neco_join(*(int64_t *)argv[0]); neco_start(leaf, 0); neco_start(leaf, 0); }
static void target(int argc, void *argv[]) { *(int64_t *)argv[0] = neco_getid(); neco_yield(); }
static int64_t tid; static int bad;
static void spin(int argc, void *argv[]) { for (int i = 0; i < 30; i++) { neco_start(leaf, 0); neco_yield(); } }
static void starter(int argc, void *argv[]) { for (int i = 0; i < 30; i++) { neco_start(child, 0); if (neco_lastid() != first) bad++; neco_yield(); } }
static void ender(int argc, void *argv[]) { first = neco_getid(); neco_yield(); neco_yield(); }
static void co(int argc, void *argv[]) {
    neco_start(spin, 0); neco_start(starter, 0); neco_start(spin, 0);
    for (int i = 0; i < 200; i++) neco_yield();
    if (bad) { printf("%d wrong last ids\n", bad); exit(1); }
}
''' + M)
mk('c10-busy-starves-files', 'C10', [(N, '''    if (rt->nevwaiters > 0) {
        // Event waiters need their own logic.''', '''    if (rt->nevwaiters > 0 && (timeout > 0 || sco_info_scheduled() == 0 || 
        rt->ndeadlines > 0))
    {
        // Event waiters need their own logic.''')], 'a coroutine that yields in a loop while another one waits for a file and no timer is pending',
 'the ready file is not served as long as somebody is busy', H + r'''
static int fd[2], got;
static void rd(int argc, void *argv[]) { if (neco_wait(fd[0], NECO_WAIT_READ) == NECO_OK) got = 1; }
static void co(int argc, void *argv[]) {
    if (pipe(fd)) exit(3); neco_setnonblock(fd[0], true, NULL);
    neco_start(rd, 0); if (write(fd[1], "x", 1) != 1) exit(3);
    for (int i = 0; i < 2000 && !got; i++) neco_yield();
    if (!got) { puts("not served after 2000 turns"); exit(1); }
}
''' + M)
mk('c12-gen-exit-silent', 'C12', [(N, '''    if (co->gen) {
        chan_close((void*)co->gen);
        chan_fastrelease((void*)co->gen);''', '''    if (co->gen) {
        if (async) {
            // There are no more values. Avoid yielding while exiting.
            co->gen->sclosed = true;
            co->gen->rclosed = true;
        } else {
            chan_close((void*)co->gen);
        }
        chan_fastrelease((void*)co->gen);''')], 'a consumer waiting in next while the generator is canceled or exits early',
 'the waiting consumer is not told that the generator ended', H + r'''
static void g(int argc, void *argv[]) { int v = 1; neco_gen_yield(&v); neco_sleep(20 * NECO_MILLISECOND); neco_exit(); }
static void co(int argc, void *argv[]) {
    neco_gen *gen; neco_gen_start(&gen, sizeof(int), g, 0); int v;
    if (neco_gen_next(gen, &v) || v != 1) exit(3);
    int r = neco_gen_next_dl(gen, &v, neco_now() + 500 * NECO_MILLISECOND);
    printf("next: %s\n", neco_strerror(r)); exit(r == NECO_CLOSED ? 0 : 1);
}
''' + M)
mk('c13-wake-one', 'C13', [(N, '''            while (co && co->evfd == fd && co->evkind == kind) {
                sco_resume(co->id);
                co = evmap_next(&rt->evwaiters, co);
            }''', '''            if (co && co->evfd == fd && co->evkind == kind) {
                // Only one of them can make use of the event.
                sco_resume(co->id);
            }''')], 'two or more coroutines that wait for the same descriptor and direction with neco_wait',
 'only one of the waiters is woken, the others hang although the descriptor is ready', H + r'''
static int fd[2], got;
static void rd(int argc, void *argv[]) { if (neco_wait_dl(fd[0], NECO_WAIT_READ, neco_now() + 300 * NECO_MILLISECOND) == NECO_OK) got++; }
static void co(int argc, void *argv[]) {
    if (pipe(fd)) exit(3); neco_setnonblock(fd[0], true, NULL);
    for (int i = 0; i < 3; i++) neco_start(rd, 0);
    if (write(fd[1], "x", 1) != 1) exit(3);
    neco_sleep(100 * NECO_MILLISECOND); printf("%d woken\n", got); exit(got == 3 ? 0 : 1);
}
''' + M)
mk('c14-unread-after-refill', 'C14', [(N, '''        stream->rd.len = (size_t)n;
        stream->rd.pos = 0;
    }
    nbytes = stream->rd.len < nbytes ? stream->rd.len : nbytes;''', '''        stream->rd.len = (size_t)n;
        if (n > 0) {
            stream->rd.pos = 0;
        }
    }
    nbytes = stream->rd.len < nbytes ? stream->rd.len : nbytes;'''), (N, '''    } else if (!stream->buffered || stream->rd.pos == 0) {
        return NECO_UNREADFAIL;''', '''    } else if (!stream->buffered || !stream->rd.data || 
        (stream->rd.pos == 0 && stream->rd.len > 0))
    {
        return NECO_UNREADFAIL;''')], 'unread on a buffered stream that has been used for reading but got end of file first',
 'unread-byte succeeds although no byte was read, and the stream then returns memory in front of the buffer', H + r'''
static void co(int argc, void *argv[]) {
    int fd[2]; if (pipe(fd)) exit(3); close(fd[1]); neco_setnonblock(fd[0], true, NULL);
    neco_stream *s; neco_stream_make_buffered(&s, fd[0]); char c;
    if (neco_stream_read(s, &c, 1) != NECO_EOF) exit(3);
    if (neco_stream_unread_byte(s) != NECO_UNREADFAIL) { puts("unread of nothing"); exit(1); }
    neco_stream_close(s);
}
''' + M)
# replaced by c17-unwatch-pending (the lines were not the original repository's)
if 0: mk('c17-exit-unwatches-all', 'C17', [(N, '''            co->sigwatch &= ~(UINT32_C(1) << signo);
            rt->sigwatchers[signo]--;
        }
    }

    // Delete from map ''', '''            co->sigwatch &= ~(UINT32_C(1) << signo);
            rt->sigwatchers[signo]--;
            if (rt->sigqueue[signo] > 0) {
                // Do not leave undelivered signals behind.
                rt->sigqueue[signo] = 0;
                rt->sigmask &= ~(UINT32_C(1) << signo);
            }
        }
    }

    // Delete from map ''')], 'two watchers of a signal, neither waiting when it arrives, one ends before the other waits',
 'the pending signal is lost although another coroutine still watches it', H + r'''
#include <signal.h>
static void w(int argc, void *argv[]) { neco_signal_watch(SIGUSR1); neco_yield(); }
static void co(int argc, void *argv[]) {
    neco_signal_watch(SIGUSR1);
    neco_start(w, 0); raise(SIGUSR1);
    for (int i = 0; i < 5; i++) neco_yield();
    int r = neco_signal_wait_dl(neco_now() + 100 * NECO_MILLISECOND);
    printf("wait returned %d\n", r); exit(r == SIGUSR1 ? 0 : 1);
}
''' + M)
mk('c18-timeout-drops', 'C18', [(N, '''        pthread_cond_timedwait(&thread->cond, &thread->mu, &ts);
        if (thread->len == 0) {''', '''        int ret = pthread_cond_timedwait(&thread->cond, &thread->mu, &ts);
        if (ret != 0 || thread->end) {''')], 'a task submitted at the moment the idle thread of its pin times out',
 'the task is queued for a thread that has ended: it never runs and its submitter never continues', H + r'''
#include <pthread.h>
#include <time.h>
// An idle wait that is over after 20 ms, whatever has been signaled meanwhile.
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { pthread_mutex_unlock(m); usleep(20000); pthread_mutex_lock(m); return ETIMEDOUT; }
static int ran;
static void w(void *p) { __atomic_fetch_add(&ran, 1, __ATOMIC_SEQ_CST); }
static void dog(int argc, void *argv[]) { neco_sleep(5 * NECO_SECOND); printf("%d of 3 tasks ran\n", ran); _exit(1); }
static void co(int argc, void *argv[]) { neco_start(dog, 0); for (int i = 0; i < 3; i++) { neco_work(0, w, NULL); neco_sleep(5 * NECO_MILLISECOND); } exit(ran == 3 ? 0 : 1); }
''' + M)
mk('c08-handler-first', 'C08', [(N, '''    struct cleanup *handler = co->cleanup;
    co->cleanup = handler->next;
    if (execute && handler->routine) {
        handler->routine(handler->arg);
    }''', '''    struct cleanup *handler = co->cleanup;
    if (execute && handler->routine) {
        handler->routine(handler->arg);
    }
    co->cleanup = handler->next;''')], 'a cleanup handler that ends the coroutine itself (neco_exit), or pushes and pops handlers of its own',
 'the handler runs again and again', H + r'''
static int n;
static void h(void *p) { if (++n > 1) { puts("handler runs twice"); exit(1); } neco_exit(); }
static void c(int argc, void *argv[]) { neco_cleanup_push(h, NULL); neco_exit(); neco_cleanup_pop(0); }
static void co(int argc, void *argv[]) { neco_start(c, 0); neco_yield(); exit(n == 1 ? 0 : 2); }
''' + M)
mk('c11-stale-suspended', 'C11', [(N, '''    copause(deadline);
    rt->nsuspended--;
    co->suspended = false;
''', '''    copause(deadline);
    rt->nsuspended--;
'''), (N, '''    sco_resume(co->id);
    return NECO_OK;
}

/// Resume a suspended roroutine''', '''    co->suspended = false;
    sco_resume(co->id);
    return NECO_OK;
}

/// Resume a suspended roroutine''')], 'a suspend that ended by its deadline or by a cancelation, followed by another blocking operation and a resume',
 'the resume reports success and completes the other operation (a sleep ends early)', H + r'''
static int64_t t;
static void c(int argc, void *argv[]) { neco_suspend_dl(neco_now() + NECO_MILLISECOND); t = neco_now(); neco_sleep(200 * NECO_MILLISECOND); t = neco_now() - t; }
static void co(int argc, void *argv[]) { neco_start(c, 0); int64_t id = neco_lastid(); neco_sleep(50 * NECO_MILLISECOND); int r = neco_resume(id); neco_join(id); printf("%s, slept %lld ms\n", neco_strerror(r), (long long)t / 1000000); exit(r == NECO_NOTSUSPENDED && t >= 200 * NECO_MILLISECOND ? 0 : 1); }
''' + M)
mk('c15-r15', 'C15', [(N, '''    "  movq %r15, 56(%rdi)\\n"
    "  movq 56(%rsi), %r15\\n"
''', '''    "  movq %r14, 56(%rdi)\\n"
    "  movq 56(%rsi), %r15\\n"
''')], 'a coroutine that keeps a value in register r15 across a switch', 'the register is lost', H + r'''
static void other(int argc, void *argv[]) { neco_yield(); neco_yield(); }
static void co(int argc, void *argv[]) {
    neco_start(other, 0); neco_start(other, 0);
    register long x __asm__("r15"), y __asm__("r14");
    x = 1234567; y = 42;
    __asm__ volatile("" : "+r"(x), "+r"(y));
    neco_yield();
    __asm__ volatile("" : "+r"(x), "+r"(y));
    long c = x, d = y;
    if (c != 1234567 || d != 42) { printf("r15 is %ld, r14 is %ld\n", c, d); exit(1); }
}
''' + M)
mk('c16-pool-cap', 'C16', [(N, '''        int cap = rt->zchanpoolcap == 0 ? 16 : rt->zchanpoolcap * 2;
        void *zchanpool2 = realloc0(rt->zchanpool, 
            sizeof(struct neco_chan) * (size_t)cap);
        if (!zchanpool2) {
            return false;
        }
        rt->zchanpoolcap = cap;
''', '''        rt->zchanpoolcap = rt->zchanpoolcap == 0 ? 16 : rt->zchanpoolcap * 2;
        void *zchanpool2 = realloc0(rt->zchanpool, 
            sizeof(struct neco_chan) * (size_t)rt->zchanpoolcap);
        if (!zchanpool2) {
            return false;
        }
''')], 'memory runs out while the pool of message-less channels grows, and another such channel is released later',
 'the pool is written beyond its memory', H + r'''
static int fail;
static void *re(void *p, size_t n) { return fail ? NULL : realloc(p, n); }
static void *ma(size_t n) { return fail ? NULL : malloc(n); }
static void co(int argc, void *argv[]) {
    neco_chan *c[20]; for (int i = 0; i < 20; i++) if (neco_chan_make(&c[i], 0, 0)) exit(3);
    fail = 1; neco_chan_release(c[0]); fail = 0;
    for (int i = 1; i < 20; i++) neco_chan_release(c[i]);
}
int main() { neco_env_setallocator(ma, re, free); return neco_start(co, 0) ? 1 : 0; }
''')
mk('c20-path-boundary', 'C20', [(N, '''    size_t naddr = strlen(addr);
    if (naddr > sizeof(unaddr.sun_path) - 1) {''', '''    size_t naddr = strlen(addr);
    if (naddr > sizeof(unaddr.sun_path)) {''')], 'a Unix path of exactly 108 bytes',
 'the path is truncated and the dial reaches the server of another path', H + r'''
static void co(int argc, void *argv[]) {
    char d[] = "XXXXXX"; if (!mkdtemp(d)) exit(3); if (chdir(d)) exit(3);
    char p[120]; memset(p, 'a', sizeof p); p[107] = 0; int s = neco_serve("unix", p); if (s < 0) exit(3);
    p[107] = 'b'; p[108] = 0; int f = neco_dial("unix", p); unlink((p[107] = 0, p)); printf("dial of 108 bytes: %d\n", f); exit(f == NECO_INVAL ? 0 : 1);
}
''' + M)
mk('c21-local-seed', 'C21', [(N, '''    struct coroutine *co = coself();
    while (1) {
        int ret = checkdl(co, deadline);
        if (ret != NECO_OK) {
            return ret;
        }
        if (nbytes == 0) {
            break;
        }
        size_t partsz''', '''    struct coroutine *co = coself();
    int64_t seed = rt->rand_seed;
    while (1) {
        int ret = checkdl(co, deadline);
        if (ret != NECO_OK) {
            return ret;
        }
        if (nbytes == 0) {
            break;
        }
        size_t partsz'''), (N, '''            pcgrandom_buf(data, partsz, &rt->rand_seed);
        }
        nbytes -= partsz;
        data = (char*)data + partsz;
        if (nbytes == 0) {
            break;''', '''            pcgrandom_buf(data, partsz, &seed);
        }
        nbytes -= partsz;
        data = (char*)data + partsz;
        if (nbytes == 0) {
            if (!arc4random_buf_l) {
                rt->rand_seed = seed;
            }
            break;''')], 'a request of more than 256 bytes that is canceled or times out on the way, or overlaps with another one or a change of the seed',
 'bytes of the sequence are produced twice, a seed set meanwhile is forgotten', H + r'''
static char a[1000], b[1000];
static void c(int argc, void *argv[]) { neco_rand(a, sizeof a, NECO_PRNG); }
static void co(int argc, void *argv[]) {
    neco_rand_setseed(7, NULL); neco_start(c, 0); neco_rand(b, sizeof b, NECO_PRNG);
    for (int i = 0; i < 20; i++) neco_yield();
    if (!memcmp(a, b, 256)) { puts("two requests got the same bytes"); exit(1); }
    int64_t old; neco_rand_setseed(9, &old); neco_rand_setseed(7, NULL); 
    char t[2000 + 4]; neco_rand(t, 500, NECO_PRNG); exit(0);
}
''' + M)
mk('c23-yield-guard', 'C23', [(N, '''int neco_yield(void) {
    int ret = yield();
    error_guard(ret);
    return ret;''', '''int neco_yield(void) {
    int ret = rt ? NECO_OK : NECO_PERM;
    error_guard(ret);
    if (ret == NECO_OK) {
        ret = yield();
    }
    return ret;''')], 'a yield while the other coroutines run failing operations',
 'after a successful yield the last error is the one of another coroutine', H + r'''
static void c(int argc, void *argv[]) { neco_sleep(NECO_MILLISECOND); neco_chan_send(NULL, NULL); }
static void co(int argc, void *argv[]) { neco_start(c, 0); int64_t t = neco_now(); while (neco_now() - t < 50 * NECO_MILLISECOND) { if (neco_yield() == NECO_OK && neco_lasterr() != NECO_OK) { printf("last error after yield: %d\n", neco_lasterr()); exit(1); } } exit(0); }
''' + M)
mk('c24-no-bus', 'C24', [(N, '''    for (size_t i = 0; i < sizeof(TRAPPED_SIGNALS)/sizeof(int); i++) {
        int signo = TRAPPED_SIGNALS[i];
        must(sigaction(signo, &act, &rt->sigold[signo]) == 0);
    }''', '''    sigaddset(&act.sa_mask, SIGSEGV);
    for (size_t i = 0; i < sizeof(TRAPPED_SIGNALS)/sizeof(int); i++) {
        int signo = TRAPPED_SIGNALS[i];
        if (signo == SIGTRAP && rt->sigold[SIGSEGV].sa_handler == SIG_DFL) {
            // Leave it to the debugger.
            must(sigaction(signo, NULL, &rt->sigold[signo]) == 0);
            continue;
        }
        must(sigaction(signo, &act, &rt->sigold[signo]) == 0);
    }''')], 'a trap instruction in a coroutine of a program that has no handlers of its own',
 'the trap ends the program without a report and with another status', H + r'''
#include <signal.h>
#include <sys/wait.h>
static void co(int argc, void *argv[]) { raise(SIGTRAP); }
int main() { pid_t p = fork(); if (!p) { close(2); _exit(neco_start(co, 0) ? 1 : 0); } int st; waitpid(p, &st, 0); printf("status %x\n", st); return WIFEXITED(st) && WEXITSTATUS(st) == 128 + SIGTRAP ? 0 : 1; }
''')
mk('c22-suspended-cancel', 'C22', [(N, '''    co->suspended = true;
    rt->nsuspended++;
    copause(deadline);
    rt->nsuspended--;
    co->suspended = false;
''', '''    co->suspended = true;
    rt->nsuspended++;
    copause(deadline);
    if (co->suspended) {
        rt->nsuspended--;
    }
    co->suspended = false;
'''), (N, '''    if (!co->suspended) {
        return NECO_NOTSUSPENDED;
    }
    sco_resume(co->id);''', '''    if (!co->suspended) {
        return NECO_NOTSUSPENDED;
    }
    // It's no longer suspended, even before it gets to run again.
    co->suspended = false;
    if (!co->deadlined) {
        rt->nsuspended--;
    }
    sco_resume(co->id);''')], 'a resume of a suspended coroutine in the same step in which its deadline expired',
 'the number of suspended coroutines never returns to zero', H + r'''
static int64_t id, dl;
static void a(int argc, void *argv[]) { neco_sleep_dl(dl); neco_resume(id); }
static void b(int argc, void *argv[]) { id = neco_getid(); neco_suspend_dl(dl); }
static void co(int argc, void *argv[]) {
    dl = neco_now() + 20 * NECO_MILLISECOND;
    neco_start(a, 0); neco_start(b, 0);
    neco_sleep(60 * NECO_MILLISECOND); neco_stats st; neco_getstats(&st);
    printf("%zu suspended\n", st.suspended); exit(st.suspended ? 1 : 0);
}
''' + M)
