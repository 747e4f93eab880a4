// C18: background work. Generated programs submit tasks with pins from many
// coroutines; the threads' timing, idle expiry and creation are perturbed at
// the pthread interface; the oracle is a per-task record (runs, thread,
// begin/end, effects) and per-pin exclusion and order.
#include "kit.h"
#include <atomic>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
}
static std::atomic<int> unclaimed{0}; // threads neither joined nor detached
static std::atomic<int> fail_creates{0}, ncreate{0}, nfailed{0}, nexpire{0}; static int failpat; static int expire_us = -1, jitter, latepct; static std::atomic<int> nlate{0}; static std::atomic<uint64_t> jit{1}; static std::atomic<uint64_t> heart{0};
static uint64_t rnd() { return mix64(jit.fetch_add(1)); }
static void wobble() { if (!jitter) return; uint64_t r = rnd(); if (r % 100 < (uint64_t)jitter) { if (r & 1 << 20) sched_yield(); else { struct timespec t = {0, (long)(r >> 32) % 60000}; nanosleep(&t, nullptr); } } }
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *g) {
    int n = ncreate++;
    if (fail_creates > 0 && (failpat == 0 || n % 2 == 0)) { fail_creates--; nfailed++; return EAGAIN; }
    int ds = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &ds);
    if (ds == PTHREAD_CREATE_JOINABLE) unclaimed++;
    int r = __real_pthread_create(t, a, f, g); if (r && ds == PTHREAD_CREATE_JOINABLE) unclaimed--;
    return r;
}
extern "C" int __wrap_pthread_join(pthread_t t, void **v) { int r = __real_pthread_join(t, v); if (!r) unclaimed--; return r; }
extern "C" int __wrap_pthread_detach(pthread_t t) { int r = __real_pthread_detach(t); if (!r) unclaimed--; return r; }
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    // a wait may time out at the very moment it is signaled: the result says so and yet there is something to do
    auto late = [](int r) { if (r == 0 && latepct && rnd() % 100 < (uint64_t)latepct) { nlate++; return ETIMEDOUT; } return r; };
    if (expire_us < 0) return late(__real_pthread_cond_timedwait(c, m, ts));
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); int64_t add = expire_us ? (int64_t)(rnd() % (uint64_t)expire_us) * 1000 : 0; int64_t ns = t.tv_nsec + add; t.tv_sec += ns / 1000000000; t.tv_nsec = ns % 1000000000; nexpire++;
    return late(__real_pthread_cond_timedwait(c, m, &t));
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { wobble(); return __real_pthread_mutex_lock(m); }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); wobble(); return r; }

enum { T_QUICK, T_SLEEP, T_SPIN, T_GATE, T_API, T_BARRIER };
static const char *TN[] = {"quick", "sleeping", "spinning", "waiting for other coroutines", "calling neco", "meeting the others"};
struct Task { int64_t pin; int kind; int us; std::atomic<int> runs{0}, state{0}; pid_t tid = 0; uint64_t in = 0, out = 0; bool bad = false; int64_t gate = 0; int seq = 0; };
enum { S_WORK, S_YIELD, S_SLEEP, S_CANCEL, S_DISABLE, S_START };
struct St { int o; int64_t pin; int kind; int us; int target; };
struct Co { std::vector<St> plan; int64_t id = 0; bool started = false, ended = false, inwork = false; int pend = 0; bool canceler = false; };
static std::deque<Co> K; static std::deque<Task> T; static pid_t maintid; static std::atomic<int64_t> ticks{0}; static std::map<int64_t, std::atomic<int>> busy; static std::map<int64_t, std::vector<Task *>> begun; static pthread_mutex_t bmu = PTHREAD_MUTEX_INITIALIZER;
static int outstanding, maxout, nlive, overlap_seen; static std::atomic<int> running{0}, maxrun{0}, meet{0}; static int meetn; static std::atomic<bool> err{false}; static char errmsg[200];
static void bad(const char *m) { bool f = false; if (err.compare_exchange_strong(f, true)) snprintf(errmsg, sizeof errmsg, "%s", m); }
static void worker_fn(void *u) {
    Task *t = (Task *)u; heart++; int r = ++running; int mx = maxrun; while (r > mx && !maxrun.compare_exchange_weak(mx, r)) {}
    t->tid = (pid_t)syscall(SYS_gettid); if (t->runs++) bad("a task ran more than once"); t->state = 1;
    std::atomic<int> *b = nullptr; if (t->pin >= 0) { __real_pthread_mutex_lock(&bmu); b = &busy[t->pin]; begun[t->pin].push_back(t); __real_pthread_mutex_unlock(&bmu); if ((*b)++) bad("two tasks with the same pin ran at the same time"); }
    switch (t->kind) {
    case T_SLEEP: usleep((useconds_t)t->us); break;
    case T_SPIN: { int64_t e = real_now() + t->us * 1000; while (real_now() < e) {} break; }
    case T_GATE: while (ticks < t->gate && !err) { usleep(20); } break;
    case T_API: { neco_chan *c = nullptr; int64_t x; if (neco_getid() != NECO_PERM || neco_yield() != NECO_PERM || neco_sleep(1) != NECO_PERM || neco_chan_make(&c, 8, 0) != NECO_PERM || neco_cancel(1) != NECO_PERM || neco_suspend() != NECO_PERM || neco_work(-1, worker_fn, t) != NECO_PERM || neco_read(0, &x, 1) != -1 || errno != EPERM) bad("a neco operation called inside of a task was not refused"); break; }
    case T_BARRIER: meet++; { int64_t e = real_now() + 8000000000; while (meet < meetn && !err) { usleep(20); if (real_now() > e) bad("unpinned tasks submitted one after the other do not run side by side"); } } break;
    }
    t->out = mix64(t->in); if (b) (*b)--; running--; t->state = 2;
}
static void do_work(int i, St &s, bool bar = false) {
    Co &k = K[(size_t)i]; T.emplace_back(); Task *t = &T.back(); t->pin = s.pin; t->kind = bar ? T_BARRIER : s.kind; t->us = s.us; t->in = 77 + T.size(); t->gate = ticks + s.us % 7 + 1; t->seq = (int)T.size();
    outstanding++; maxout = std::max(maxout, outstanding); k.inwork = true; int64_t tk = ticks; 
    int r = neco_work(s.pin, worker_fn, t); int le = neco_lasterr(); k.inwork = false; outstanding--; heart++;
    int st = t->state, rn = t->runs; uint64_t out = t->out; if (ticks > tk) overlap_seen++;
    CHECK(r == NECO_OK && le == NECO_OK, "result", "neco_work returned %d, neco_lasterr() is %d", r, le);
    CHECK(st == 2, "early", "neco_work with pin %lld returned but its task %s", (long long)s.pin, st == 0 ? "was not run" : "is still running"); CHECK(rn == 1, "twice", "a task ran %d times", rn);
    CHECK(out == mix64(t->in), "effects", "the effects of the finished task are not visible");
    CHECK((pid_t)syscall(SYS_gettid) == maintid, "thread", "the coroutine continues on another thread"); CHECK(neco_getid() == k.id, "identity", "the wrong coroutine continues");
#ifndef FOREGROUND
    CHECK(t->tid != maintid, "thread", "the task ran on the thread of the runtime");
#endif
}
static void got(Co &k, int r, const char *op) { if (r == NECO_CANCELED) { CHECK(k.pend, "spurious-cancel", "%s reports canceled but nobody canceled the coroutine", op); k.pend = 0; } else CHECK(k.pend != 1, "lost-cancel", "the coroutine was canceled while it waited for its task, but the next operation (%s) returned %d", op, r); }
static void runco(int i) {
    Co &k = K[(size_t)i];
    for (auto &s : k.plan) {
        heart++;
        switch (s.o) {
        case S_WORK: do_work(i, s); break;
        case S_YIELD: neco_yield(); break;
        case S_SLEEP: { bool p = k.pend; int r = neco_sleep(s.us * 1000); if (p || r == NECO_CANCELED) got(k, r, "sleep"); else if (k.pend) k.pend = 2; break; }
        case S_CANCEL: { Co &t = K[(size_t)s.target % K.size()]; if (!t.started || t.ended || t.canceler) break; t.pend = 1; int r = neco_cancel(t.id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); break; }
        }
    }
    k.ended = true; nlive--;
}
static void *watchdog(void *) {
    uint64_t last = ~0ull; int same = 0;
    for (;;) { usleep(50000); if (err) fail("task", "%s", errmsg); uint64_t h = heart; if (h != last) { last = h; same = 0; } else if (++same > 160) fail("hang", "no task and no coroutine made progress for 8 s (%d tasks outstanding, %d running)", outstanding, (int)running); }
}
// The submitter goes on when its task is done, not when the next timer or file event comes.
static int prompt_;
static void promptly() {
    static int pp[2]; int64_t sid = 0; if (prompt_ & 1) { if (pipe2(pp, O_NONBLOCK)) inconclusive("pipe"); go([] { char c; neco_read(pp[0], &c, 1); }); }
    if (prompt_ & 2) { go([] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_sleep(3600 * NECO_SECOND); }); sid = neco_lastid(); }
    static std::atomic<int64_t> end; int64_t best = INT64_MAX; for (int i = 0; i < 5 && best > 250000000; i++) { end = 0; int r = neco_work(i - 1, [](void *) { usleep(300); end = real_now(); heart++; }, nullptr); CHECK(r == NECO_OK && end, "result", "neco_work returned %d", r); best = std::min(best, real_now() - end); heart++; }
    CHECK(best <= 250000000, "late", "five times in a row the coroutine went on more than %lld ms after its task was done", (long long)(best / 1000000));
    if (prompt_ & 1) { (void)!write(pp[1], "x", 1); neco_sleep(1000000); close(pp[0]); close(pp[1]); } if (sid) neco_cancel(sid);
}
static void drive(const std::string &t) {
    kit_begin(t); maintid = (pid_t)syscall(SYS_gettid); ticks = 0; nlive = 0; pthread_t w; __real_pthread_create(&w, nullptr, watchdog, nullptr); int th0 = count_threads();
    run_rt([&] {
        for (int i = 0; i < (int)K.size(); i++) { nlive++; go([i] { Co &k = K[(size_t)i]; k.id = neco_getid(); k.started = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); runco(i); }); }
        if (meetn) { // unpinned tasks that can only finish together
            static int left; left = meetn; for (int i = 0; i < meetn; i++) { K.emplace_back(); int me = (int)K.size() - 1; (void)me; }
            int base = (int)K.size() - meetn; while (nlive) { ticks++; neco_sleep(50000); }
            for (int i = 0; i < meetn; i++) go([base, i] { Co &k = K[(size_t)(base + i)]; k.id = neco_getid(); St s{S_WORK, -1, T_BARRIER, 0, 0}; do_work(base + i, s, true); k.ended = true; left--; });
            while (left) { ticks++; neco_sleep(50000); }
        }
        while (nlive) { ticks++; if (ticks & 1) neco_yield(); else neco_sleep(20000); }
        if (prompt_) promptly();
    });
    for (auto &t : T) CHECK(t.runs == 1 && t.state == 2, "runs", "a task ran %d times", (int)t.runs); if (err) fail("task", "%s", errmsg);
    if (maxout <= 30 && !nfailed && expire_us < 0) for (auto &b : begun) for (size_t i = 1; i < b.second.size(); i++) CHECK(b.second[i - 1]->seq < b.second[i]->seq, "order", "tasks with pin %lld did not run in the order of their submission", (long long)b.first);
    for (int i = 0; count_threads() > th0; i++) { if (i > 4000) fail("threadleak", "%d threads are left after the runtime ended", count_threads() - th0); usleep(1000); }
    for (int i = 0; unclaimed > 0; i++) { if (i > 4000) fail("threadleak", "%d threads were neither joined nor detached after the runtime ended", (int)unclaimed); usleep(1000); }
    nontrivial(T.size() >= 4 && maxout >= 2); if (nfailed) label("thread creation failed"); if (maxout > 32) label("more tasks than queue slots"); if (nexpire) label("idle threads expire"); if (nlate) label("timed out while signaled"); if (meetn) label("tasks meet"); count("tasks", T.size()); count("ran side by side", maxrun > 1); count("coroutines ran meanwhile", overlap_seen > 0);
}
static int64_t genpin(Src &s, int style) { switch (style) { case 0: return s.range(-1, 3); case 1: return -1; case 2: return 5; default: return s.pick<int64_t>({-1, 0, 1, 63, 64, 65, 127, 1000000007, INT64_MAX, INT64_MIN, -2, 5, 5 + 64}); } }
PROP(c18, "at least 4 tasks, 2 or more of them outstanding at once") {
    int shape = src.weighted({50, 25, 12, 13}); int n = shape == 2 ? src.range(34, 80) : shape == 3 ? src.range(33, 300) : src.range(1, 12); int style = shape == 2 ? 2 : shape == 3 ? src.pick({0, 1, 3}) : src.weighted({40, 15, 15, 30});
    expire_us = src.pick({-1, -1, 0, 30, 300}); latepct = src.pick({0, 0, 30, 100}); nlate = 0; jitter = src.pick({0, 0, 5, 30}); jit = 1 + src.draw(1000000); fail_creates = src.chance(20) ? src.range(1, 60) : 0; failpat = (int)src.draw(2); meetn = src.chance(15) && fail_creates == 0 ? src.range(2, 8) : 0; prompt_ = src.chance(40) ? src.range(1, 3) : 0;
    std::string t = strf("waits that time out while signaled: %d%%, idle threads expire: %s, perturbation %d%%, failing thread creations: %d%s, tasks that meet: %d, at the end others wait for %s\n", latepct, expire_us < 0 ? "after 1 s" : strf("within %d us", expire_us).c_str(), jitter, (int)fail_creates, failpat ? " (every other)" : "", meetn, prompt_ == 0 ? "nothing" : prompt_ == 1 ? "a file" : prompt_ == 2 ? "a distant time" : "a file and a distant time");
    K.clear(); K.resize((size_t)n);
    for (int i = 0; i < n; i++) { Co &k = K[(size_t)i]; int m = shape >= 2 ? src.range(1, 2) : src.range(1, 8); t += strf("c%d:", i);
        for (int j = 0; j < m; j++) { St s; s.o = shape >= 2 ? S_WORK : src.weighted({60, 12, 14, 14}); s.pin = genpin(src, style); s.kind = shape >= 2 ? src.pick({T_QUICK, T_QUICK, T_SLEEP}) : src.weighted({30, 25, 10, 20, 15}); s.us = src.range(0, 20) * (shape >= 2 ? 3 : 15); s.target = src.range(0, n - 1); k.plan.push_back(s); if (s.o == S_CANCEL) k.canceler = true;
            switch (s.o) { case S_WORK: t += strf(" work(pin %lld, %s %d us);", (long long)s.pin, TN[s.kind], s.us); break; case S_YIELD: t += " yield;"; break; case S_SLEEP: t += strf(" sleep %d us;", s.us); break; case S_CANCEL: t += strf(" cancel c%d;", s.target); break; } }
        t += "\n"; }
    drive(t);
}
