// C16: resource failures at generated points of generated programs. Each step
// may run under a fault plan (which allocation, mapping, poller or thread
// call fails); the step must succeed or report the failure with no other
// effect, the same step must succeed afterwards, and nothing may be left when
// the runtime has ended.
#include "kit.h"
#include <pthread.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_mprotect(void *, size_t, int); int __real_epoll_create1(int); int __real_epoll_ctl(int, int, int, struct epoll_event *); int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
}
enum { F_ALLOC, F_MMAP, F_PROT, F_EPC, F_EPCTL, F_THREAD, NF };
static const char *FN[] = {"allocation", "mmap", "mprotect", "epoll_create", "epoll_ctl", "pthread_create"};
struct Plan { int kind = -1, at = 0, len = 0; }; // calls at..at+len-1 of that kind fail
static Plan plan; static int calls[NF], failed_[NF]; static int total_faults; extern long alloc_failed, alloc_fail_len;
static bool hit(int k) { if (plan.kind != k) return false; int c = ++calls[k]; if (c >= plan.at && c < plan.at + plan.len) { failed_[k]++; total_faults++; return true; } return false; }
static std::map<uintptr_t, uintptr_t> maps_; static int track;
static void unmap_range(uintptr_t a, uintptr_t e) { for (auto i = maps_.begin(); i != maps_.end();) { uintptr_t s = i->first, t = i->second; if (t <= a || s >= e) { ++i; continue; } i = maps_.erase(i); if (s < a) maps_[s] = a; if (t > e) maps_[e] = t; } }
extern "C" void *__wrap_mmap(void *p, size_t n, int pr, int fl, int fd, off_t o) { if (!(fl & MAP_FIXED) && hit(F_MMAP)) { errno = ENOMEM; return MAP_FAILED; } void *r = __real_mmap(p, n, pr, fl, fd, o); if (r != MAP_FAILED && track && !(fl & MAP_FIXED)) maps_[(uintptr_t)r] = (uintptr_t)r + n; return r; }
extern "C" int __wrap_munmap(void *p, size_t n) { int r = __real_munmap(p, n); if (!r && track) unmap_range((uintptr_t)p, (uintptr_t)p + n); return r; }
extern "C" int __wrap_mprotect(void *p, size_t n, int pr) { if (hit(F_PROT)) { errno = ENOMEM; return -1; } return __real_mprotect(p, n, pr); }
extern "C" int __wrap_epoll_create1(int f) { if (hit(F_EPC)) { errno = EMFILE; return -1; } return __real_epoll_create1(f); }
extern "C" int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) { if (hit(F_EPCTL)) { errno = op == EPOLL_CTL_MOD ? ENOENT : ENOSPC; return -1; } return __real_epoll_ctl(e, op, fd, ev); }
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *g) { if (hit(F_THREAD)) return EAGAIN; return __real_pthread_create(t, a, f, g); }
static void *(*a_malloc)(size_t); static void *(*a_realloc)(void *, size_t); static void (*a_free)(void *);
static void arm(const Plan &p) { plan = p; memset(calls, 0, sizeof calls); memset(failed_, 0, sizeof failed_); if (p.kind == F_ALLOC) { alloc_count = 0; alloc_fail_at = p.at; alloc_fail_len = p.len; } }
static int disarm() { plan.kind = -1; int n = 0; if (alloc_fail_at >= 0) { n += (int)alloc_failed; total_faults += (int)alloc_failed; alloc_failed = 0; } alloc_fail_at = -1; for (int i = 0; i < NF; i++) n += failed_[i]; return n; }

static int failed_now() { int n = (int)alloc_failed; for (int i = 0; i < NF; i++) n += failed_[i]; return n; }
enum { S_START, S_GEN, S_CHAN, S_STREAM, S_WAIT, S_READ, S_WORK, S_SERVE, S_SELECT, S_HOLD, S_FREE, S_SLEEP, NS };
static const char *SN[] = {"start", "generator", "channel", "stream", "wait", "read", "work", "serve+dial", "select", "hold coroutines", "free coroutines", "sleep"};
struct Step { int o; int a, b; Plan f; };
static std::vector<Step> prog; static std::vector<int64_t> held; static int nran; static uint64_t tokens; static bool stop; static int reported;
static uint64_t sum(int n) { uint64_t s = 0; for (int i = 0; i < n; i++) s += (uint64_t)(i + 3) * 7; return s; }
static uint64_t lastsum; static bool holdit;
static void child(int argc, void **argv) { uint64_t s = 0; for (int i = 0; i < argc; i++) s += (uint64_t)argv[i]; lastsum = s; nran++; if (holdit) { bool *alive = nullptr; (void)alive; neco_suspend(); } }
static int startn(int argc) { void *v[64]; for (int i = 0; i < argc && i < 64; i++) v[i] = (void *)(uintptr_t)((i + 3) * 7); if (argc == 5) return neco_start(child, 5, v[0], v[1], v[2], v[3], v[4]); return neco_startv(child, argc, v); }
// runs f under the fault plan; r: result; checks it is ok or an expected error, and that the failure had no effect
static bool expect(const Step &s, int64_t r, int faults, int e, bool okval) {
    int le = neco_lasterr();
    if (okval) { CHECK(le == NECO_OK, "lasterr", "%s succeeded but neco_lasterr() is %d", SN[s.o], le); return true; }
    CHECK(faults > 0, "error", "%s failed with %lld (errno %d) although no resource failed", SN[s.o], (long long)r, e); reported++;
    if (plan.kind < 0 && s.f.kind <= F_PROT) CHECK(r == NECO_NOMEM || (r == -1 && e == ENOMEM), "error", "%s: a failed %s is reported as %lld (errno %d), not as NOMEM", SN[s.o], FN[s.f.kind], (long long)r, e);
    if (r == NECO_NOMEM) CHECK(le == NECO_NOMEM, "lasterr", "%s: NOMEM is returned but neco_lasterr() is %d", SN[s.o], le); CHECK(le < 0, "lasterr", "%s failed but neco_lasterr() is %d", SN[s.o], le);
    return false;
}
static void drain_fd(int fd) { char b[512]; while (read(fd, b, sizeof b) > 0) {} }
static void step(const Step &s) {
    neco_stats s0, s1; vc_progress(); for (int i = 0; i < 3; i++) neco_yield(); neco_getstats(&s0); int fd0 = count_fds(); long al0 = alloc_live(); int64_t lid = neco_lastid(); int n0 = nran; (void)al0; bool done = false;
    for (int attempt = 0; attempt < 2 && !done; attempt++) { bool fault = attempt == 0 && s.f.kind >= 0; 
        switch (s.o) {
        case S_START: case S_HOLD: { int cnt = s.o == S_HOLD ? s.b : 1; done = true; for (int i = 0; i < cnt; i++) { holdit = s.o == S_HOLD; int a = s.a; lid = neco_lastid(); n0 = nran; neco_getstats(&s0); if (fault && i == cnt - 1) arm(s.f); errno = 0; int r = startn(a); int e = errno, f = fault && i == cnt - 1 ? disarm() : 0; bool ok = expect(s, r, f, e, r == NECO_OK); neco_getstats(&s1);
                if (ok) { CHECK(nran == n0 + 1 && lastsum == sum(a), "start", "the coroutine did not run at once with its %d arguments", a); if (s.o == S_HOLD) held.push_back(neco_lastid()); }
                else { done = false; CHECK(nran == n0, "effect", "neco_start reported %d but the coroutine ran", r); CHECK(s1.coroutines == s0.coroutines, "effect", "neco_start failed but there are %zu coroutines instead of %zu", (size_t)s1.coroutines, (size_t)s0.coroutines); CHECK(neco_lastid() == lid, "effect", "neco_start failed but neco_lastid() changed"); neco_yield(); neco_yield(); CHECK(nran == n0, "effect", "neco_start reported %d but the coroutine ran later", r); } } break; }
        case S_GEN: { static uint64_t n; n = (uint64_t)s.a; static bool ran; ran = false; neco_gen *g = nullptr; void *v[64]; for (int i = 0; i < 8; i++) v[i] = &n; if (fault) arm(s.f); int r = neco_gen_startv(&g, (size_t)(8 + s.b % 3 * 200), [](int, void **a) { ran = true; uint64_t k = *(uint64_t *)a[0]; static char big[600]; for (uint64_t i = 0; i < k; i++) { memcpy(big, &i, 8); neco_gen_yield(big); } }, s.b % 2 ? 8 : 1, v); int e = errno, f = fault ? disarm() : 0;
            if (expect(s, r, f, e, r == NECO_OK)) { char big[600]; uint64_t x; for (uint64_t i = 0; i < n; i++) { int q = neco_gen_next(g, big); memcpy(&x, big, 8); CHECK(q == NECO_OK && x == i, "generator", "next returned %d", q); } CHECK(neco_gen_next(g, big) == NECO_CLOSED, "generator", "not closed"); neco_gen_release(g); done = true; }
            else { neco_yield(); CHECK(!ran, "effect", "neco_gen_start failed but the generator ran"); neco_getstats(&s1); CHECK(s1.coroutines == s0.coroutines, "effect", "neco_gen_start failed but left a coroutine"); } break; }
        case S_CHAN: { static const int sz[] = {0, 1, 8, 200}; int n = s.a % 4 == 0 && s.b >= 36 ? (s.b - 35) * 160 : s.b % 40 + 1; std::vector<neco_chan *> cs; if (fault) arm(s.f); bool all = true; int f = 0; for (int i = 0; i < n; i++) { neco_chan *c = (neco_chan *)8; int r = neco_chan_make(&c, (size_t)sz[(s.a + (i % 5 == 4)) % 4], (size_t)(s.a / 4)); int e = errno; f = fault ? failed_now() : 0; if (expect(s, r, f, e, r == NECO_OK)) cs.push_back(c); else { all = false; } }
            for (auto c : cs) { char m[200]; memset(m, 7, sizeof m); if (s.a / 4) { int r = neco_chan_send(c, m); CHECK(r == NECO_OK, "channel", "send returned %d", r); memset(m, 0, sizeof m); r = neco_chan_recv(c, m); CHECK(r == NECO_OK, "channel", "recv returned %d", r); } neco_chan_close(c); neco_chan_release(c); }
            if (fault) disarm(); done = all; break; }
        case S_SELECT: { int n = s.a % 20 + 1; size_t sz = (size_t)(s.b % 2 ? 8 : 300); std::vector<neco_chan *> cs((size_t)n); std::vector<char> m(sz, 9); for (auto &c : cs) CHECK(neco_chan_make(&c, sz, 2) == NECO_OK, "channel", "make"); int which = s.b / 2 % n; neco_chan_send(cs[(size_t)which], m.data()); std::vector<neco_chan *> q(cs); if (fault) arm(s.f); int r = s.b % 3 ? neco_chan_selectv(n, q.data()) : neco_chan_tryselectv(n, q.data()); int e = errno, f = fault ? disarm() : 0;
            bool ok = expect(s, r, f, e, r >= 0); if (!ok) { q = cs; r = neco_chan_selectv(n, q.data()); CHECK(r >= 0, "effect", "a select that failed with NOMEM fails again: %d", r); } CHECK(r == which, "effect", "select returned %d instead of %d%s", r, which, ok ? "" : " after it failed once"); std::vector<char> g(sz, 0); int c = neco_chan_case(cs[(size_t)r], g.data()); CHECK(c == NECO_OK && g == m, "effect", "the message is damaged"); CHECK(neco_chan_tryrecv(cs[(size_t)which], g.data()) == NECO_EMPTY, "effect", "the message is there twice"); for (auto c : cs) neco_chan_release(c); done = true; break; }
        case S_STREAM: { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) inconclusive("socketpair"); neco_stream *st = nullptr; (void)!write(sv[1], "hello", 5); if (fault) arm(s.f); int r = s.a % 2 ? neco_stream_make_buffered(&st, sv[0]) : neco_stream_make(&st, sv[0]); int e = errno; bool ok = expect(s, r, fault ? failed_now() : 0, e, r == NECO_OK);
            if (ok) { int off = 0; for (int k = 0; k < 4; k++) { if ((s.b >> k) & 1) { if (off >= 4) continue; char b[8] = {0}; ssize_t n = neco_stream_read(st, b, 2); e = errno; if (!expect(s, n, fault ? failed_now() : 0, e, n == 2)) { disarm(); n = neco_stream_read(st, b, 2); CHECK(n == 2, "effect", "the read after a failed one returned %zd", n); } CHECK(!memcmp(b, "hello" + off, 2), "effect", "data was lost: %.2s", b); off += 2; }
                    else { ssize_t n = neco_stream_write(st, "xyz", 3); e = errno; if (!expect(s, n, fault ? failed_now() : 0, e, n == 3)) { disarm(); n = neco_stream_write(st, "xyz", 3); CHECK(n == 3, "effect", "the write after a failed one returned %zd", n); } n = neco_stream_flush(st); CHECK(n == NECO_OK, "stream", "flush returned %zd", n); char b[16] = {0}; ssize_t g = read(sv[1], b, 16); CHECK(g == 3 && !memcmp(b, "xyz", 3), "effect", "the written data did not arrive exactly once: %zd bytes", g); } }
                if (fault) disarm(); r = neco_stream_close(st); CHECK(r == NECO_OK, "stream", "close returned %d", r); done = true; }
            else { disarm(); CHECK(fcntl(sv[0], F_GETFL) >= 0, "effect", "a failed neco_stream_make closed the descriptor"); char b[8]; CHECK(read(sv[0], b, 5) == 5, "effect", "a failed neco_stream_make consumed data"); close(sv[0]); } close(sv[1]); break; }
        case S_WAIT: { int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipe"); int mode = s.a % 2 ? NECO_WAIT_READ : NECO_WAIT_WRITE; if (mode == NECO_WAIT_READ && s.b % 2) (void)!write(p[1], "x", 1); int64_t dlv = mode == NECO_WAIT_READ && s.b % 2 == 0 ? vc_now() + 3000000 : INT64_MAX; if (fault) arm(s.f); errno = 0; int r = neco_wait_dl(mode == NECO_WAIT_READ ? p[0] : p[1], mode, dlv); int e = errno, f = fault ? disarm() : 0, le = neco_lasterr(); neco_getstats(&s1); CHECK(s1.evwaiters == s0.evwaiters, "effect", "%zu coroutines wait for files", (size_t)s1.evwaiters);
            if (dlv != INT64_MAX && r == NECO_TIMEDOUT) done = true; else { done = r == NECO_OK; CHECK(done || f > 0, "error", "neco_wait returned %d without a failure", r); reported += !done; CHECK(done ? le == NECO_OK : le < 0, "lasterr", "neco_wait returned %d but neco_lasterr() is %d", r, le); } if (!done) CHECK(r == -1 && e != 0, "error", "neco_wait: %d", r); close(p[0]); close(p[1]); break; }
        case S_READ: { static int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipe"); static int delay; delay = s.b % 5; int64_t w = go([] { for (int i = 0; i < delay; i++) neco_sleep(500000); (void)!write(p[1], "data", 4); }); (void)w; char b[8] = {0}; if (fault) arm(s.f); ssize_t n = neco_read(p[0], b, 8); int e = errno, f = fault ? disarm() : 0; done = expect(s, n, f, e, n == 4); if (done) CHECK(!memcmp(b, "data", 4), "effect", "wrong data"); neco_sleep(5000000); close(p[0]); close(p[1]); break; }
        case S_WORK: { static int ran; ran = 0; if (fault) arm(s.f); int r = neco_work(s.b % 3 - 1, [](void *) { ran++; }, nullptr); int e = errno, f = fault ? disarm() : 0; done = expect(s, r, f, e, r == NECO_OK); CHECK(ran == (r == NECO_OK), "effect", "the task ran %d times, neco_work returned %d", ran, r); break; }
        case S_SERVE: { std::string path = scratch_dir() + "/s"; unlink(path.c_str()); const char *net = s.a % 2 ? "unix" : "tcp", *addr = s.a % 2 ? path.c_str() : "127.0.0.1:0"; if (fault && s.b % 2) arm(s.f); errno = 0; int fd = neco_serve(net, addr); int e = errno, f = fault && s.b % 2 ? disarm() : 0; bool ok = expect(s, fd, f, e, fd >= 0);
            if (ok) { std::string to = addr; if (s.a % 2 == 0) { struct sockaddr_in6 sa; socklen_t l = sizeof sa; getsockname(fd, (struct sockaddr *)&sa, &l); to = strf("127.0.0.1:%d", ntohs(sa.sin6_port)); } if (fault && s.b % 2 == 0) arm(s.f); errno = 0; int c = neco_dial(net, to.c_str()); e = errno; f = fault && s.b % 2 == 0 ? disarm() : 0; if (expect(s, c, f, e, c >= 0)) { int a = neco_accept(fd, nullptr, nullptr); CHECK(a >= 0, "accept", "accept %d", a); close(a); close(c); done = true; } close(fd); } break; }
        case S_FREE: { size_t n = std::min<size_t>(held.size(), (size_t)s.a + 1); for (size_t i = 0; i < n; i++) { int64_t id = held.back(); held.pop_back(); if (fault) arm(s.f); int r = s.b % 2 ? neco_resume(id) : neco_cancel(id); if (fault) disarm(); CHECK(r == NECO_OK, "free", "resume/cancel returned %d", r); neco_join(id); } done = true; break; }
        case S_SLEEP: { if (fault) arm(s.f); int r = neco_sleep(s.a * 30000000); if (fault) disarm(); CHECK(r == NECO_OK, "sleep", "sleep returned %d", r); done = true; break; }
        }
        if (!done) for (int i = 0; i < 3; i++) neco_yield();
        if (s.o != S_HOLD && s.o != S_FREE) { neco_sleep(1000000); vc_progress(); neco_getstats(&s1); CHECK(s1.coroutines == s0.coroutines - 0 || s.o == S_START, "effect", "%s: %zu coroutines before, %zu after", SN[s.o], (size_t)s0.coroutines, (size_t)s1.coroutines); }
        if (s.o != S_WAIT && s.o != S_READ && s.o != S_SERVE) { int fd1 = count_fds(); CHECK(fd1 <= fd0 + 1, "fdleak", "%s: %d descriptors before, %d after", SN[s.o], fd0, fd1); }
    }
    CHECK(done, "retry", "%s fails again although its resources are available now", SN[s.o]);
}
struct Env { struct sigaction sa[32]; stack_t ss; int fds; long al; int thr; };
static Env snap() { Env e; memset(&e, 0, sizeof e); for (int i = 1; i < 32; i++) sigaction(i, nullptr, &e.sa[i]); sigaltstack(nullptr, &e.ss); e.fds = count_fds(); e.al = alloc_live(); e.thr = count_threads(); return e; }
static void same(const Env &a, const char *when) { for (int i = 0; count_threads() > a.thr; i++) { if (i > 4000) fail("threadleak", "%s: %d threads are left", when, count_threads() - a.thr); usleep(1000); } Env b = snap(); CHECK(b.al == a.al, "leak", "%s: %ld blocks are left", when, b.al - a.al); CHECK(b.fds == a.fds, "fdleak", "%s: %d descriptors before, %d after", when, a.fds, b.fds); for (int i = 1; i < 32; i++) CHECK(a.sa[i].sa_handler == b.sa[i].sa_handler && !((a.sa[i].sa_flags ^ b.sa[i].sa_flags) & ~0x04000000), "handler", "%s: the handler of signal %d is not restored", when, i); CHECK(a.ss.ss_sp == b.ss.ss_sp && a.ss.ss_flags == b.ss.ss_flags, "sigstack", "%s: the signal stack is not restored", when); size_t left = 0; for (auto &m : maps_) left += m.second - m.first; CHECK(!left, "mapleak", "%s: %zu bytes of mappings are left", when, left); CHECK(neco_getid() == NECO_PERM, "runtime", "%s: still in a runtime", when); }
static Plan genplan(Src &s) { Plan p; p.kind = s.weighted({50, 16, 8, 10, 12, 4}); p.at = p.kind == F_ALLOC ? s.range(1, 5) : s.range(1, 3); p.len = s.pick({1, 1, 1, 2, 5, 1000000}); if (p.kind == F_THREAD || p.kind == F_EPC || p.kind == F_EPCTL) p.len = std::min(p.len, 5); return p; }
static void runprog() {
    stop = false; tokens = 0; static neco_chan *a, *b; CHECK(neco_chan_make(&a, 8, 0) == NECO_OK && neco_chan_make(&b, 8, 1) == NECO_OK, "channel", "make");
    static int pl; pl = 2; go([] { uint64_t v = 1; while (!stop) { if (neco_chan_send(a, &v) != NECO_OK) break; uint64_t w = 0; if (neco_chan_recv(b, &w) != NECO_OK) break; CHECK(w == v + 1, "effect", "the token is damaged"); v = w; tokens++; neco_sleep(400000); } neco_chan_close(a); pl--; }); go([] { uint64_t v; while (neco_chan_recv(a, &v) == NECO_OK) { v++; neco_chan_send(b, &v); } pl--; });
    int64_t k0 = -1; (void)k0; for (auto &s : prog) { uint64_t t0 = tokens; step(s); neco_sleep(2000000); CHECK(tokens > t0, "effect", "the other coroutines stopped after step %s", SN[s.o]); }
    for (auto id : held) { neco_resume(id); neco_join(id); } held.clear(); stop = true; while (pl) neco_sleep(100000); neco_chan_release(a); neco_chan_release(b);
}
static std::string genprog(Src &src, int lo, int hi) { std::string t; prog.clear(); int n = src.range(lo, hi); for (int i = 0; i < n; i++) { Step s; s.o = src.weighted({12, 12, 14, 14, 9, 9, 4, 7, 12, 14, 8, 4}); s.a = src.range(0, s.o == S_START || s.o == S_HOLD ? 8 : s.o == S_SLEEP ? 8 : 11); s.b = src.range(s.o == S_HOLD, s.o == S_HOLD ? 40 : 39); if (src.chance(75)) { s.f = genplan(src); if (src.chance(70)) { static const int pref[NS] = {F_ALLOC, F_ALLOC, F_ALLOC, F_ALLOC, F_EPC, F_EPCTL, F_THREAD, F_ALLOC, F_ALLOC, F_MMAP, F_ALLOC, F_ALLOC}; s.f.kind = pref[s.o]; if (s.f.kind == F_EPC && s.b % 3) s.f.kind = F_EPCTL; if (s.o == S_HOLD && s.b % 2) s.f.kind = F_ALLOC; s.f.at = src.range(1, s.f.kind == F_ALLOC ? 4 : 2); s.f.len = src.pick({1, 1, 2, 5}); } } if (s.o == S_WORK && s.f.kind == F_THREAD) s.f.len = std::min(s.f.len, 5); prog.push_back(s); t += strf("%s(%d,%d)", SN[s.o], s.a, s.b); if (s.f.kind >= 0) t += strf(" with %s %d", FN[s.f.kind], s.f.at) + (s.f.len > 1 ? strf("..%d", s.f.at + s.f.len - 1) : "") + " failing"; t += "\n"; } return t; }
PROP(c16p, "at least one injected failure was hit and reported by an operation, and the program went on") {
    std::string t = genprog(src, 1, 14); kit_begin(t); vc_begin(1000, 0); alloc_install(); track = 1; total_faults = reported = 0; held.clear(); Env e = snap();
    int rounds = src.pick({1, 1, 2}); for (int r = 0; r < rounds; r++) { int rc = go([] { runprog(); }); CHECK(rc == NECO_OK, "runtime", "neco_start returned %d", rc); same(e, "after the runtime"); }
    nontrivial(reported >= 1); count("failures injected", (uint64_t)total_faults); count("errors reported", (uint64_t)reported);
}
// Starting the runtime itself, with every resource failing in turn.
static bool inthread; static int rt_at, rt_kind, rt_len; static bool rt_ran; static int rt_rc;
static void *rt_try(void *) { Plan p; p.kind = rt_kind; p.at = rt_at; p.len = rt_len; arm(p); rt_ran = false; rt_rc = neco_start([](int, void **) { disarm(); rt_ran = true; for (int i = 0; i < 3; i++) { go([] { neco_yield(); }); neco_sleep(1000); } }, 0); return nullptr; }
PROP(c16s, "the runtime was refused at least once before it could be started") {
    inthread = src.chance(30); rt_kind = src.weighted({70, 20, 10}); int from = src.range(1, 150), cnt = src.range(1, 12); rt_len = src.pick({1, 1, 3, 1000}); if (rt_kind != F_ALLOC) from = src.range(1, 2);
    kit_begin(strf("start a runtime %s with %s %d.. failing (%d calls), %d times, then start it for good", inthread ? "in another thread" : "in the main thread", FN[rt_kind], from, rt_len, cnt)); alloc_install(); track = 1; Env e = snap(); int refused = 0;
    for (int i = 0; i < cnt; i++) { rt_at = from + i; if (inthread) { pthread_t th; __real_pthread_create(&th, nullptr, rt_try, nullptr); pthread_join(th, nullptr); } else rt_try(nullptr); int f = disarm();
        if (rt_rc == NECO_OK) CHECK(rt_ran, "effect", "neco_start succeeded but the coroutine did not run"); else { CHECK(rt_rc == NECO_NOMEM, "error", "starting the runtime with a failing %s returned %d", FN[rt_kind], rt_rc); CHECK(f > 0, "error", "NOMEM without a failure"); CHECK(!rt_ran, "effect", "neco_start failed but the coroutine ran"); refused++; } same(e, "after starting the runtime failed"); }
    rt_kind = -1; if (!inthread) { rt_try(nullptr); CHECK(rt_rc == NECO_OK && rt_ran, "retry", "the runtime can not be started any more: %d", rt_rc); same(e, "after the runtime"); }
    nontrivial(refused >= 1); count("refused", (uint64_t)refused);
}
