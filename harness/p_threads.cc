// C19: runtimes in several threads at once. Each generated set of programs is
// first run alone, one program after the other, then at the same time in
// several threads; results must agree and identifiers must be unique. c19o
// calls every operation outside a coroutine, or on another runtime's objects.
#include "kit.h"
#include <atomic>
#include <netdb.h>
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/syscall.h>
struct Rt { std::vector<int> prog; uint64_t seed; bool main = false; int thr = 0; std::vector<int64_t> ids; std::vector<uint64_t> dig; std::string err; int nco = 0; };
static void ent(int, void **argv) { Fn *f = (Fn *)argv[0]; Fn g = *f; delete f; g(); }
struct Ctx { Rt *rt; uint64_t r; uint64_t d; 
    uint64_t rnd() { return r = mix64(r); } int range(int a, int b) { return a + (int)(rnd() % (uint64_t)(b - a + 1)); }
    void h(uint64_t v) { d = mix64(d * 31 + v); } void bag(uint64_t v) { d += mix64(v); }
    int64_t go(Fn f) { Rt *q = rt; int r = neco_start(ent, 1, new Fn([q, f] { int64_t me = neco_getid(); q->ids.push_back(me); f(); if (neco_getid() != me) q->err = "neco_getid() of a coroutine changed"; })); if (r != NECO_OK) { rt->err = strf("neco_start returned %d", r); return -1; } return neco_lastid(); }
    void ok(int r, const char *w) { if (r != NECO_OK) rt->err = strf("%s returned %d", w, r); } };
static void p_chan(Ctx &c) { int np = c.range(1, 4), nc = c.range(1, 4), per = c.range(1, 12), cap = c.range(0, 3); neco_chan *ch; c.ok(neco_chan_make(&ch, 8, (size_t)cap), "chan_make"); neco_waitgroup wg, wp; neco_waitgroup_init(&wg); neco_waitgroup_init(&wp); neco_waitgroup_add(&wg, nc); neco_waitgroup_add(&wp, np);
    for (int i = 0; i < nc; i++) c.go([&, i] { uint64_t v; while (neco_chan_recv(ch, &v) == NECO_OK) { c.h(v * 16 + (uint64_t)i); if (v % 3 == 0) neco_yield(); } neco_waitgroup_done(&wg); });
    for (int i = 0; i < np; i++) c.go([&, i] { for (int j = 0; j < per; j++) { uint64_t v = (uint64_t)i << 32 | (uint64_t)j; c.ok(neco_chan_send(ch, &v), "send"); if (j % 2) neco_yield(); } neco_waitgroup_done(&wp); });
    neco_waitgroup_wait(&wp); neco_chan_close(ch); neco_waitgroup_wait(&wg); neco_chan_release(ch); }
static void p_mutex(Ctx &c) { int n = c.range(2, 8), k = c.range(1, 6); neco_mutex mu; neco_mutex_init(&mu); neco_waitgroup wg; neco_waitgroup_init(&wg); neco_waitgroup_add(&wg, n); int in = 0;
    for (int i = 0; i < n; i++) c.go([&, i] { for (int j = 0; j < k; j++) { c.ok(neco_mutex_lock(&mu), "lock"); if (in++) c.rt->err = "two coroutines hold a mutex"; neco_yield(); c.h((uint64_t)i); in--; neco_mutex_unlock(&mu); } neco_waitgroup_done(&wg); }); neco_waitgroup_wait(&wg); }
static void p_cond(Ctx &c) { int n = c.range(1, 8); neco_mutex mu; neco_mutex_init(&mu); neco_cond cv; neco_cond_init(&cv); neco_waitgroup wg; neco_waitgroup_init(&wg); neco_waitgroup_add(&wg, n); int open = 0, in = 0;
    for (int i = 0; i < n; i++) c.go([&, i] { neco_mutex_lock(&mu); in++; while (!open) c.ok(neco_cond_wait(&cv, &mu), "cond_wait"); c.h((uint64_t)i + 5); neco_mutex_unlock(&mu); neco_waitgroup_done(&wg); });
    while (in < n) neco_yield(); neco_mutex_lock(&mu); open = 1; neco_mutex_unlock(&mu); if (n & 1) neco_cond_broadcast(&cv); else for (int i = 0; i < n; i++) neco_cond_signal(&cv); neco_waitgroup_wait(&wg); }
static void p_gen(Ctx &c) { int n = c.range(0, 20), stop = c.range(0, 20); neco_gen *g; struct A { int n; Ctx *c; } a{n, &c}; 
    c.ok(neco_gen_start(&g, 8, [](int, void **v) { A *a = (A *)v[0]; a->c->rt->ids.push_back(neco_getid()); for (uint64_t i = 0; i < (uint64_t)a->n; i++) { uint64_t x = i * i; if (neco_gen_yield(&x) != NECO_OK) break; } }, 1, &a), "gen_start");
    uint64_t x; int k = 0; while (k < stop && neco_gen_next(g, &x) == NECO_OK) { c.h(x); k++; } if (k != std::min(n, stop)) c.rt->err = strf("a generator of %d values gave %d", n, k); neco_gen_close(g); while (neco_gen_next(g, &x) == NECO_OK) {} neco_gen_release(g); neco_yield(); neco_yield(); }
static void p_select(Ctx &c) { int n = c.range(1, 12); std::vector<neco_chan *> ch((size_t)n), cs((size_t)n); std::vector<uint64_t> v((size_t)n); for (int i = 0; i < n; i++) neco_chan_make(&ch[(size_t)i], 8, (size_t)(i % 3)); int per = c.range(1, 5), tot = n * per; neco_waitgroup wg; neco_waitgroup_init(&wg); neco_waitgroup_add(&wg, n);
    for (int i = 0; i < n; i++) c.go([&, i] { for (int j = 0; j < per; j++) { uint64_t x = (uint64_t)(i * 100 + j); c.ok(neco_chan_send(ch[(size_t)i], &x), "send"); } neco_waitgroup_done(&wg); });
    for (int k = 0; k < tot; k++) { std::vector<neco_chan *> q(ch); int s; (void)cs; switch (n) { case 1: s = neco_chan_select(1, q[0]); break; case 2: s = neco_chan_select(2, q[0], q[1]); break; default: s = neco_chan_selectv(n, q.data()); } if (s < 0 || s >= n) { c.rt->err = strf("select returned %d", s); break; } uint64_t x = 0; c.ok(neco_chan_case(ch[(size_t)s], &x), "case"); c.h(x); }
    (void)v; for (auto x : ch) neco_chan_close(x); neco_waitgroup_wait(&wg); for (auto x : ch) neco_chan_release(x); }
static void p_cancel(Ctx &c) { int n = c.range(1, 8); std::vector<int64_t> id; for (int i = 0; i < n; i++) id.push_back(c.go([&, i] { struct A { Ctx *c; int i; } a{&c, i}; neco_cleanup_push([](void *u) { A *a = (A *)u; a->c->h((uint64_t)a->i); }, &a); neco_suspend(); c.rt->err = "a canceled coroutine went on"; neco_cleanup_pop(0); }));
    for (int i = n; i-- > 0;) { c.ok(neco_cancel(id[(size_t)i]), "cancel"); neco_join(id[(size_t)i]); } }
static void p_rand(Ctx &c) { int64_t o; neco_rand_setseed((int64_t)c.rnd(), &o); unsigned char b[700]; size_t n = (size_t)c.range(0, 700); c.ok(neco_rand(b, n, NECO_PRNG), "rand"); for (size_t i = 0; i < n; i++) c.h(b[i]); uint64_t x = 0; c.ok(neco_rand(&x, 8, NECO_CSPRNG), "rand"); neco_rand_setseed(o, nullptr); }
static void p_io(Ctx &c) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) return; size_t n = (size_t)c.range(1, 60000); uint64_t s0 = c.rnd(); bool done = false;
    c.go([&] { neco_stream *s; c.ok(neco_stream_make_buffered(&s, sv[0]), "stream"); std::vector<unsigned char> b(n); uint64_t r = s0; for (auto &x : b) { r = mix64(r); x = (unsigned char)r; } size_t o = 0; while (o < n) { size_t k = std::min<size_t>(n - o, 1 + r % 9000); ssize_t w = neco_stream_write(s, &b[o], k); if (w != (ssize_t)k) { c.rt->err = "stream write"; break; } o += k; r = mix64(r); } neco_stream_close(s); done = true; });
    std::vector<unsigned char> g(n + 10); size_t got = 0; for (;;) { ssize_t k = neco_read(sv[1], &g[got], std::min<size_t>(n + 10 - got, 5000)); if (k <= 0) break; got += (size_t)k; } if (got != n) c.rt->err = strf("%zu bytes written, %zu read", n, got); uint64_t r = s0; for (size_t i = 0; i < std::min(n, got); i++) { r = mix64(r); if (g[i] != (unsigned char)r) { c.rt->err = "wrong data read"; break; } } close(sv[1]); while (!done) neco_yield(); c.h(got); }
static void p_work(Ctx &c) { int n = c.range(1, 6); neco_waitgroup wg; neco_waitgroup_init(&wg); neco_waitgroup_add(&wg, n); std::vector<uint64_t> v((size_t)n); for (int i = 0; i < n; i++) c.go([&, i] { v[(size_t)i] = (uint64_t)i; c.ok(neco_work(i % 2 ? -1 : i, [](void *u) { uint64_t *x = (uint64_t *)u; *x = mix64(*x); }, &v[(size_t)i]), "work"); c.bag(v[(size_t)i]); neco_waitgroup_done(&wg); }); neco_waitgroup_wait(&wg); }
static void p_sleep(Ctx &c) { int n = c.range(1, 8); neco_waitgroup wg; neco_waitgroup_init(&wg); neco_waitgroup_add(&wg, n); for (int i = 0; i < n; i++) { int64_t d = (int64_t)(c.rnd() % 3000000); c.go([&, d] { int64_t t = neco_now(); c.ok(neco_sleep(d), "sleep"); if (neco_now() - t < d) c.rt->err = "sleep ended early"; c.bag((uint64_t)d); neco_waitgroup_done(&wg); }); } neco_waitgroup_wait(&wg); }
static void p_spawn(Ctx &c) { int n = c.range(1, 120); int left = n; for (int i = 0; i < n; i++) c.go([&, i] { volatile char b[2000]; b[i % 2000] = (char)i; if (i % 3) neco_yield(); if (b[i % 2000] != (char)i) c.rt->err = "the stack of a coroutine changed"; c.h((uint64_t)i); left--; }); while (left) neco_yield(); }
static void p_ring(Ctx &c) { int n = c.range(2, 8), rounds = c.range(1, 5); std::vector<int64_t> id((size_t)n, 0); int left = n; for (int i = 0; i < n; i++) c.go([&, i] { id[(size_t)i] = neco_getid(); for (int r = 0; r < rounds; r++) { c.ok(neco_suspend(), "suspend"); c.h((uint64_t)i); int64_t nx = id[(size_t)((i + 1) % n)]; if (i + 1 < n) c.ok(neco_resume(nx), "resume"); } left--; });
    for (int r = 0; r < rounds; r++) { c.ok(neco_resume(id[0]), "resume"); for (int k = 0; k < n + 2; k++) neco_yield(); } int guard = 0; while (left && guard++ < 1000) neco_yield(); if (left) c.rt->err = "a resumed coroutine did not go on"; }
static void p_stats(Ctx &c) { int n = c.range(0, 9); neco_stats a, b, d; do { neco_yield(); neco_getstats(&a); } while (a.coroutines > 1); bool go = false; std::vector<int64_t> id; for (int i = 0; i < n; i++) id.push_back(c.go([&] { neco_suspend(); })); neco_getstats(&b); if (b.coroutines != a.coroutines + (size_t)n || b.suspended != a.suspended + (size_t)n) c.rt->err = strf("%d coroutines were started and suspended, statistics report %zd and %zd more", n, b.coroutines - a.coroutines, b.suspended - a.suspended); (void)go; for (auto i : id) { neco_resume(i); neco_join(i); } neco_getstats(&d); c.h(n); }
static void p_gai(Ctx &c) { int k = c.range(0, 1), rep = c.range(1, 3); for (int j = 0; j < rep; j++) { int r = k ? neco_dial("tcp6", "127.0.0.1:80") : neco_dial("tcp", "127.0.0.1:no-such-service"); int want = k ? EAI_ADDRFAMILY : EAI_SERVICE; c.h((uint64_t)(uint32_t)r); if (r != NECO_GAIERROR) { c.rt->err = strf("dialing a bad address returned %d", r); if (r >= 0) close(r); return; } for (int i = 0; i < 4; i++) { int g = neco_gai_lasterr(), l = neco_lasterr(); if (g != want) { c.rt->err = strf("the lookup error became %d instead of %d", g, want); return; } if (i == 0 && l != NECO_GAIERROR) { c.rt->err = strf("neco_lasterr() is %d after a failed lookup", l); return; } neco_sleep(300000); } } }
static void p_pipe(Ctx &c) { int n = c.range(1, 4); for (int i = 0; i < n; i++) { int p[2] = {-1, -1}; errno = 0; if (neco_pipe(p)) { c.rt->err = strf("neco_pipe failed with errno %d", errno); return; } uint64_t v = c.rnd(), w = 0; if (neco_write(p[i & 1], &v, 8) != 8 || neco_read(p[1 - (i & 1)], &w, 8) != 8 || v != w) c.rt->err = "the ends of a pipe are not connected to each other"; c.h(w); close(p[0]); close(p[1]); } }
typedef void (*Pf)(Ctx &);
static const Pf PF[] = {p_chan, p_mutex, p_cond, p_gen, p_select, p_cancel, p_rand, p_io, p_work, p_sleep, p_spawn, p_ring, p_stats, p_gai, p_pipe};
static const char *PN[] = {"channel", "mutex", "cond", "generator", "select", "cancel", "rand", "stream", "work", "sleep", "spawn", "suspend", "stats", "lookup", "pipe"}; enum { NP = 15 };
static void rtmain(int, void **argv) { Rt *r = (Rt *)argv[0]; r->ids.push_back(neco_getid()); if (neco_is_main_thread() != (r->main ? NECO_OK : NECO_ERROR) && (neco_is_main_thread() != 0) != !r->main && r->err.empty()) {}
    int im = neco_is_main_thread(); if (im != (int)r->main) r->err = strf("neco_is_main_thread() is %d %s the main thread", im, r->main ? "in" : "outside of");
    for (size_t i = 0; i < r->prog.size() && r->err.empty(); i++) { Ctx *c = new Ctx{r, mix64(r->seed + i), 1}; PF[r->prog[i]](*c); r->dig.push_back(c->d); if (!r->err.empty()) r->err = strf("%s: ", PN[r->prog[i]]) + r->err; delete c; } }
static void run1(Rt *r) { r->main = getpid() == (pid_t)syscall(SYS_gettid); int rc = neco_start(rtmain, 1, r); if (rc != NECO_OK) r->err = strf("runtime: %d", rc); if (neco_getid() != NECO_PERM) r->err = "neco_getid() after the runtime is not PERM"; }
struct Thr { std::vector<Rt> rts; pthread_t th; }; static pthread_barrier_t bar; static std::atomic<uint64_t> beat;
static void *thr_main(void *u) { Thr *t = (Thr *)u; pthread_barrier_wait(&bar); for (auto &r : t->rts) { run1(&r); beat++; } return nullptr; }
static void *thr_alone(void *u) { Thr *t = (Thr *)u; for (auto &r : t->rts) { run1(&r); beat++; } return nullptr; }
static void *dog(void *) { uint64_t l = ~0ull; for (int s = 0;;) { usleep(100000); uint64_t b = beat; if (b != l) { l = b; s = 0; } else if (++s > 120) fail("hang", "the programs did not finish within 12 s"); } }
PROP(c19t, "at least two runtimes run at the same time, with 4 or more programs in total") {
    int nt = src.range(2, 7); std::vector<Thr> spec((size_t)nt); std::string t; int tot = 0; int only = src.chance(35) ? src.range(0, NP - 1) : -1;
    for (int i = 0; i < nt; i++) { int nr = src.weighted({60, 25, 15}) + 1; t += strf("thread %d%s:", i, i == 0 ? " (main)" : ""); for (int q = 0; q < nr; q++) { Rt r; r.seed = src.draw(1000000); r.thr = i; int n = src.range(1, 5); t += " runtime["; for (int k = 0; k < n; k++) { int p = only >= 0 && src.chance(70) ? only : (int)src.draw(NP); r.prog.push_back(p); t += strf("%s%s", k ? " " : "", PN[p]); tot++; } t += strf("/%llu]", (unsigned long long)r.seed); spec[(size_t)i].rts.push_back(r); } t += "\n"; }
    kit_begin(t); alloc_install(); pthread_t d; pthread_create(&d, nullptr, dog, nullptr); int th0 = count_threads(), fd0 = count_fds(); long a0 = alloc_live();
    std::vector<Thr> alone = spec, both = spec;
    thr_alone(&alone[0]); for (int i = 1; i < nt; i++) { if (pthread_create(&alone[(size_t)i].th, nullptr, thr_alone, &alone[(size_t)i])) inconclusive("thread"); pthread_join(alone[(size_t)i].th, nullptr); }
    pthread_barrier_init(&bar, nullptr, (unsigned)nt); for (int i = 1; i < nt; i++) if (pthread_create(&both[(size_t)i].th, nullptr, thr_main, &both[(size_t)i])) inconclusive("thread"); thr_main(&both[0]); for (int i = 1; i < nt; i++) pthread_join(both[(size_t)i].th, nullptr);
    std::set<int64_t> ids; size_t nids = 0;
    for (auto *w : {&alone, &both}) for (auto &x : *w) for (auto &r : x.rts) { CHECK(r.err.empty(), "wrong", "thread %d, %s: %s", r.thr, w == &alone ? "running alone" : "running with the others", r.err.c_str()); for (auto i : r.ids) { CHECK(i > 0, "id", "identifier %lld", (long long)i); ids.insert(i); nids++; } }
    CHECK(ids.size() == nids, "id", "%zu coroutines had only %zu different identifiers", nids, ids.size());
    for (int i = 0; i < nt; i++) for (size_t q = 0; q < spec[(size_t)i].rts.size(); q++) { Rt &a = alone[(size_t)i].rts[q], &b = both[(size_t)i].rts[q]; CHECK(a.dig.size() == b.dig.size(), "differs", "number of results"); for (size_t k = 0; k < a.dig.size(); k++) CHECK(a.dig[k] == b.dig[k], "differs", "program %s of thread %d behaves differently when other threads run", PN[a.prog[k]], i); }
    CHECK(alloc_live() == a0, "leak", "%ld blocks are left", alloc_live() - a0); CHECK(count_fds() == fd0, "fdleak", "%d descriptors before, %d after", fd0, count_fds()); for (int i = 0; count_threads() > th0; i++) { if (i > 4000) fail("threadleak", "threads are left"); usleep(1000); }
    nontrivial(tot >= 4); count("programs", (uint64_t)tot); count("coroutines", nids);
}
// ---- every operation outside a coroutine, and on objects of another runtime ----
static neco_chan *O_ch; static neco_gen *O_g; static neco_mutex O_mu; static neco_waitgroup O_wg; static neco_cond O_cv; static neco_stream *O_st, *O_sb; static int64_t O_id; static int O_sv[2]; static char O_buf[16]; static void nop(int, void **) { fail("effect", "a coroutine ran"); }
struct Op { const char *name; int foreign; int posix; int64_t (*f)(Src &); }; // foreign: 0 none, 1 works on an object, 2 works on an id
#define O(n, fo, px, ...) {n, fo, px, [](Src &s) -> int64_t { (void)s; __VA_ARGS__ }}
static int64_t dl(Src &s) { return s.pick<int64_t>({INT64_MAX, 0, -1, 1, INT64_MIN}); }
static const Op OPS[] = {
    O("yield", 0, 0, return neco_yield();), O("sleep", 0, 0, return neco_sleep(s.pick<int64_t>({0, 1, -5, 1000}));), O("sleep_dl", 0, 0, return neco_sleep_dl(dl(s));), O("join", 3, 0, return neco_join(O_id);), O("join_dl", 3, 0, return neco_join_dl(O_id, dl(s));), O("suspend", 0, 0, return neco_suspend();), O("suspend_dl", 0, 0, return neco_suspend_dl(dl(s));), O("resume", 2, 0, return neco_resume(O_id);),
    O("getid", 0, 0, return neco_getid();), O("lastid", 0, 0, return neco_lastid();), O("starterid", 0, 0, return neco_starterid();), O("chan_make", 0, 0, neco_chan *c = nullptr; int r = neco_chan_make(&c, 8, (size_t)s.draw(4)); if (c) fail("effect", "a channel was made"); return r;),
    O("chan_retain", 1, 0, return neco_chan_retain(O_ch);), O("chan_release", 1, 0, return neco_chan_release(O_ch);), O("chan_send", 1, 0, return neco_chan_send(O_ch, O_buf);), O("chan_send_dl", 1, 0, return neco_chan_send_dl(O_ch, O_buf, dl(s));), O("chan_broadcast", 1, 0, return neco_chan_broadcast(O_ch, O_buf);), O("chan_recv", 1, 0, return neco_chan_recv(O_ch, O_buf);), O("chan_recv_dl", 1, 0, return neco_chan_recv_dl(O_ch, O_buf, dl(s));), O("chan_tryrecv", 1, 0, return neco_chan_tryrecv(O_ch, O_buf);), O("chan_close", 1, 0, return neco_chan_close(O_ch);), O("chan_select", 1, 0, return neco_chan_select(1, O_ch);), O("chan_select_dl", 1, 0, return neco_chan_select_dl(dl(s), 1, O_ch);), O("chan_selectv", 1, 0, neco_chan *c[2] = {O_ch, O_ch}; return neco_chan_selectv(2, c);), O("chan_selectv_dl", 1, 0, neco_chan *c[2] = {O_ch, O_ch}; return neco_chan_selectv_dl(2, c, dl(s));), O("chan_tryselect", 1, 0, return neco_chan_tryselect(1, O_ch);), O("chan_tryselectv", 1, 0, neco_chan *c[1] = {O_ch}; return neco_chan_tryselectv(1, c);), O("chan_case", 1, 0, return neco_chan_case(O_ch, O_buf);),
    O("gen_start", 0, 0, neco_gen *g = nullptr; int r = neco_gen_start(&g, 8, nop, 0); if (g) fail("effect", "a generator was made"); return r;), O("gen_retain", 1, 0, return neco_gen_retain(O_g);), O("gen_release", 1, 0, return neco_gen_release(O_g);), O("gen_yield", 0, 0, return neco_gen_yield(O_buf);), O("gen_next", 1, 0, return neco_gen_next(O_g, O_buf);), O("gen_next_dl", 1, 0, return neco_gen_next_dl(O_g, O_buf, dl(s));), O("gen_close", 1, 0, return neco_gen_close(O_g);),
    O("mutex_init", 0, 0, neco_mutex m; return neco_mutex_init(&m);), O("mutex_lock", 1, 0, return neco_mutex_lock(&O_mu);), O("mutex_lock_dl", 1, 0, return neco_mutex_lock_dl(&O_mu, dl(s));), O("mutex_trylock", 1, 0, return neco_mutex_trylock(&O_mu);), O("mutex_unlock", 1, 0, return neco_mutex_unlock(&O_mu);), O("mutex_rdlock", 1, 0, return neco_mutex_rdlock(&O_mu);), O("mutex_rdlock_dl", 1, 0, return neco_mutex_rdlock_dl(&O_mu, dl(s));), O("mutex_tryrdlock", 1, 0, return neco_mutex_tryrdlock(&O_mu);),
    O("waitgroup_init", 0, 0, neco_waitgroup w; return neco_waitgroup_init(&w);), O("waitgroup_add", 1, 0, return neco_waitgroup_add(&O_wg, s.range(-3, 3));), O("waitgroup_done", 1, 0, return neco_waitgroup_done(&O_wg);), O("waitgroup_wait", 1, 0, return neco_waitgroup_wait(&O_wg);), O("waitgroup_wait_dl", 1, 0, return neco_waitgroup_wait_dl(&O_wg, dl(s));), O("cond_init", 0, 0, neco_cond c; return neco_cond_init(&c);), O("cond_signal", 1, 0, return neco_cond_signal(&O_cv);), O("cond_broadcast", 1, 0, return neco_cond_broadcast(&O_cv);), O("cond_wait", 1, 0, return neco_cond_wait(&O_cv, &O_mu);), O("cond_wait_dl", 1, 0, return neco_cond_wait_dl(&O_cv, &O_mu, dl(s));),
    O("read", 0, 1, return neco_read(O_sv[0], O_buf, 1);), O("read_dl", 0, 1, return neco_read_dl(O_sv[0], O_buf, 1, dl(s));), O("write", 0, 1, return neco_write(O_sv[0], "x", s.draw(2));), O("write_dl", 0, 1, return neco_write_dl(O_sv[0], "x", 1, dl(s));), O("accept", 0, 1, return neco_accept(O_sv[0], nullptr, nullptr);), O("accept_dl", 0, 1, return neco_accept_dl(O_sv[0], nullptr, nullptr, dl(s));), O("connect", 0, 1, struct sockaddr a = {}; return neco_connect(O_sv[0], &a, sizeof a);), O("connect_dl", 0, 1, struct sockaddr a = {}; return neco_connect_dl(O_sv[0], &a, sizeof a, dl(s));), O("wait", 0, 0, return neco_wait(O_sv[0], NECO_WAIT_READ);), O("wait_dl", 0, 0, return neco_wait_dl(O_sv[0], NECO_WAIT_WRITE, dl(s));), O("serve", 0, 0, return neco_serve("tcp", "localhost:0");), O("dial", 0, 0, return neco_dial("tcp", "localhost:1");), O("dial_dl", 0, 0, return neco_dial_dl("unix", "/nonexistent/x", dl(s));), O("pipe", 0, 1, int p[2]; return neco_pipe(p);),
    O("cancel", 2, 0, return neco_cancel(O_id);), O("cancel_dl", 2, 0, return neco_cancel_dl(O_id, dl(s));), O("setcanceltype", 0, 0, int o; return neco_setcanceltype(NECO_CANCEL_INLINE, &o);), O("setcancelstate", 0, 0, int o; return neco_setcancelstate(NECO_CANCEL_DISABLE, &o);), O("rand_setseed", 0, 0, int64_t o; return neco_rand_setseed(7, &o);), O("rand", 0, 0, return neco_rand(O_buf, s.draw(9), s.pick({NECO_PRNG, NECO_CSPRNG}));), O("rand_dl", 0, 0, return neco_rand_dl(O_buf, 8, NECO_PRNG, dl(s));),
    O("signal_watch", 0, 0, return neco_signal_watch(s.pick({SIGUSR1, SIGINT}));), O("signal_wait", 0, 0, return neco_signal_wait();), O("signal_wait_dl", 0, 0, return neco_signal_wait_dl(dl(s));), O("signal_unwatch", 0, 0, return neco_signal_unwatch(SIGUSR1);), O("work", 0, 0, return neco_work((int64_t)s.draw(5) - 1, [](void *) { fail("effect", "a task ran"); }, nullptr);), O("getstats", 0, 0, neco_stats t; return neco_getstats(&t);), O("is_main_thread", 0, 0, return neco_is_main_thread();), O("now", 0, 0, return neco_now();),
    O("stream_make", 0, 0, neco_stream *t; return neco_stream_make(&t, O_sv[0]);), O("stream_make_buffered", 0, 0, neco_stream *t; return neco_stream_make_buffered(&t, O_sv[0]);), O("stream_read", 1, 0, return neco_stream_read(O_sb, O_buf, 1);), O("stream_read_dl", 1, 0, return neco_stream_read_dl(O_st, O_buf, 1, dl(s));), O("stream_readfull", 1, 0, return neco_stream_readfull(O_sb, O_buf, 2);), O("stream_readfull_dl", 1, 0, return neco_stream_readfull_dl(O_st, O_buf, 2, dl(s));), O("stream_write", 1, 0, return neco_stream_write(O_sb, "x", 1);), O("stream_write_dl", 1, 0, return neco_stream_write_dl(O_st, "x", 1, dl(s));), O("stream_flush", 1, 0, return neco_stream_flush(O_sb);), O("stream_flush_dl", 1, 0, return neco_stream_flush_dl(O_sb, dl(s));), O("stream_read_byte", 1, 0, return neco_stream_read_byte(O_sb);), O("stream_read_byte_dl", 1, 0, return neco_stream_read_byte_dl(O_sb, dl(s));), O("stream_unread_byte", 1, 0, return neco_stream_unread_byte(O_sb);), O("stream_close", 1, 0, return neco_stream_close(s.draw(2) ? O_st : O_sb);), O("stream_close_dl", 1, 0, return neco_stream_close_dl(O_st, dl(s));), O("stream_buffered_read_size", 1, 0, return neco_stream_buffered_read_size(O_sb);), O("stream_buffered_write_size", 1, 0, return neco_stream_buffered_write_size(O_sb);), O("gen_startv", 0, 0, neco_gen *g = nullptr; return neco_gen_startv(&g, 8, nop, 0, nullptr);), O("gen_yield_dl", 0, 0, return neco_gen_yield_dl(O_buf, dl(s));), O("serve_dl", 0, 0, return neco_serve_dl("unix", "/nonexistent/x", dl(s));), O("mutex_destroy", 1, 0, return neco_mutex_destroy(&O_mu);), O("waitgroup_destroy", 1, 0, return neco_waitgroup_destroy(&O_wg);), O("cond_destroy", 1, 0, return neco_cond_destroy(&O_cv);),
};
enum { NOPS = sizeof OPS / sizeof OPS[0] };
static Src *O_src; static std::vector<int> O_seq; static int O_where, O_fd0; static long O_al0;
static std::string O_obs; static const char *WN[] = {"before any runtime, with objects of a runtime of another thread", "in another thread while a runtime runs", "in a coroutine of another runtime"};
static void callops(int where) { for (int i : O_seq) { const Op &o = OPS[i]; if (where == 2 && (o.foreign == 0 || o.foreign == 3)) continue; errno = 0; memcpy(O_buf, "0123456789abcde", 16); int64_t r = o.f(*O_src); int e = errno, le = neco_lasterr(); int exp = where == 2 && o.foreign == 2 ? NECO_NOTFOUND : NECO_PERM;
    if (o.posix) CHECK(r == -1 && e == EPERM, "not-refused", "%s called %s: returned %lld, errno %d", o.name, WN[where], (long long)r, e); else CHECK(r == exp, "not-refused", "%s called %s: returned %lld, expected %d", o.name, WN[where], (long long)r, exp);
    CHECK(le == exp, "lasterr", "%s called %s: neco_lasterr() is %d, expected %d", o.name, WN[where], le, exp); CHECK(!memcmp(O_buf, "0123456789abcde", 16), "effect", "%s called %s wrote to its buffer", o.name, WN[where]); } if (where != 2) neco_exit(); }
static void *O_thr(void *) { if (O_where == 2) { static bool ran; ran = false; neco_start([](int, void **) { callops(2); ran = true; }, 0); CHECK(ran, "effect", "the other runtime ended early"); } else callops(O_where); return nullptr; }
PROP(c19o, "at least 10 operations are tried outside or on foreign objects") {
    O_where = src.range(0, 2); int n = src.range(1, 60); O_seq.clear(); std::string t = strf("called %s:", WN[O_where]); for (int i = 0; i < n; i++) { int k = (int)src.draw(NOPS); O_seq.push_back(k); t += " "; t += OPS[k].name; } O_src = &src; kit_begin(t);
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, O_sv)) inconclusive("socketpair");
    run_rt([&] { // the owner: everything in a known state, checked afterwards
        static int gate; static int64_t sus; static bool woke; woke = false; neco_chan_make(&O_ch, 8, 4); uint64_t v = 42; neco_chan_send(O_ch, &v); static int yields; yields = 0;
        neco_gen_start(&O_g, 8, [](int, void **) { uint64_t x = 9; neco_gen_yield(&x); x = 10; neco_gen_yield(&x); }, 0);
        neco_mutex_init(&O_mu); neco_mutex_lock(&O_mu); neco_waitgroup_init(&O_wg); neco_waitgroup_add(&O_wg, 2); neco_cond_init(&O_cv); static int s2[2]; (void)!socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s2);
        neco_stream_make(&O_st, s2[0]); neco_stream_make_buffered(&O_sb, s2[1]); (void)!write(s2[0], "abc", 3); int b0 = neco_stream_read_byte(O_sb); neco_stream_write(O_sb, "pq", 2);
        go([] { O_id = neco_getid(); neco_suspend(); woke = true; }); static bool lk; lk = false; go([] { neco_mutex_lock(&O_mu); lk = true; neco_mutex_unlock(&O_mu); }); static bool wk; wk = false; go([] { neco_waitgroup_wait(&O_wg); wk = true; }); static bool cw; cw = false; static neco_mutex m2; neco_mutex_init(&m2); go([] { neco_mutex_lock(&m2); neco_cond_wait(&O_cv, &m2); cw = true; neco_mutex_unlock(&m2); }); neco_yield();
        neco_stats s0, s1; neco_getstats(&s0); int fd0 = count_fds(); pthread_t th; if (pthread_create(&th, nullptr, O_thr, nullptr)) inconclusive("thread"); if (O_where == 1) for (int i = 0; i < 5; i++) { neco_yield(); } pthread_join(th, nullptr); for (int i = 0; i < 5; i++) neco_yield(); neco_getstats(&s1);
        CHECK(!memcmp(&s0, &s1, sizeof s0), "effect", "the statistics of the runtime changed: coroutines %zu -> %zu", (size_t)s0.coroutines, (size_t)s1.coroutines); CHECK(count_fds() == fd0, "fdleak", "descriptors"); CHECK(!woke && !lk && !wk && !cw, "effect", "a coroutine of the other runtime was woken up");
        uint64_t x = 0; int r = neco_chan_tryrecv(O_ch, &x); CHECK(r == NECO_OK && x == 42, "effect", "the channel of the other runtime was changed"); r = neco_chan_tryrecv(O_ch, &x); CHECK(r == NECO_EMPTY, "effect", "the channel of the other runtime was changed (%d)", r); r = neco_gen_next(O_g, &x); CHECK(r == NECO_OK && x == 9, "effect", "generator"); r = neco_gen_next(O_g, &x); CHECK(r == NECO_OK && x == 10, "effect", "generator"); r = neco_gen_next(O_g, &x); CHECK(r == NECO_CLOSED, "effect", "generator end: %d", r);
        CHECK(b0 == 'a' && neco_stream_read_byte(O_sb) == 'b' && neco_stream_buffered_write_size(O_sb) == 2, "effect", "the stream of the other runtime was changed");
        neco_mutex_unlock(&O_mu); neco_yield(); neco_yield(); CHECK(lk && !wk, "effect", "mutex"); neco_waitgroup_done(&O_wg); neco_yield(); CHECK(!wk, "effect", "the waitgroup of the other runtime was changed"); neco_waitgroup_done(&O_wg); neco_yield(); neco_yield(); CHECK(wk && !cw, "effect", "waitgroup"); neco_cond_signal(&O_cv); neco_yield(); neco_yield(); CHECK(cw, "effect", "cond"); neco_resume(O_id); neco_yield(); CHECK(woke, "effect", "resume");
        neco_stream_close(O_sb); neco_stream_close(O_st); neco_gen_release(O_g); neco_chan_release(O_ch); });
    char c; CHECK(read(O_sv[0], &c, 1) < 0 && errno == EAGAIN && read(O_sv[1], &c, 1) < 0 && errno == EAGAIN, "effect", "data was transferred"); close(O_sv[0]); close(O_sv[1]); nontrivial(n >= 10); label(WN[O_where]);
}
// ---- runtimes that start at the same moment: objects of one are still foreign to the others ----
static std::atomic<int> N_arr; static int N_n, N_rounds, N_kind, N_skew; static std::atomic<bool> N_bad; static std::string N_msg; static pthread_mutex_t N_mx = PTHREAD_MUTEX_INITIALIZER;
struct NT { int i; neco_chan *ch; neco_mutex mu; neco_waitgroup wg; neco_cond cv; int64_t id; }; static NT N_t[8];
static void spin(int target) { N_arr++; for (long k = 0; N_arr.load(std::memory_order_acquire) < target; k++) if (k > 2000) sched_yield(); }
static void n_bad(const std::string &m) { pthread_mutex_lock(&N_mx); if (!N_bad) N_msg = m; N_bad = true; pthread_mutex_unlock(&N_mx); }
static int n_call(NT *o, int kind) { char b[8]; switch (kind) { case 0: return neco_chan_tryrecv(o->ch, b); case 1: return neco_mutex_trylock(&o->mu); case 2: return neco_waitgroup_add(&o->wg, 1); case 3: return neco_chan_retain(o->ch); case 4: return neco_cond_signal(&o->cv); case 5: return neco_mutex_unlock(&o->mu); default: return 0; } }
static const char *NK[] = {"chan_tryrecv", "mutex_trylock", "waitgroup_add", "chan_retain", "cond_signal", "mutex_unlock"};
static void *n_thr(void *u) { NT *t = (NT *)u; int step = 0; for (int r = 0; r < N_rounds; r++) { 
        spin(++step * N_n); for (volatile int k = 0; k < (t->i * N_skew) % 97; k++) {}
        struct A { NT *t; int *step; } a{t, &step};
        int rc = neco_start([](int, void **v) { A *a = (A *)v[0]; NT *t = a->t; t->id = neco_getid(); neco_chan_make(&t->ch, 8, 1); neco_mutex_init(&t->mu); neco_mutex_lock(&t->mu); neco_waitgroup_init(&t->wg); neco_cond_init(&t->cv);
            spin(++*a->step * N_n);
            for (int j = 0; j < N_n; j++) { int q = n_call(&N_t[j], N_kind); if (j != t->i && q != NECO_PERM) n_bad(strf("%s on an object of the runtime of thread %d, called in the runtime of thread %d, returned %d", NK[N_kind], j, t->i, q)); if (j == t->i && q == NECO_PERM) n_bad(strf("%s on an object of its own runtime was refused", NK[N_kind])); if (N_kind == 3 && q == NECO_OK && j == t->i) neco_chan_release(t->ch); }
            spin(++*a->step * N_n); if (N_bad) return; neco_chan_release(t->ch); }, 1, &a);
        if (rc != NECO_OK) n_bad(strf("neco_start returned %d", rc)); beat++; bool stop = N_bad; spin(++step * N_n); (void)stop; if (N_bad) break; }
    return nullptr; }
PROP(c19n, "at least 3 threads start runtimes at the same moment, 20 times or more") {
    N_n = src.range(2, 6); N_rounds = src.range(5, 150); N_kind = src.range(0, 5); N_skew = (int)src.draw(97); kit_begin(strf("%d threads, each %d times: start a runtime at the same moment, then %s on each other's objects (skew %d)\n", N_n, N_rounds, NK[N_kind], N_skew)); pthread_t d; pthread_create(&d, nullptr, dog, nullptr); N_arr = 0; N_bad = false;
    pthread_t th[8]; for (int i = 0; i < N_n; i++) { N_t[i] = NT(); N_t[i].i = i; } for (int i = 1; i < N_n; i++) if (pthread_create(&th[i], nullptr, n_thr, &N_t[i])) inconclusive("thread"); n_thr(&N_t[0]); for (int i = 1; i < N_n; i++) pthread_join(th[i], nullptr);
    CHECK(!N_bad, "not-refused", "%s", N_msg.c_str()); nontrivial(N_n >= 3 && N_rounds >= 20); count("starts", (uint64_t)(N_n * N_rounds)); label(NK[N_kind]);
}
