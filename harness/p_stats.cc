// C22: statistics. A population of coroutines is parked in every blocking
// operation and released in every way (completed, canceled, async-canceled,
// timed out, closed); the counts must be exact right after a coroutine was
// parked and whenever the scheduler has settled.
#include "kit.h"
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
enum { B_READ, B_WRITE, B_WAITR, B_WAITW, B_SREAD, B_ACCEPT, B_SLEEP, B_SEND, B_RECV, B_SELECT, B_LOCK, B_RDLOCK, B_WG, B_COND, B_SUSPEND, B_SIG, B_JOIN, B_GNEXT, B_GYIELD, B_CANCELW, NB };
static const char *BN[] = {"read", "write", "wait for reading", "wait for writing", "stream_read", "accept", "sleep", "send", "recv", "select", "lock", "rdlock", "waitgroup_wait", "cond_wait", "suspend", "signal_wait", "join", "gen_next", "gen_yield", "cancel of a protected coroutine"};
struct P { int kind; bool dl; int type; bool pre = false; int64_t id = 0, aux = 0; bool in = false, gone = false, held = false, auxlive = false, auxsusp = false, relock = false; int fds[2] = {-1, -1}; neco_chan *ch[3] = {nullptr, nullptr, nullptr}; neco_mutex mu; neco_waitgroup wg; neco_cond cv; neco_gen *gen = nullptr; neco_stream *st = nullptr; };
enum { A_PARK, A_WAKE, A_CANCEL, A_TIME, A_CHECK, A_YIELD };
struct A { int o; int a, b; };
static std::deque<P> X; static int ngone; static std::string dir; static int nsettle, nchecks; static bool watched;
static int64_t dlof(P *p) { return p->dl ? neco_now() + 10 * NECO_SECOND : INT64_MAX; }
static void aux_co(int, void **a) { P *p = (P *)a[0]; p->auxlive = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); p->auxsusp = true; neco_suspend(); p->auxsusp = false; p->auxlive = false; }
static void prot_co(int, void **a) { P *p = (P *)a[0]; p->auxlive = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_setcancelstate(NECO_CANCEL_DISABLE, nullptr); p->auxsusp = true; neco_suspend(); p->auxsusp = false; p->auxlive = false; }
static void gen_co(int, void **a) { P *p = (P *)a[0]; p->auxlive = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); p->auxsusp = true; neco_suspend(); p->auxsusp = false; int v = 5; neco_gen_yield(&v); p->auxlive = false; }
static void out_(void *v) { P *p = (P *)v; p->in = false; p->gone = true; ngone++; }
static void body(P *p) {
    static char big[70000]; char b[64]; p->id = neco_getid(); neco_setcanceltype(p->type ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, nullptr); neco_cleanup_push(out_, p); int v = 7; if (p->kind == B_SIG) neco_signal_watch(SIGUSR1); if (p->kind == B_COND) neco_mutex_lock(&p->mu); if (p->pre && !p->type) neco_cancel(p->id); p->in = true; int64_t dl = dlof(p);
    switch (p->kind) {
    case B_READ: neco_read_dl(p->fds[0], b, 8, dl); break;
    case B_WRITE: neco_write_dl(p->fds[1], big, sizeof big, dl); break;
    case B_WAITR: neco_wait_dl(p->fds[0], NECO_WAIT_READ, dl); break;
    case B_WAITW: neco_wait_dl(p->fds[1], NECO_WAIT_WRITE, dl); break;
    case B_SREAD: neco_stream_read_dl(p->st, b, 8, dl); break;
    case B_ACCEPT: { int fd = neco_accept_dl(p->fds[0], nullptr, nullptr, dl); if (fd >= 0) close(fd); break; }
    case B_SLEEP: neco_sleep_dl(neco_now() + 10 * NECO_SECOND); break;
    case B_SEND: neco_chan_send_dl(p->ch[0], &v, dl); break;
    case B_RECV: neco_chan_recv_dl(p->ch[0], &v, dl); break;
    case B_SELECT: { int r = neco_chan_selectv_dl(3, p->ch, dl); if (r >= 0 && r < 3) neco_chan_case(p->ch[r], &v); break; }
    case B_LOCK: if (neco_mutex_lock_dl(&p->mu, dl) == NECO_OK) neco_mutex_unlock(&p->mu); break;
    case B_RDLOCK: if (neco_mutex_rdlock_dl(&p->mu, dl) == NECO_OK) neco_mutex_unlock(&p->mu); break;
    case B_WG: neco_waitgroup_wait_dl(&p->wg, dl); break;
    case B_COND: neco_cond_wait_dl(&p->cv, &p->mu, dl); break;
    case B_SUSPEND: neco_suspend_dl(dl); break;
    case B_SIG: neco_signal_wait_dl(dl); break;
    case B_JOIN: neco_join_dl(p->aux, dl); break;
    case B_GNEXT: neco_gen_next_dl(p->gen, &v, dl); break;
    case B_CANCELW: neco_cancel_dl(p->aux, dl); break;
    }
    p->in = false; neco_cleanup_pop(1);
}
static void gy_co(int, void **a) { P *p = (P *)a[0]; p->id = neco_getid(); neco_setcanceltype(p->type ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, nullptr); neco_cleanup_push(out_, p); int v = 9; p->in = true; neco_gen_yield_dl(&v, dlof(p)); p->in = false; neco_cleanup_pop(1); }
static void settle() { for (int r = 0; r < 3; r++) { for (int i = 0; i < 5; i++) neco_yield(); neco_sleep(200000); } for (int i = 0; i < 4; i++) neco_yield(); nsettle++; vc_progress(); }
static void verify(const char *when) {
    size_t c[NB] = {0}, aux = 0, auxs = 0, live = 1; for (auto &p : X) { if (p.in) c[p.relock ? B_LOCK : p.kind]++; if (!p.gone) live++; if (p.auxlive) aux++; if (p.auxsusp) auxs++; }
    neco_stats s; CHECK(neco_getstats(&s) == NECO_OK, "stats", "neco_getstats failed"); nchecks++;
    auto eq = [&](const char *n, size_t got, size_t want) { CHECK(got == want, "stats", "%s: neco_getstats reports %zu %s, but there are %zu", when, got, n, want); };
    eq("coroutines", s.coroutines, live + aux); eq("sleepers", s.sleepers, c[B_SLEEP]); eq("evwaiters", s.evwaiters, c[B_READ] + c[B_WRITE] + c[B_WAITR] + c[B_WAITW] + c[B_SREAD] + c[B_ACCEPT]); eq("sigwaiters", s.sigwaiters, c[B_SIG]); eq("senders", s.senders, c[B_SEND] + c[B_GYIELD]); eq("receivers", s.receivers, c[B_RECV] + c[B_SELECT] + c[B_GNEXT]);
    eq("locked", s.locked, c[B_LOCK] + c[B_RDLOCK]); eq("waitgroupers", s.waitgroupers, c[B_WG]); eq("condwaiters", s.condwaiters, c[B_COND]); eq("suspended", s.suspended, c[B_SUSPEND] + auxs);
}
static void park(int kind, bool dl, int type, bool pre) {
#ifndef NOWRW
    if (kind == B_WRITE) kind = B_WAITW; // blocking writes visit a worker thread first
#endif
    X.emplace_back(); P *p = &X.back(); p->kind = kind; p->dl = dl; p->type = type; p->pre = pre; memset(&p->mu, 0, sizeof p->mu); memset(&p->wg, 0, sizeof p->wg); memset(&p->cv, 0, sizeof p->cv); tr("park in %s", BN[kind]);
    switch (kind) {
    case B_READ: case B_WAITR: if (pipe2(p->fds, O_NONBLOCK)) inconclusive("pipe"); break;
    case B_WRITE: case B_WAITW: { if (pipe2(p->fds, O_NONBLOCK)) inconclusive("pipe"); static char z[65536]; while (write(p->fds[1], z, sizeof z) > 0) {} break; }
    case B_SREAD: if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p->fds)) inconclusive("socketpair"); CHECK(neco_stream_make(&p->st, p->fds[0]) == NECO_OK, "harness", "stream"); break;
    case B_ACCEPT: { p->fds[0] = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; snprintf(u.sun_path, sizeof u.sun_path, "%s/a%zu", dir.c_str(), X.size()); if (bind(p->fds[0], (struct sockaddr *)&u, sizeof u) || listen(p->fds[0], 4)) inconclusive("listen"); break; }
    case B_SEND: case B_RECV: neco_chan_make(&p->ch[0], sizeof(int), 0); break;
    case B_SELECT: for (auto &c : p->ch) neco_chan_make(&c, sizeof(int), 1); break;
    case B_LOCK: case B_RDLOCK: CHECK(neco_mutex_lock(&p->mu) == NECO_OK, "harness", "lock"); p->held = true; break;
    case B_WG: neco_waitgroup_add(&p->wg, 1); break;
    case B_JOIN: neco_start(aux_co, 1, p); p->aux = neco_lastid(); break;
    case B_CANCELW: neco_start(prot_co, 1, p); p->aux = neco_lastid(); break;
    case B_GNEXT: CHECK(neco_gen_start(&p->gen, sizeof(int), gen_co, 1, p) == NECO_OK, "harness", "gen"); p->aux = neco_lastid(); break;
    case B_GYIELD: CHECK(neco_gen_start(&p->gen, sizeof(int), gy_co, 1, p) == NECO_OK, "harness", "gen"); return;
    }
    go([p] { body(p); });
}
static void connect_to(P *p) { struct sockaddr_un u; socklen_t n = sizeof u; getsockname(p->fds[0], (struct sockaddr *)&u, &n); int c = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); (void)!connect(c, (struct sockaddr *)&u, n); close(c); }
static void wake(P *p, int how) {
    if (!p->in) return; int v = 3; static char z[65536]; tr("wake %s", BN[p->kind]);
    switch (p->kind) {
    case B_READ: case B_WAITR: if (how % 3 == 2) { close(p->fds[1]); p->fds[1] = -1; } else (void)!write(p->fds[1], "x", 1); break;
    case B_WRITE: while (read(p->fds[0], z, sizeof z) > 0) {} break;
    case B_WAITW: while (read(p->fds[0], z, sizeof z) > 0) {} break;
    case B_SREAD: (void)!write(p->fds[1], "abc", 3); break;
    case B_ACCEPT: connect_to(p); break;
    case B_SEND: if (how % 3 == 2) neco_chan_tryrecv(p->ch[0], &v); else neco_chan_recv(p->ch[0], &v); break;
    case B_RECV: if (how % 3 == 2) neco_chan_close(p->ch[0]); else if (how % 3 == 1) neco_chan_broadcast(p->ch[0], &v); else neco_chan_send(p->ch[0], &v); break;
    case B_SELECT: if (how % 4 == 3) neco_chan_close(p->ch[how % 3]); else if (how % 4 == 2) neco_chan_broadcast(p->ch[how % 3], &v); else neco_chan_send(p->ch[how % 3], &v); break;
    case B_LOCK: case B_RDLOCK: if (p->held) neco_mutex_unlock(&p->mu); p->held = false; break;
    case B_WG: neco_waitgroup_done(&p->wg); break;
    case B_COND: if (p->relock) { p->relock = p->held = false; neco_mutex_unlock(&p->mu); break; } if (how % 4 == 3) { if (neco_mutex_trylock(&p->mu) == NECO_OK) p->held = p->relock = true; } if (how & 1) neco_cond_signal(&p->cv); else neco_cond_broadcast(&p->cv); break;
    case B_SUSPEND: neco_resume(p->id); break;
    case B_SIG: raise(SIGUSR1); break;
    case B_JOIN: case B_GNEXT: case B_CANCELW: if (how % 3 == 2 && p->kind == B_GNEXT) neco_gen_close(p->gen); else if (p->auxsusp) neco_resume(p->aux); break;
    case B_GYIELD: neco_gen_next(p->gen, &v); break;
    default: break;
    }
}
PROP(c22w, "at least 5 coroutines were parked in 3 kinds of operations, released in 3 ways, and the counts were compared at least 10 times") {
    int n = src.range(1, 60); std::vector<A> pl; std::string t; int npark = 0; bool uni = src.chance(40); int u0 = (int)src.draw(NB), u1 = (int)src.draw(NB); std::set<int> kinds, ways; std::vector<std::pair<bool, int>> opt;
    for (int i = 0; i < n; i++) { A a; a.o = src.weighted({45, 18, 18, 5, 6, 8}); if (!npark && a.o != A_PARK) a.o = A_PARK; a.a = a.o == A_PARK ? (uni ? (src.chance(50) ? u1 : u0) : (int)src.draw(NB)) : (int)src.draw(64); a.b = (int)src.draw(24); if (a.o == A_PARK) { npark++; kinds.insert(a.a); } else if (a.o < A_CHECK) ways.insert(a.o * 2 + (a.o == A_CANCEL)); pl.push_back(a);
        switch (a.o) { case A_PARK: t += strf("park a coroutine in %s%s%s\n", BN[a.a], a.b & 1 ? ", deadline" : "", a.b & 2 ? ", async" : a.b >= 20 ? ", already canceled" : ""); break; case A_WAKE: t += strf("wake %d (%d)\n", a.a, a.b); break; case A_CANCEL: t += strf("cancel %d\n", a.a); break; case A_TIME: t += "deadlines pass\n"; break; case A_CHECK: t += "read statistics\n"; break; case A_YIELD: t += "yield\n"; break; } }
    kit_begin(t); X.clear(); ngone = nsettle = nchecks = 0; dir = scratch_dir(); vc_begin(1, 30000000); static std::vector<A> s_pl; s_pl = pl;
    run_rt([&] {
        neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_signal_watch(SIGUSR1); neco_signal_watch(SIGPIPE); bool calm = true;
        for (auto &a : s_pl) { vc_progress();
            switch (a.o) {
            case A_PARK: { if (!calm) { settle(); calm = true; } park(a.a, a.b & 1, a.b >> 1 & 1, a.b >= 20); if (a.b >= 20) { calm = false; settle(); calm = true; } verify(strf("right after a coroutine was parked in %s", BN[a.a]).c_str()); break; }
            case A_WAKE: case A_CANCEL: { std::vector<P *> v; for (auto &p : X) if (p.in) v.push_back(&p); if (v.empty()) break; P *p = v[(size_t)a.a % v.size()]; if (a.o == A_WAKE) wake(p, a.b); else { tr("cancel %s", BN[p->kind]); int r = neco_cancel(p->id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); } calm = false; if (a.b % 3 || (a.o == A_WAKE && p->kind == B_SIG)) { settle(); calm = true; verify(strf("after a coroutine in %s was %s", BN[p->kind], a.o == A_WAKE ? "woken up" : "canceled").c_str()); if (a.o == A_CANCEL) CHECK(!p->in || p->relock, "stuck", "a canceled coroutine is still in %s", BN[p->kind]); else if (p->kind != B_WRITE && p->kind != B_SIG && p->kind != B_SLEEP) CHECK(!p->in || p->relock, "stuck", "a coroutine in %s was not woken up", BN[p->kind]); } break; }
            case A_TIME: neco_sleep(11 * NECO_SECOND); settle(); calm = true; verify("after deadlines passed"); for (auto &p : X) if (p.dl || p.kind == B_SLEEP) CHECK(!p.in || p.relock, "stuck", "a coroutine in %s is still blocked after its deadline", BN[p.kind]); break;
            case A_CHECK: settle(); calm = true; verify("at rest"); break;
            case A_YIELD: neco_yield(); break;
            } }
        // release everything: all counts return to zero
        for (auto &p : X) if (p.relock) { p.relock = p.held = false; neco_mutex_unlock(&p.mu); }
        for (int r = 0; r < 3; r++) { for (auto &p : X) if (p.in) { neco_cancel(p.id); } settle(); }
        for (auto &p : X) { if (p.auxsusp) { neco_setcancelstate(NECO_CANCEL_ENABLE, nullptr); neco_resume(p.aux); } } settle();
        for (auto &p : X) if (p.kind == B_GNEXT && p.auxlive) neco_cancel(p.aux);
        settle(); for (auto &p : X) if (p.gen) { neco_gen_close(p.gen); neco_gen_release(p.gen); p.gen = nullptr; } settle();
        neco_stats s; neco_getstats(&s); for (auto &p : X) CHECK(!p.in && p.gone && !p.auxlive, "stuck", "a coroutine in %s did not end", BN[p.kind]);
        CHECK(s.coroutines == 1 && !s.sleepers && !s.evwaiters && !s.sigwaiters && !s.senders && !s.receivers && !s.locked && !s.waitgroupers && !s.condwaiters && !s.suspended, "stats", "when nobody waits the counts are %zu coroutines, %zu sleepers, %zu evwaiters, %zu sigwaiters, %zu senders, %zu receivers, %zu locked, %zu waitgroupers, %zu condwaiters, %zu suspended", s.coroutines, s.sleepers, s.evwaiters, s.sigwaiters, s.senders, s.receivers, s.locked, s.waitgroupers, s.condwaiters, s.suspended);
        for (auto &p : X) { for (auto &c : p.ch) if (c) neco_chan_release(c); if (p.st) { neco_stream_close(p.st); p.fds[0] = -1; } for (int fd : p.fds) if (fd >= 0) close(fd); if (p.held) neco_mutex_unlock(&p.mu); }
    });
    nontrivial(npark >= 5 && kinds.size() >= 3 && ways.size() >= 3 && nchecks >= 10); count("comparisons", (uint64_t)nchecks); count("parked", X.size()); for (int k : kinds) label(BN[k]);
}
