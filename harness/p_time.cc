// C07: deadlines and sleeps under a clock owned by the harness.
#include "kit.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/resource.h>
#include <signal.h>
#include <climits>
enum { O_SLEEP, O_SLEEPDL, O_RECV, O_SEND, O_SELECT, O_LOCK, O_RDLOCK, O_WG, O_COND, O_SUSP, O_JOIN, O_CANCEL, O_GEN, O_WAITR, O_READ, O_ACCEPT, O_SIG, O_STREAM, O_WAITW, O_WRITE, NOPS };
static const char *ON[] = {"sleep", "sleep_dl", "chan_recv_dl", "chan_send_dl", "chan_select_dl", "mutex_lock_dl", "mutex_rdlock_dl", "waitgroup_wait_dl", "cond_wait_dl", "suspend_dl",
    "join_dl", "cancel_dl", "gen_next_dl", "wait_dl(read)", "read_dl", "accept_dl", "signal_wait_dl", "stream_read_dl", "wait_dl(write)", "write_dl"};
struct W { int op; int64_t rel; bool absl; int64_t abs; bool early; };
static int64_t expect_dl(const W &w, int64_t now) {
    if (w.absl) return w.abs;
    if (w.rel > 0 && now > INT64_MAX - w.rel) return INT64_MAX;
    if (w.rel < 0 && now < INT64_MIN - w.rel) return INT64_MIN;
    return now + w.rel;
}
static int fds[2], fullfd[2], lfd; static neco_chan *ch; static neco_mutex mu; static neco_waitgroup wg; static neco_cond cv; static neco_mutex cvm; static neco_gen *gen; static int64_t idle_id, dis_id;
static ssize_t doop(int op, int64_t dl) {
    char b[16]; neco_chan *cs[2] = {ch, ch};
    switch (op) {
    case O_SLEEPDL: return neco_sleep_dl(dl);
    case O_RECV: return neco_chan_recv_dl(ch, b, dl);
    case O_SELECT: return neco_chan_selectv_dl(2, cs, dl);
    case O_LOCK: return neco_mutex_lock_dl(&mu, dl);
    case O_RDLOCK: return neco_mutex_rdlock_dl(&mu, dl);
    case O_WG: return neco_waitgroup_wait_dl(&wg, dl);
    case O_SUSP: return neco_suspend_dl(dl);
    case O_JOIN: return neco_join_dl(idle_id, dl);
    case O_CANCEL: return neco_cancel_dl(dis_id, dl);
    case O_GEN: return neco_gen_next_dl(gen, b, dl);
    case O_WAITR: return neco_wait_dl(fds[0], NECO_WAIT_READ, dl);
    case O_WAITW: return neco_wait_dl(fullfd[1], NECO_WAIT_WRITE, dl);
    case O_WRITE: return neco_write_dl(fullfd[1], b, 8, dl);
    case O_READ: return neco_read_dl(fds[0], b, 8, dl);
    case O_ACCEPT: return neco_accept_dl(lfd, nullptr, nullptr, dl);
    case O_SIG: neco_signal_watch(SIGUSR1); return neco_signal_wait_dl(dl);
    default: return -99;
    }
}
static std::string wtxt(const W &w) { return w.absl ? strf("%s(deadline %lld)", ON[w.op], (long long)w.abs) : strf("%s(now%+lld ns)", ON[w.op], (long long)w.rel); }

PROP(c07s, "several coroutines waiting at once in operations with deadlines that nobody completes, at least two of them with different future deadlines") {
    int n = src.range(1, 8); if (src.chance(15)) n = src.range(9, 60);
    bool onlysleep = src.chance(40); bool withio = src.chance(30);
    static std::vector<W> ws; ws.clear(); std::string t;
    int nfut = 0; std::set<int64_t> distinct;
    for (int i = 0; i < n; i++) {
        W w; w.op = onlysleep ? (int)src.draw(2) : withio ? (int)src.draw(NOPS) : (int)src.draw(O_WAITR); w.early = src.chance(10);
        if (w.op == O_STREAM) w.op = O_READ;
        if (w.op == O_WRITE) w.op = O_WAITW; // writes use a worker thread: not on the virtual clock
        w.absl = false; w.abs = 0;
        switch (src.weighted({30, 25, 15, 8, 6, 8, 4, 4})) {
        case 0: w.rel = (int64_t)src.range(1, 40) * 1000000; break;
        case 1: w.rel = (int64_t)src.range(1, 40) * 1000000 + src.range(0, 999) * 1000; break;
        case 2: w.rel = src.range(1, 3000) * 1000; break;
        case 3: w.rel = (int64_t)src.range(1, 20) * 300000000; break;
        case 4: w.rel = src.range(1, 2000); break;
        case 5: w.rel = -(int64_t)src.range(0, 3) * 1000; break;
        case 6: w.absl = true; w.abs = src.pick<int64_t>({0, -1, INT64_MIN, 1, INT64_MIN + 1, -1000000000}); break;
        default: w.absl = true; w.abs = src.pick<int64_t>({INT64_MAX, INT64_MAX - 1, INT64_MAX, INT64_MAX - 500000000}); break;
        }
        if (w.absl && w.op == O_SLEEP) { w.absl = false; w.rel = w.abs == 0 ? 0 : w.abs; }
        if (!w.absl && w.rel > 0 && w.rel < 20000000000LL) { nfut++; distinct.insert(w.rel); }
        ws.push_back(w); t += wtxt(w) + "; ";
    }
    int64_t stagger = src.chance(30) ? (int64_t)src.range(1, 5) * 700000 : 0;
    kit_begin(strf("stagger %lld ns; ", (long long)stagger) + t);
    vc_begin(1, 2000000);
    struct Rs { bool done = false, never = false; int64_t dl = 0, at = 0, called = 0; int id = 0; bool sl = false; int64_t cid = 0; };
    static std::vector<Rs> rs; rs.assign(ws.size(), Rs()); static std::vector<int> order; order.clear();
    static bool finish; finish = false; uint64_t p0 = vc_polls + vc_sleeps; static int64_t t0, t1, maxdl; t0 = vc_now(); maxdl = t0;
    bool anyio = false; for (auto &w : ws) anyio |= w.op >= O_WAITR && w.op != O_SIG;
    static uint64_t pollsat; pollsat = 0;
    run_rt([&] {
        neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
        CHECK(pipe2(fds, O_NONBLOCK) == 0 && pipe2(fullfd, O_NONBLOCK) == 0, "harness", "pipe");
        { char z[4096]; memset(z, 0, sizeof z); while (write(fullfd[1], z, sizeof z) > 0) {} while (write(fullfd[1], z, 1) > 0) {} }
        { int s = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); struct sockaddr_un sa; memset(&sa, 0, sizeof sa); sa.sun_family = AF_UNIX; bind(s, (struct sockaddr *)&sa, sizeof(sa_family_t)); listen(s, 5); lfd = s; }
        neco_chan_make(&ch, 8, 0); memset((void *)&mu, 0, sizeof mu); memset((void *)&wg, 0, sizeof wg); memset((void *)&cv, 0, sizeof cv); memset((void *)&cvm, 0, sizeof cvm);
        neco_mutex_lock(&mu); neco_waitgroup_add(&wg, 1);
        go([] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_suspend(); }); idle_id = neco_lastid();
        go([] { neco_setcancelstate(NECO_CANCEL_DISABLE, nullptr); neco_suspend(); }); dis_id = neco_lastid();
        { static Fn gf = [] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_suspend(); }; CHECK(neco_gen_start(&gen, 4, [](int, void **) { gf(); }, 0) == 0, "gen", "gen_start"); }
        int64_t genid = neco_lastid();
        for (size_t i = 0; i < ws.size(); i++) {
            go([i] {
                const W &w = ws[i]; Rs &r = rs[i]; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
                r.called = vc_now(); r.dl = expect_dl(w, r.called); r.sl = w.op == O_SLEEP || w.op == O_SLEEPDL; r.cid = neco_getid();
                if (w.op == O_SIG) neco_signal_watch(SIGUSR1);
                if (r.dl > INT64_MAX - 1000000000LL) r.never = true; else maxdl = std::max(maxdl, r.dl);
                ssize_t rc;
                if (w.op == O_SLEEP) rc = neco_sleep(w.rel);
                else if (w.op == O_COND) { neco_mutex_lock(&cvm); rc = neco_cond_wait_dl(&cv, &cvm, r.dl); int q = neco_mutex_trylock(&cvm); CHECK(q == NECO_BUSY, "cond-mutex", "not held"); neco_mutex_unlock(&cvm); }
                else if (w.op == O_SEND) { static neco_chan *c2; neco_chan_make(&c2, 4, 0); int v = 1; neco_chan *mine = c2; rc = neco_chan_send_dl(mine, &v, r.dl); neco_chan_release(mine); }
                else rc = doop(w.op, r.dl);
                int le = neco_lasterr(), er = errno;
                r.at = vc_now(); tr("%lld w%zu %s -> %zd", (long long)(r.at - t0), i, wtxt(w).c_str(), rc);
                if (r.never && finish) { CHECK(rc == NECO_CANCELED || (rc == -1 && er == ECANCELED), "never", "%s returned %zd after being canceled", wtxt(w).c_str(), rc); r.done = true; return; }
                CHECK(!r.never, "never", "%s returned %zd although its deadline never passes", wtxt(w).c_str(), rc);
                bool fd = w.op == O_READ || w.op == O_ACCEPT || w.op == O_WRITE;
                if (r.sl) {
                    if (w.op == O_SLEEP && w.rel < 0) CHECK(rc == NECO_TIMEDOUT, "result", "sleep(%lld) returned %zd", (long long)w.rel, rc);
                    else CHECK(rc == NECO_OK || (w.op == O_SLEEPDL && rc == NECO_TIMEDOUT && r.dl <= r.called), "result", "%s returned %zd", wtxt(w).c_str(), rc);
                } else if (fd) CHECK(rc == -1 && er == ETIMEDOUT && le == NECO_TIMEDOUT, "result", "%s returned %zd errno %d lasterr %d", wtxt(w).c_str(), rc, er, le);
                else CHECK(rc == NECO_TIMEDOUT, "result", "%s returned %zd, expected TIMEDOUT", wtxt(w).c_str(), rc);
                CHECK(r.at >= r.dl, "early", "%s gave up %lld ns before its deadline", wtxt(w).c_str(), (long long)(r.dl - r.at));
                int64_t from = std::max(r.dl, r.called);
                CHECK(r.at - from <= 2000000, "late", "%s gave up %lld ns after its deadline although the runtime was idle", wtxt(w).c_str(), (long long)(r.at - from));
                order.push_back((int)i); r.done = true;
            });
            if (stagger) neco_sleep(stagger);
        }
        // all timed waiters must be gone by the last deadline
        int64_t end = maxdl + 5000000; if (end < vc_now()) end = vc_now() + 1000000;
        neco_sleep_dl(end); t1 = vc_now(); pollsat = vc_polls + vc_sleeps;
        for (size_t i = 0; i < rs.size(); i++) if (!rs[i].never) CHECK(rs[i].done, "late", "%s is still waiting %lld ns after its deadline", wtxt(ws[i]).c_str(), (long long)(t1 - rs[i].dl));
        neco_stats st; neco_getstats(&st); size_t nv = 0; for (auto &r : rs) nv += r.never;
        CHECK(st.coroutines == 4 + nv, "stats", "%zu coroutines alive, expected %zu", st.coroutines, 4 + nv);
        finish = true; // cancel the ones that never end
        for (auto &r : rs) if (r.never) { CHECK(!r.done, "never", "done early"); CHECK(neco_cancel(r.cid) == NECO_OK, "cancel", "cancel failed"); }
        neco_mutex_unlock(&mu); for (int k = 0; k < 4; k++) neco_yield();
        for (auto &r : rs) CHECK(r.done, "stuck", "a canceled waiter did not return");
        neco_cancel(idle_id); neco_cancel(genid); neco_resume(dis_id); neco_yield();
        neco_gen_release(gen); neco_chan_release(ch); close(fds[0]); close(fds[1]); close(fullfd[0]); close(fullfd[1]); close(lfd);
    });
    for (size_t a = 0; a < order.size(); a++) for (size_t b = a + 1; b < order.size(); b++) {
        Rs &x = rs[(size_t)order[a]], &y = rs[(size_t)order[b]];
        if (x.dl <= x.called || y.dl <= y.called) continue;
        if (y.dl < x.dl && std::max(x.called, y.called) + 200 < y.dl) { // a relative sleep reads the clock itself, a little later
            bool strict = x.sl && y.sl && x.dl - y.dl > (ws[(size_t)order[b]].op == O_SLEEP ? 200 : 0);
            CHECK(!strict && x.dl - y.dl < 3000000, "order", "%s (deadline %lld) woke after %s (deadline %lld)", wtxt(ws[(size_t)order[b]]).c_str(), (long long)(y.dl - t0), wtxt(ws[(size_t)order[a]]).c_str(), (long long)(x.dl - t0));
        }
    }
    uint64_t polls = pollsat - p0, span = (uint64_t)(t1 - t0);
    uint64_t lim = 40 + 6 * (uint64_t)n + span / 50000000 + (anyio ? (uint64_t)(n + 3) * 130 : 0);
    CHECK(polls <= lim, "busy-idle", "%llu waits in the operating system for %d waiters over %llu ms of idle time", (unsigned long long)polls, n, (unsigned long long)(span / 1000000));
    nontrivial(nfut >= 2 && distinct.size() >= 2);
    if (anyio) label("with-io-waiters");
    if (n > 8) label("many-waiters");
    for (auto &w : ws) count(ON[w.op], 1);
}

// On the real clock: never early, and the process consumes hardly any CPU time while idle.
PROP(c07r, "an idle period of 20-80 ms of real time with at least one blocked coroutine besides the sleeper") {
    int kind = (int)src.draw(4); int ms = src.range(20, 80); int extra = src.range(0, 5);
    kit_begin(strf("real clock: sleep %d ms, other waiters: %s, %d more sleepers", ms, kind == 0 ? "none" : kind == 1 ? "file" : kind == 2 ? "signal" : "channel", extra));
    run_rt([&] {
        static int p[2]; CHECK(pipe2(p, O_NONBLOCK) == 0, "harness", "pipe"); static neco_chan *c; neco_chan_make(&c, 4, 0);
        int64_t id = 0;
        go([&] { char b; if (kind == 1) neco_read(p[0], &b, 1); else if (kind == 2) { neco_signal_watch(SIGUSR2); neco_signal_wait(); } else if (kind == 3) neco_chan_recv(c, &b); }); id = neco_lastid();
        for (int i = 0; i < extra; i++) go([=] { int64_t s = real_now(), d = (int64_t)(i + 1) * ms * 1000000 / 8; CHECK(neco_sleep(d) == 0, "result", "sleep"); CHECK(real_now() - s >= d, "early", "sleep of %lld ns took %lld", (long long)d, (long long)(real_now() - s)); });
        struct rusage a, b; int64_t s = real_now(); getrusage(RUSAGE_SELF, &a);
        CHECK(neco_sleep((int64_t)ms * 1000000) == 0, "result", "sleep");
        int64_t e = real_now(); getrusage(RUSAGE_SELF, &b);
        CHECK(e - s >= (int64_t)ms * 1000000, "early", "sleep of %d ms took %lld ns", ms, (long long)(e - s));
        int64_t cpu = (b.ru_utime.tv_sec - a.ru_utime.tv_sec + b.ru_stime.tv_sec - a.ru_stime.tv_sec) * 1000000 + b.ru_utime.tv_usec - a.ru_utime.tv_usec + b.ru_stime.tv_usec - a.ru_stime.tv_usec;
        // with a file waiter up to 1 ms before each deadline is spent polling
        CHECK(cpu < 8000 + ms * 250, "busy-idle", "%lld us of CPU time were used in %d ms of idle time", (long long)cpu, ms);
        neco_cancel(id); neco_yield(); neco_yield(); close(p[0]); close(p[1]); neco_chan_release(c);
    });
    nontrivial(kind > 0);
}
