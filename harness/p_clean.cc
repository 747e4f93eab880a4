// C08: cleanup handlers and cancelation of coroutines in nested cleanup scopes.
#include "kit.h"
enum { A_YIELD, A_SLEEP, A_SUSP, A_RECV, A_LOCK, A_WG, A_EXIT, A_SETTYPE, A_PUSH, A_CANCEL, A_TOGGLE, A_READ, A_JOIN };
static const char *AN[] = {"yield", "sleep", "suspend", "recv", "lock", "wg_wait", "exit", "set-type", "push", "cancel", "disable-work-enable", "read", "join"};
struct Node { int a; int arg = 0; int64_t t = 0; int exec = 0; int hb = 0; std::vector<Node> kids; };
struct CoM { std::vector<Node> plan; int ctype = 1; int64_t id = 0; bool started = false, ended = false, exiting = false, selfexit = false, popping = false; int pend = 0; std::vector<int> st; std::set<int> ran; int pushed = 0, handled = 0; bool inhandler = false, dis = false; };
static std::vector<CoM> K; static neco_chan *ch; static neco_mutex mu; static neco_waitgroup wg; static int hid; static std::map<int, int> hbeh, howner; static int pfd[2]; static bool finishing;

static void gen_nodes(Src &s, std::vector<Node> &v, int depth, int &budget) {
    do {
        Node n; budget--;
        n.a = s.weighted({18, 14, 8, 8, 6, 4, 3, 4, depth < 7 ? 30 : 0, 8, 4, 4, 4});
        n.arg = (int)s.draw(8); n.t = (int64_t)s.range(1, 20) * 500000;
        if (n.a == A_PUSH) { n.exec = (int)s.draw(2); n.hb = s.weighted({30, 10, 10, 8, 6, 6, 5, 5}); if (s.chance(80)) gen_nodes(s, n.kids, depth + 1, budget); }
        v.push_back(n);
    } while (budget > 0 && v.size() < 6 && s.more(60));
}
static std::string rn(const std::vector<Node> &v) {
    std::string r; static const char *HB[] = {"log", "yields", "sleeps", "receives", "exits", "locks", "cancels self", "starts a coroutine"};
    for (auto &n : v) {
        r += AN[n.a];
        if (n.a == A_PUSH) r += strf("[handler %s]{", HB[n.hb]) + rn(n.kids) + strf("}pop(%d)", n.exec);
        else if (n.a == A_CANCEL || n.a == A_JOIN) r += strf("(c%d)", n.arg); else if (n.a == A_SLEEP) r += strf("(%lld)", (long long)n.t);
        else if (n.a == A_SETTYPE) r += n.arg & 1 ? "(async)" : "(inline)";
        r += "; ";
    }
    return r;
}
static int self() { int64_t id = neco_getid(); for (size_t i = 0; i < K.size(); i++) if (K[i].started && !K[i].ended && K[i].id == id) return (int)i; return -1; }
static void handler(void *arg) {
    int h = (int)(intptr_t)arg, o = howner[h]; CoM &c = K[(size_t)o];
    tr("c%d handler %d runs", o, h);
    CHECK(self() == o, "cleanup", "handler %d of c%d runs in another coroutine", h, o);
    CHECK(!c.ran.count(h), "cleanup-twice", "handler %d of c%d ran twice", h, o);
    CHECK(!c.st.empty() && c.st.back() == h, "cleanup-order", "handler %d of c%d ran although the innermost pushed handler is %d", h, o, c.st.empty() ? -1 : c.st.back());
    c.ran.insert(h); c.st.pop_back(); c.handled++;
    if (!c.popping && !c.exiting) {
        if (!c.selfexit) { CHECK(c.pend > 0, "spurious-exit", "c%d is terminated but nobody canceled it", o); CHECK(c.ctype == NECO_CANCEL_ASYNC, "spurious-exit", "c%d has inline cancelation but is terminated", o); CHECK(!c.dis, "disabled-exit", "c%d is terminated although it disabled cancelation", o); c.pend--; }
        c.exiting = true; c.dis = true;
    }
    bool popped = c.popping; c.popping = false; (void)popped;
    int v; int64_t t0;
    bool ex = c.exiting;
    switch (hbeh[h]) {
    case 1: neco_yield(); neco_yield(); break;
    case 2: t0 = vc_now(); v = neco_sleep(700000); if (ex) CHECK(v == NECO_OK && vc_now() - t0 >= 700000, "handler-op", "sleep in a handler of an ending coroutine returned %d", v); else if (v == NECO_CANCELED) { CHECK(c.pend > 0, "spurious-cancel", "sleep in handler canceled"); c.pend--; } break;
    case 3: { char b[4]; v = neco_chan_recv_dl(ch, b, neco_now() + 300000); if (ex) CHECK(v == NECO_TIMEDOUT, "handler-op", "recv in a handler of an ending coroutine returned %d", v); else if (v == NECO_CANCELED) { CHECK(c.pend > 0, "spurious-cancel", "recv in handler canceled"); c.pend--; } break; }
    case 4: c.selfexit = true; if (!c.exiting) { c.exiting = true; } neco_exit(); fail("exit", "neco_exit returned"); break;
    case 5: { static neco_mutex m2; neco_mutex *m = &m2; memset((void *)m, 0, sizeof *m); v = neco_mutex_lock(m); if (ex) CHECK(v == NECO_OK, "handler-op", "lock in a handler returned %d", v); else if (v == NECO_CANCELED) { CHECK(c.pend > 0, "spurious-cancel", "lock in handler canceled"); c.pend--; } if (v == NECO_OK) neco_mutex_unlock(m); break; }
    case 6: if (!ex && !c.dis) { c.pend++; v = neco_cancel(c.id); if (v == NECO_CANCELED) { c.pend--; CHECK(c.pend > 0, "spurious-cancel", "x"); } } break;
    case 7: { static int z; z = 0; v = go([] { z = 1; neco_yield(); }); CHECK(v == NECO_OK && z == 1, "handler-op", "start in a handler returned %d", v); break; }
    default: break;
    }
    tr("c%d handler %d done", o, h);
}
static void res(CoM &c, int i, const char *what, int rc) {
    tr("%lld c%d %s -> %d", (long long)vc_now() % 1000000000000, i, what, rc);
    CHECK(!c.exiting, "zombie", "c%d goes on after %s although it is being terminated", i, what);
    if (rc == NECO_CANCELED) {
        CHECK(c.pend > 0, "spurious-cancel", "%s of c%d reports canceled but nobody canceled it", what, i);
        CHECK(c.ctype == NECO_CANCEL_INLINE, "async-inline", "%s of c%d reports canceled although its cancelation is async", what, i);
        CHECK(!c.dis, "disabled-cancel", "%s of c%d reports canceled although cancelation is disabled", what, i);
        c.pend--;
    }
}
static void exec(int i, const std::vector<Node> &v);
static void scope(int i, const Node &n) {
    CoM &c = K[(size_t)i]; int h = ++hid; hbeh[h] = n.hb; howner[h] = i;
    neco_cleanup_push(handler, (void *)(intptr_t)h);
    c.st.push_back(h); c.pushed++; tr("c%d push %d", i, h);
    exec(i, n.kids);
    CHECK(!c.exiting, "zombie", "c%d goes on although it is being terminated", i);
    CHECK(!c.st.empty() && c.st.back() == h, "cleanup", "handler stack of c%d is off", i);
    tr("c%d pop %d (%d)", i, h, n.exec);
    if (n.exec) c.popping = true; else c.st.pop_back();
    neco_cleanup_pop(n.exec);
    c.popping = false;
    CHECK(!n.exec == !c.ran.count(h), "cleanup", "handler %d of c%d: pop(%d) but %s", h, i, n.exec, c.ran.count(h) ? "it ran" : "it did not run");
}
static void exec(int i, const std::vector<Node> &v) {
    CoM &c = K[(size_t)i]; char b[4];
    for (auto &n : v) {
        if (finishing) return;
        switch (n.a) {
        case A_YIELD: res(c, i, "yield", neco_yield()); break;
        case A_SLEEP: res(c, i, "sleep", neco_sleep(n.t)); break;
        case A_SUSP: res(c, i, "suspend", neco_suspend_dl(neco_now() + n.t)); break;
        case A_RECV: res(c, i, "recv", neco_chan_recv_dl(ch, b, neco_now() + n.t)); break;
        case A_LOCK: { int r = neco_mutex_lock_dl(&mu, neco_now() + n.t); res(c, i, "lock", r); if (r == NECO_OK) neco_mutex_unlock(&mu); break; }
        case A_WG: res(c, i, "wg_wait", neco_waitgroup_wait_dl(&wg, neco_now() + n.t)); break;
        case A_READ: { ssize_t r = neco_read_dl(pfd[0], b, 1, neco_now() + n.t); res(c, i, "read", r == -1 && errno == ECANCELED ? NECO_CANCELED : (int)r); break; }
        case A_EXIT: if (n.arg < 4) { c.selfexit = true; tr("c%d exit", i); neco_exit(); fail("exit", "neco_exit returned"); } break;
        case A_SETTYPE: { int old; int t = n.arg & 1 ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE; CHECK(neco_setcanceltype(t, &old) == NECO_OK && old == c.ctype, "settype", "old type %d expected %d", old, c.ctype); c.ctype = t; break; }
        case A_PUSH: scope(i, n); break;
        case A_JOIN: { int t = n.arg % (int)K.size(); if (t == i || !K[(size_t)t].started) break; int r = neco_join_dl(K[(size_t)t].id, neco_now() + n.t); if (r == NECO_OK) CHECK(K[(size_t)t].ended || !K[(size_t)t].exiting || K[(size_t)t].st.empty(), "join-early", "join of c%d returned while its cleanup handlers were still running", t); res(c, i, "join", r); break; }
        case A_CANCEL: { int t = n.arg % (int)K.size(); CoM &x = K[(size_t)t]; if (!x.started || x.ended || t == i || x.exiting) break;
            bool d = x.dis; if (d) break; x.pend++; int p0 = x.pend; (void)p0; tr("c%d cancels c%d", i, t); int r = neco_cancel_dl(x.id, neco_now() + 100000000); 
            if (r != NECO_OK) x.pend--; if (r == NECO_OK && x.ended) x.pend = 0; res(c, i, "cancel", r); break; }
        case A_TOGGLE: { int old; CHECK(neco_setcancelstate(NECO_CANCEL_DISABLE, &old) == NECO_OK && old == NECO_CANCEL_ENABLE, "setstate", "old state %d", old);
            if (c.pend) { CHECK(neco_setcancelstate(NECO_CANCEL_ENABLE, &old) == NECO_OK, "setstate", "enable"); break; }
            c.dis = true; tr("c%d disables cancelation", i); for (int k = 0; k < n.arg; k++) res(c, i, "sleep (disabled)", neco_sleep(n.t)); c.dis = false;
            CHECK(neco_setcancelstate(NECO_CANCEL_ENABLE, &old) == NECO_OK && old == NECO_CANCEL_DISABLE, "setstate", "old state %d", old); tr("c%d enables cancelation", i); break; }
        }
    }
}
PROP(c08c, "a coroutine with at least two nested cleanup handlers pushed is terminated by an exit or an async cancelation") {
    int n = src.range(1, 5); K.clear(); K.resize((size_t)n); std::string t; hid = 0; hbeh.clear(); howner.clear(); finishing = false;
    for (int i = 0; i < n; i++) { int budget = 14; gen_nodes(src, K[(size_t)i].plan, 0, budget); K[(size_t)i].ctype = src.chance(75) ? 1 : 2; t += strf("c%d (%s): ", i, K[(size_t)i].ctype == 1 ? "async" : "inline") + rn(K[(size_t)i].plan) + "\n"; }
    struct Cn { int target; int64_t at; }; static std::vector<Cn> cn; cn.clear();
    int nc = src.range(0, 5); for (int i = 0; i < nc; i++) { cn.push_back({(int)src.draw((uint32_t)n), (int64_t)src.range(0, 30) * 400000}); t += strf("at %lld ns main cancels c%d\n", (long long)cn.back().at, cn.back().target); }
    std::sort(cn.begin(), cn.end(), [](const Cn &a, const Cn &b) { return a.at < b.at; });
    kit_begin(t); vc_begin();
    static int maxdepth, terminated; maxdepth = terminated = 0;
    run_rt([&] {
        neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
        CHECK(pipe2(pfd, O_NONBLOCK) == 0, "harness", "pipe");
        neco_chan_make(&ch, 4, 0); memset((void *)&mu, 0, sizeof mu); memset((void *)&wg, 0, sizeof wg); neco_mutex_lock(&mu); neco_waitgroup_add(&wg, 1);
        for (int i = 0; i < n; i++) {
            go([i] {
                CoM &c = K[(size_t)i]; c.id = neco_getid(); c.started = true; neco_setcanceltype(c.ctype, nullptr);
                exec(i, c.plan);
                CHECK(c.st.empty(), "cleanup", "handlers left at the end of c%d", i);
                CHECK(!c.exiting, "zombie", "c%d reached its end although it is being terminated", i);
                c.ended = true; tr("c%d returns", i);
            });
        }
        int64_t t0 = vc_now();
        for (auto &x : cn) {
            if (t0 + x.at > vc_now()) neco_sleep_dl(t0 + x.at);
            CoM &c = K[(size_t)x.target]; if (c.ended || c.dis || c.exiting) continue;
            c.pend++; tr("main cancels c%d", x.target); size_t d = c.st.size();
            int r = neco_cancel_dl(c.id, neco_now() + 50000000); tr("main cancel -> %d", r);
            if (r != NECO_OK) c.pend--;
            if (r != NECO_OK && r != NECO_TIMEDOUT) CHECK(r == NECO_NOTFOUND, "cancel", "cancel returned %d", r);
            if (c.exiting) { maxdepth = std::max(maxdepth, (int)d); }
        }
        neco_sleep(2000000000LL);
        finishing = true;
        for (int k = 0; k < 3; k++) for (auto &c : K) { if (c.dis && !c.exiting) continue; if (neco_join_dl(c.id, neco_now()) != NECO_OK) { c.pend++; neco_cancel_dl(c.id, neco_now() + 1000000); } }
        for (size_t i = 0; i < K.size(); i++) { int r = neco_join_dl(K[i].id, neco_now() + 2000000000LL); CHECK(r == NECO_OK, "stuck", "c%zu does not end (join returned %d)", i, r);
            CoM &c = K[i]; CHECK(c.st.empty(), "cleanup-lost", "c%zu ended but %zu of its cleanup handlers never ran", i, c.st.size());
            if (c.exiting) { terminated++; maxdepth = std::max(maxdepth, c.pushed); } }
        neco_chan_release(ch); neco_mutex_unlock(&mu); close(pfd[0]); close(pfd[1]);
    });
    nontrivial(terminated > 0 && maxdepth >= 2);
    if (terminated) label("terminated");
    uint64_t h = 0; for (auto &c : K) h += (uint64_t)c.handled;
    count("handlers-run", h);
}
