// C09: life of coroutines - start, arguments, identifiers, join, end, and runtimes one after another.
#include "kit.h"
enum { A_START, A_YIELD, A_SLEEP, A_JOIN, A_JOINDL, A_EXIT, A_IDS, A_CANCEL, A_SELFJOIN, A_JOINBAD, A_DIRTY, A_BURST };
struct Act { int a; int arg = 0; int64_t t = 0; int child = -1; };
struct Nd { int argc = 0; bool viav = false; int parent = -1; std::vector<Act> acts; };
static const int MAXA = 40;
static std::vector<Nd> N;
struct Live { bool started = false, ended = false, running = false; int64_t id = -1; int64_t lastid = 0; bool canceled = false; int64_t endt = 0; };
static std::vector<Live> L; static std::set<int64_t> ids; static int64_t maxid; static int round_; static int envtype, envstate = NECO_CANCEL_ENABLE; static uint64_t nstart, njoinblocked, nlate; static bool final_;
static void *argval(int n, int k) { return (void *)(intptr_t)mix64((uint64_t)(n * 1000003 + k * 97 + round_ * 7919 + 5)); }
static void body(int argc, void **argv);
static thread_local int pendingnode;
static int st(int n) {
    void *a[MAXA]; for (int i = 0; i < MAXA; i++) a[i] = argval(n, i);
    pendingnode = n; int c = N[(size_t)n].argc; int r;
    if (N[(size_t)n].viav) { std::vector<void *> v(a, a + c); r = neco_startv(body, c, c ? v.data() : nullptr); for (auto &x : v) x = (void *)0x5a5a; }
    else r = neco_start(body, c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19],
                        a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
    return r;
}
static void nop(int, void **) {}
static void chkargs(int n, int argc, void **argv, const char *when) {
    CHECK(argc == N[(size_t)n].argc, "args", "coroutine %d got argc %d instead of %d", n, argc, N[(size_t)n].argc);
    for (int i = 0; i < argc; i++) CHECK(argv[i] == argval(n, i), "args", "argument %d of %d of coroutine %d is %p instead of %p (%s)", i, argc, n, argv[i], argval(n, i), when);
}
static void chkids(int n, const char *when) {
    Live &l = L[(size_t)n]; int64_t g = neco_getid();
    CHECK(g == l.id, "id", "coroutine %d: own identifier changed from %lld to %lld (%s)", n, (long long)l.id, (long long)g, when);
    int64_t s = neco_starterid(), es = N[(size_t)n].parent < 0 ? 0 : L[(size_t)N[(size_t)n].parent].id;
    CHECK(s == es, "starterid", "coroutine %d: starter %lld, expected %lld (%s)", n, (long long)s, (long long)es, when);
    int64_t la = neco_lastid(); CHECK(la == l.lastid, "lastid", "coroutine %d: last started %lld, expected %lld (%s)", n, (long long)la, (long long)l.lastid, when);
}
static void newid(int64_t id) {
    CHECK(id > 0, "id", "identifier %lld", (long long)id);
    CHECK(ids.insert(id).second, "id-reused", "identifier %lld was used before", (long long)id);
}
static void end(int n) { Live &l = L[(size_t)n]; l.ended = true; l.running = false; l.endt = vc_now(); tr("%d ends", n); }
static void onclean(void *a) { end((int)(intptr_t)a); }
static void startchild(int n, int ch) {
    L[(size_t)n].lastid = -1;
    int r = st(ch); nstart++;
    CHECK(r == NECO_OK, "start", "start of coroutine %d returned %d", ch, r);
    CHECK(L[(size_t)ch].started, "start-late", "neco_start returned before coroutine %d began to run", ch);
    L[(size_t)n].lastid = L[(size_t)ch].id;
    chkids(n, "after start");
}
static void run_acts(int n, int argc, void **argv) {
    Live &l = L[(size_t)n];
    for (auto &a : N[(size_t)n].acts) {
        CHECK(l.running && !l.ended, "zombie", "coroutine %d runs after its end", n);
        switch (a.a) {
        case A_START: startchild(n, a.child); break;
        case A_YIELD: for (int i = 0; i <= a.arg % 3; i++) neco_yield(); break;
        case A_SLEEP: { int r = neco_sleep(a.t); if (r == NECO_CANCELED) { CHECK(l.canceled, "spurious-cancel", "sleep of %d canceled", n); l.canceled = false; } break; }
        case A_JOIN: case A_JOINDL: {
            // join a descendant or an elder that does not wait for us
            int t = a.arg % (int)N.size(); if (t == n || !L[(size_t)t].started) break;
            bool anc = false; for (int p = n; p >= 0; p = N[(size_t)p].parent) if (p == t) anc = true;
            Live &x = L[(size_t)t]; bool was = x.ended; int64_t t0 = vc_now(); bool dl = a.a == A_JOINDL || anc || t < n; tr("%d joins %d%s", n, t, dl ? " with deadline" : "");
            int64_t d = t0 + a.t; uint64_t rb = vc_polls + vc_sleeps;
            int r = dl ? neco_join_dl(x.id, d) : neco_join(x.id); tr("%d join %d -> %d", n, t, r);
            if (was && !dl) { CHECK(r == NECO_OK, "join", "join of ended %d returned %d", t, r); CHECK(vc_polls + vc_sleeps == rb, "join-blocks", "join of an ended coroutine waited"); }
            if (was) CHECK(r == NECO_OK, "join", "join of ended %d returned %d", t, r); else njoinblocked++;
            if (r == NECO_OK) CHECK(x.ended, "join-early", "join of %d by %d returned before it ended", t, n);
            else if (r == NECO_TIMEDOUT) CHECK(dl && vc_now() >= d, "join-timeout", "join timed out early");
            else if (r == NECO_CANCELED) { CHECK(l.canceled, "spurious-cancel", "join of %d by %d canceled", t, n); l.canceled = false; }
            else fail("join", "join returned %d", r);
            break; }
        case A_EXIT: if (a.arg % 3 == 0) { tr("%d exits", n); neco_exit(); fail("exit", "neco_exit returned"); } break;
        case A_IDS: chkids(n, "later"); chkargs(n, argc, argv, "later"); break;
        case A_CANCEL: { int t = a.arg % (int)N.size(); Live &x = L[(size_t)t]; if (t == n || !x.started) break; bool was = x.ended; x.canceled = true; tr("%d cancels %d", n, t); int r = neco_cancel(x.id); if (was) CHECK(r == NECO_NOTFOUND, "cancel-ended", "cancel of an ended coroutine returned %d", r); else CHECK(r == NECO_OK || r == NECO_NOTFOUND || (r == NECO_CANCELED && l.canceled), "cancel", "cancel returned %d", r); if (r == NECO_CANCELED) l.canceled = false; break; }
        case A_SELFJOIN: { int r = neco_join(l.id); if (r == NECO_CANCELED) { CHECK(l.canceled, "spurious-cancel", "join"); l.canceled = false; } else CHECK(r == NECO_PERM, "self-join", "join of itself returned %d", r); break; }
        case A_JOINBAD: { int r = neco_join(maxid + 1000000 + a.arg); CHECK(r == NECO_OK, "join", "join of an unknown identifier returned %d", r); r = neco_join(-5); CHECK(r == NECO_OK, "join", "join(-5) returned %d", r); break; }
        case A_DIRTY: { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); char buf[2048]; memset(buf, 0xa5, sizeof buf); asm volatile("" ::"r"(buf) : "memory"); break; }
        case A_BURST: { for (int i = 0; i < a.arg * 3; i++) { int r = neco_start(nop, 0); CHECK(r == NECO_OK, "start", "start returned %d", r); newid(neco_lastid()); } l.lastid = neco_lastid(); break; }
        }
    }
}
static void body(int argc, void **argv) {
    int n = pendingnode; Live &l = L[(size_t)n];
    CHECK(!l.started, "start-twice", "coroutine %d started twice", n);
    l.started = l.running = true; l.id = neco_getid(); newid(l.id); maxid = std::max(maxid, l.id);
    tr("%d starts (id %lld)", n, (long long)l.id);
    int old = 0, os = 0;
    CHECK(neco_setcanceltype(NECO_CANCEL_ASYNC, &old) == NECO_OK && old == envtype, "fresh", "a new coroutine has cancel type %d instead of %d", old, envtype);
    CHECK(neco_setcancelstate(NECO_CANCEL_ENABLE, &os) == NECO_OK && os == envstate, "fresh", "a new coroutine has cancel state %d instead of %d", os, envstate);
    chkargs(n, argc, argv, "at start"); chkids(n, "at start");
    CHECK(neco_gen_yield(nullptr) == NECO_NOTGENERATOR, "fresh", "a coroutine that is no generator can yield values");
    int r = neco_signal_wait_dl(neco_now() + 1000); CHECK(r == NECO_NOSIGWATCH, "fresh", "a new coroutine can wait for signals without a watch: %d", r);
    neco_cleanup_push(onclean, (void *)(intptr_t)n);
    run_acts(n, argc, argv); chkids(n, "at end"); chkargs(n, argc, argv, "at end");
    neco_cleanup_pop(1);
}
PROP(c09l, "at least one coroutine with more than 4 arguments and one join that had to wait, over all runtimes of the case") {
    int rounds = src.range(1, 4); envtype = src.chance(25) ? NECO_CANCEL_INLINE : NECO_CANCEL_ASYNC; envstate = src.chance(15) ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE; std::string t; std::vector<std::vector<Nd>> plans; bool big = false;
    for (int r = 0; r < rounds; r++) {
        std::vector<Nd> P(1); std::vector<int> open{0}; size_t maxn = (size_t)src.pick({3, 6, 12, 40});
        for (size_t i = 0; i < P.size(); i++) {
            int k = src.range(0, 7); P[i].argc = src.weighted({30, 30, 10, 10, 10}); if (P[i].argc == 3) P[i].argc = src.range(3, 6); else if (P[i].argc == 4) P[i].argc = src.range(4, MAXA); P[i].viav = src.chance(40); big |= P[i].argc > 4;
            for (int j = 0; j < k; j++) {
                Act a; a.a = src.weighted({P.size() < maxn ? 30 : 0, 14, 12, 12, 10, 3, 8, 6, 2, 2, 3, 3}); a.arg = (int)src.draw(60); a.t = (int64_t)src.range(0, 12) * 700000;
                if (a.a == A_START) { Nd c; c.parent = (int)i; a.child = (int)P.size(); P.push_back(c); }
                P[i].acts.push_back(a);
            }
        }
        static const char *AN[] = {"start", "yield", "sleep", "join", "join_dl", "exit", "ids", "cancel", "join-self", "join-unknown", "dirty", "burst"};
        t += strf("runtime %d:\n", r);
        for (size_t i = 0; i < P.size(); i++) { t += strf(" %zu(argc %d%s): ", i, P[i].argc, P[i].viav ? ",v" : ""); for (auto &a : P[i].acts) t += strf("%s%s; ", AN[a.a], a.a == A_START ? strf(" %d", a.child).c_str() : a.a == A_JOIN || a.a == A_JOINDL || a.a == A_CANCEL ? strf(" %d", a.arg % (int)P.size()).c_str() : a.a == A_SLEEP ? strf(" %lld", (long long)a.t).c_str() : ""); t += "\n"; }
        plans.push_back(P);
    }
    kit_begin(t); vc_begin(); alloc_install(); neco_env_setcanceltype(envtype); neco_env_setcancelstate(envstate); ids.clear(); maxid = 0;
    int f0 = count_fds(); long a0 = alloc_live();
    for (round_ = 0; round_ < rounds; round_++) {
        N = plans[(size_t)round_]; L.assign(N.size(), Live());
        int rc = st(0); CHECK(rc == NECO_OK, "runtime", "neco_start of runtime %d returned %d", round_, rc);
        for (size_t i = 0; i < L.size(); i++) CHECK(!L[i].started || L[i].ended, "runtime-early", "runtime %d returned but coroutine %zu has not ended", round_, i);
        CHECK(L[0].started, "start", "the first coroutine never ran");
        CHECK(alloc_live() == a0, "leak", "%ld blocks not freed by runtime %d", alloc_live() - a0, round_);
        CHECK(neco_getid() == NECO_PERM && neco_lastid() == NECO_PERM && neco_starterid() == NECO_PERM, "runtime", "identifiers outside a coroutine");
    }
    CHECK(count_fds() == f0, "fdleak", "descriptors leaked");
    nontrivial(big && njoinblocked > 0); if (rounds > 1) label("several-runtimes"); count("starts", nstart); if (njoinblocked) label("join-waits");
}
// many coroutines alive at once, ending in generated order
PROP(c09m, "at least 100 coroutines alive at once") {
    int n = src.pick({10, 100, 300, 1000}); int mode = (int)src.draw(4); int waves = src.range(1, 2); int stride = src.range(1, 17); bool joinall = src.chance(50);
    kit_begin(strf("%d coroutines, %d waves, mode %d, stride %d, %s", n, waves, mode, stride, joinall ? "joined by main" : "not joined")); vc_begin(1, 30000000);
    static int alive, total; static std::vector<int64_t> id; static std::vector<char> done; static std::set<int64_t> seen; alive = total = 0; seen.clear();
    run_rt([&] {
        for (int w = 0; w < waves; w++) {
            id.assign((size_t)n, 0); done.assign((size_t)n, 0);
            for (int i = 0; i < n; i++) {
                int r = go([=] {
                    int64_t me = neco_getid(); id[(size_t)i] = me; CHECK(seen.insert(me).second, "id-reused", "identifier %lld reused", (long long)me);
                    alive++; total++; char guard[64]; memset(guard, i & 255, 64);
                    if (mode == 0) neco_yield();
                    else if (mode == 1) neco_sleep((int64_t)((i * stride) % n) * 1000);
                    else if (mode == 2) neco_suspend();
                    else if (i > 0) neco_join(id[(size_t)(i * stride % i)]);
                    else neco_sleep(1000000);
                    for (char g : guard) CHECK(g == (char)(i & 255), "stack", "locals of coroutine %d changed", i);
                    CHECK(neco_getid() == me, "id", "identifier changed");
                    alive--; done[(size_t)i] = 1; vc_progress();
                });
                CHECK(r == NECO_OK, "start", "start %d returned %d", i, r);
                CHECK(id[(size_t)i] != 0 && neco_lastid() == id[(size_t)i], "start-late", "coroutine %d has not begun when start returned", i);
            }
            if (mode == 2) { for (int i = 0; i < n; i++) { int k = (int)(((long)i * stride) % n); if (!done[(size_t)k]) neco_resume(id[(size_t)k]); } for (int i = 0; i < n; i++) if (!done[(size_t)i]) neco_resume(id[(size_t)i]); }
            if (joinall || w + 1 < waves) for (int i = 0; i < n; i++) { int r = neco_join(id[(size_t)i]); CHECK(r == NECO_OK && done[(size_t)i], "join", "join of %d returned %d, done %d", i, r, done[(size_t)i]); }
        }
    });
    CHECK(alive == 0 && total == n * waves, "runtime-early", "%d coroutines alive after the runtime ended (%d started)", alive, total);
    nontrivial(n >= 100); label(n >= 1000 ? "thousands" : "fewer");
}
