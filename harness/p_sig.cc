// C17: signal delivery against a model (occurrences pending / delivered), and
// the fate of the process for signals nobody watches.
#include "kit.h"
#include <signal.h>
#include <sys/wait.h>
#include <pthread.h>
static const int SG[] = {SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE, SIGUSR1, SIGUSR2, SIGALRM};
static const char *SGN[] = {"HUP", "INT", "QUIT", "TERM", "PIPE", "USR1", "USR2", "ALRM"};
static int sgi(int s) { for (int i = 0; i < 8; i++) if (SG[i] == s) return i; return -1; }
enum { G_WATCH, G_UNWATCH, G_WAIT, G_RAISE, G_YIELD, G_SLEEP, G_CANCEL, G_STATS };
struct Gs { int o; int s = 0; int64_t dl = 0; int n = 1; };
struct Gc { std::vector<Gs> plan; int64_t id = 0; bool ended = false, started = false, pend = false, waiting = false; unsigned watch = 0, mask = 0; int64_t dl = 0; int due = 0; uint64_t seq = 0; };
static std::vector<Gc> K; static int pending[8]; static uint64_t ndel, nraise, waitseq; static int npairs; static bool finishing;
static int watchers(int s) { int n = 0; for (auto &k : K) if (!k.ended && k.watch & 1u << s) n++; return n; }
static void do_raise(int who, int s) {
    if (!watchers(s)) { if (s != 4) return; tr("c%d raises %s (unwatched)", who, SGN[s]); raise(SG[s]); return; }
    pending[s]++; nraise++; tr("c%d raises %s", who, SGN[s]); raise(SG[s]);
}
static int wait1(int i, int64_t dl, bool plain) {
    Gc &k = K[(size_t)i]; k.mask = k.watch; k.waiting = true; k.dl = dl; k.due = 0; k.seq = ++waitseq; tr("%lld c%d waits%s", (long long)vc_now(), i, dl == INT64_MAX ? "" : " with a deadline"); bool p0 = k.pend;
    int r = plain ? neco_signal_wait() : neco_signal_wait_dl(dl); k.waiting = false; int le = neco_lasterr(); tr("%lld c%d gets %s", (long long)vc_now(), i, r > 0 && sgi(r) >= 0 ? SGN[sgi(r)] : strf("%d", r).c_str());
    CHECK(le == (r < 0 ? r : NECO_OK), "lasterr", "the wait returned %d but neco_lasterr() is %d", r, le);
    if (r == NECO_NOSIGWATCH) { CHECK(!k.mask, "nosigwatch", "c%d watches signals but the wait says it does not", i); return r; }
    CHECK(k.mask, "nosigwatch", "c%d watches no signal but the wait returned %d", i, r);
    if (r == NECO_CANCELED) { CHECK(k.pend, "spurious-cancel", "the wait of c%d reports canceled but nobody canceled it", i); k.pend = false; return r; }
    CHECK(!p0, "cancel-ignored", "the wait of c%d returned %d although it was canceled before", i, r);
    if (r == NECO_TIMEDOUT) { CHECK(dl != INT64_MAX && vc_now() > dl, "early-timeout", "the wait of c%d timed out too early", i); return r; }
    int s = sgi(r); CHECK(r > 0 && s >= 0, "result", "the wait of c%d returned %d", i, r);
    CHECK(k.mask & 1u << s, "not-watched", "c%d received signal %s which it does not watch", i, SGN[s]);
    CHECK(pending[s] > 0, "invented", "c%d received signal %s but no occurrence is outstanding", i, SGN[s]); pending[s]--; ndel++;
    return r;
}
static void runco(int i) {
    Gc &k = K[(size_t)i]; int r;
    for (auto &g : k.plan) {
        if (finishing) break; vc_progress();
        switch (g.o) {
        case G_WATCH: r = neco_signal_watch(SG[g.s]); CHECK(r == NECO_OK, "watch", "watch returned %d", r); k.watch |= 1u << g.s; tr("c%d watches %s", i, SGN[g.s]); break;
        case G_UNWATCH: if (pending[g.s] && g.s != 4 && k.watch & 1u << g.s && watchers(g.s) == 1) break; if (g.s == 4 && k.watch & 1u << 4 && watchers(4) == 1 && pending[4]) break; r = neco_signal_unwatch(SG[g.s]); CHECK(r == NECO_OK, "unwatch", "unwatch returned %d", r); k.watch &= ~(1u << g.s); tr("c%d unwatches %s", i, SGN[g.s]); break;
        case G_WAIT: wait1(i, g.dl == INT64_MAX ? INT64_MAX : vc_now() + g.dl, g.dl == INT64_MAX && g.n & 1); break;
        case G_RAISE: for (int q = 0; q < g.n; q++) do_raise(i, g.s); break;
        case G_YIELD: neco_yield(); break;
        case G_SLEEP: r = neco_sleep(g.dl); if (r == NECO_CANCELED) { CHECK(k.pend, "spurious-cancel", "sleep"); k.pend = false; } break;
        case G_CANCEL: { Gc &t = K[(size_t)g.s % K.size()]; if (!t.started || t.ended || &t == &k) break; bool was = t.pend; t.pend = true; tr("c%d cancels c%zd", i, &t - &K[0]); r = neco_cancel(t.id); if (r == NECO_CANCELED) { CHECK(k.pend, "spurious-cancel", "cancel"); k.pend = false; t.pend = was; } break; }
        }
    }
    // before ending, let no occurrence be left that only this coroutine watches
    for (int tries = 0; tries < 200; tries++) { bool mine = false; for (int s = 0; s < 8; s++) if (k.watch & 1u << s && pending[s] && watchers(s) == 1) mine = true; if (!mine) break; wait1(i, vc_now() + 5000000, false); CHECK(tries < 199, "lost", "an occurrence that was raised is not delivered"); }
    k.ended = true; tr("c%d ends", i);
}
PROP(c17m, "at least 3 occurrences delivered, with 2 or more coroutines watching at some point") {
    int n = src.range(1, 6); K.clear(); K.resize((size_t)n); int sub = src.range(1, 8); std::string t; finishing = false;
    for (int i = 0; i < n; i++) { int m = src.range(1, 14); Gc &k = K[(size_t)i]; t += strf("c%d:", i);
        if (src.chance(60)) { Gs g; g.o = G_WATCH; g.s = (int)src.draw((uint32_t)sub); k.plan.push_back(g); t += strf(" watch %s;", SGN[g.s]); }
        for (int j = 0; j < m; j++) { Gs g; g.o = src.weighted({16, 8, 26, 24, 8, 8, 4}); g.s = (int)src.draw(g.o == G_CANCEL ? (uint32_t)n : (uint32_t)sub); g.n = src.pick({1, 1, 1, 2, 5}); int d = src.weighted({55, 30, 8}); g.dl = g.o == G_SLEEP ? (int64_t)src.range(0, 8) * 500000 : d == 0 ? INT64_MAX : d == 1 ? (int64_t)src.range(0, 10) * 1000000 : -1;
            k.plan.push_back(g);
            switch (g.o) { case G_WATCH: t += strf(" watch %s;", SGN[g.s]); break; case G_UNWATCH: t += strf(" unwatch %s;", SGN[g.s]); break; case G_WAIT: t += g.dl == INT64_MAX ? " wait;" : strf(" wait(%+lld);", (long long)g.dl); break; case G_RAISE: t += strf(" raise %s x%d;", SGN[g.s], g.n); break; case G_YIELD: t += " yield;"; break; case G_SLEEP: t += strf(" sleep %lld;", (long long)g.dl); break; case G_CANCEL: t += strf(" cancel c%d;", g.s); break; } }
        t += "\n"; }
    kit_begin(t); vc_begin(20000, 30000000); memset(pending, 0, sizeof pending); ndel = nraise = 0; waitseq = 0; static int maxw; maxw = 0; static bool io; io = src.chance(25); 
    // the program's own signal behaviour, which has to be back afterwards
    static const int AL[] = {SIGHUP, SIGINT, SIGQUIT, SIGUSR1, SIGUSR2, SIGPIPE, SIGTERM, SIGALRM, SIGCONT, SIGCHLD, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT, SIGWINCH}; const int NA = sizeof AL / sizeof *AL;
    struct sigaction before[NA]; stack_t st0, st1; sigset_t m0, m1; bool own = src.chance(40);
    if (own) { label("own handlers"); for (int s = 0; s < NA; s++) { struct sigaction sa; memset(&sa, 0, sizeof sa); int w = (int)src.draw(4); if (!w || AL[s] == SIGSEGV || AL[s] == SIGALRM) continue; sa.sa_handler = w == 1 ? SIG_IGN : +[](int) {}; sa.sa_flags = w == 2 ? SA_RESTART : w == 3 ? SA_ONSTACK | SA_NODEFER : 0; if (w == 3) sigaddset(&sa.sa_mask, SIGUSR1); sigaction(AL[s], &sa, nullptr); }
        if (src.chance(60)) { static char mine[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = mine; ss.ss_size = sizeof mine; sigaltstack(&ss, nullptr); label("own signal stack"); }
        if (src.chance(30)) { sigset_t b; sigemptyset(&b); sigaddset(&b, SIGWINCH); sigaddset(&b, SIGURG); sigprocmask(SIG_BLOCK, &b, nullptr); } }
    for (int s = 0; s < NA; s++) sigaction(AL[s], nullptr, &before[s]); sigaltstack(nullptr, &st0); sigprocmask(SIG_BLOCK, nullptr, &m0);
    run_rt([&] {
        static int pp[2]; if (io) { (void)!pipe2(pp, O_NONBLOCK); go([] { char c; neco_read(pp[0], &c, 1); }); }
        for (int i = 0; i < (int)K.size(); i++) go([i] { Gc &k = K[(size_t)i]; k.id = neco_getid(); k.started = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); runco(i); });
        int quiet = 0; uint64_t last = 0; 
        for (int pass = 0;; pass++) {
            neco_sleep(1000000); vc_progress(); bool any = false, act = false; if (pass > 100000) inconclusive("monitor");
            int w = 0; for (auto &k : K) if (!k.ended && k.watch) w++; maxw = std::max(maxw, w);
            for (auto &k : K) { if (k.ended) continue; any = true; if (!k.waiting) { act = true; continue; }
                bool can = false; for (int s = 0; s < 8; s++) if (k.mask & 1u << s && pending[s]) can = true;
                if (can || k.pend || (k.dl != INT64_MAX && vc_now() > k.dl + 2000000)) { act = true; if (++k.due > 120) { if (can) fail("not-delivered", "c%zd waits for a signal that occurred and is outstanding", &k - &K[0]); fail("late", "the wait of c%zd does not end", &k - &K[0]); } } else k.due = 0;
                if (k.dl != INT64_MAX) act = true; }
            if (!any) break;
            if (act || last != ndel) { quiet = 0; last = ndel; } else if (++quiet > 6) { finishing = true; for (auto &k : K) if (!k.ended && k.waiting) { k.pend = true; neco_cancel(k.id); } quiet = 0; }
        }
        int left = 0; for (int s = 0; s < 8; s++) { left += pending[s]; } CHECK(!left, "lost", "%d occurrences were never delivered", left);
        if (io) { if (write(pp[1], "x", 1) != 1) {} neco_sleep(2000000); close(pp[0]); close(pp[1]); }
        neco_stats st; neco_getstats(&st); CHECK(st.sigwaiters == 0, "stats", "%zu signal waiters are reported but nobody waits", (size_t)st.sigwaiters);
    });
    for (int s = 0; s < NA; s++) { struct sigaction sa; sigaction(AL[s], nullptr, &sa); CHECK(sa.sa_handler == before[s].sa_handler && ((sa.sa_flags ^ before[s].sa_flags) & ~0x04000000) == 0 && !memcmp(&sa.sa_mask, &before[s].sa_mask, 8), "restore", "the handler of signal %d is not restored after the runtime ended", AL[s]); }
    sigaltstack(nullptr, &st1); CHECK(st0.ss_flags == st1.ss_flags && ((st0.ss_flags & SS_DISABLE) || (st0.ss_sp == st1.ss_sp && st0.ss_size == st1.ss_size)), "restore", "the alternate signal stack is not restored after the runtime ended"); sigprocmask(SIG_BLOCK, nullptr, &m1); CHECK(!memcmp(&m0, &m1, 8), "restore", "the signal mask is not restored after the runtime ended");
    nontrivial(ndel >= 3 && maxw >= 2); count("delivered", ndel); count("raised", nraise);
}
// What happens to the process: status of a child that raises a signal in a generated situation.
enum { X_NEVER, X_UNWATCHED, X_ENDED, X_WATCHED, X_PENDING_UNWATCH, X_PENDING_END, X_AFTER, X_THREAD };
static const char *XN[] = {"nobody watches it", "its watcher stopped watching", "its watcher ended", "another coroutine watches it", "its last watcher stops watching while it is pending", "its last watcher ends while it is pending", "the runtime ended", "from another thread, nobody watches it"};
PROP(c17x, "the signal is raised inside the runtime while at least one other coroutine lives") {
    static int s, how, others[6], bystander, nest, how2; s = (int)src.draw(8); how = src.weighted({20, 15, 15, 20, 10, 10, 10, 8}); for (int i = 0; i < 6; i++) others[i] = (int)src.draw(8); bystander = (int)src.draw(5); nest = src.range(0, 3); how2 = (int)src.draw(2);
    static const char *BN[] = {"nobody", "a yielding coroutine", "a sleeping coroutine", "a coroutine waiting for a file", "a coroutine waiting for another signal"};
    std::string t = strf("signal %s is raised: %s; also alive: %s; other signals watched: ", SGN[s], XN[how], BN[bystander]); for (int i = 0; i < nest; i++) if (others[i] != s) t += strf("%s ", SGN[others[i]]);
    kit_begin(t);
    fflush(stdout); fflush(stderr); pid_t p = fork();
    if (p == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); for (int i = 0; i < 8; i++) signal(SG[i], SIG_DFL); signal(SIGALRM, SIG_DFL); alarm(0);
        static bool done; static int pp[2]; done = false;
        auto fn = [](int, void *[]) {
            static neco_chan *never; neco_chan_make(&never, 0, 0);
            auto quit = [] { _exit(50); };
            if (bystander == 1) go([] { while (!done) neco_yield(); }); if (bystander == 2) go([] { neco_sleep(20000000); });
            if (bystander == 3) { (void)!pipe2(pp, O_NONBLOCK); go([] { char c; neco_read_dl(pp[0], &c, 1, neco_now() + 20000000); }); }
            if (bystander == 4) go([] { for (int i = 0; i < 8; i++) if (i != s) neco_signal_watch(SG[i]); neco_signal_wait_dl(neco_now() + 20000000); });
            for (int i = 0; i < nest; i++) if (others[i] != s) neco_signal_watch(SG[others[i]]);
            if (how == X_UNWATCHED) { neco_signal_watch(SG[s]); neco_signal_watch(SG[s]); neco_yield(); neco_signal_unwatch(SG[s]); }
            if (how == X_ENDED) { go([] { neco_signal_watch(SG[s]); neco_yield(); if (how2) neco_exit(); }); neco_yield(); neco_yield(); neco_yield(); }
            if (how == X_WATCHED) { go([] { neco_signal_watch(SG[s]); if (how2) neco_sleep(1000000); int r = neco_signal_wait_dl(neco_now() + 2000000000); if (r != SG[s]) _exit(51); neco_signal_unwatch(SG[s]); done = true; }); }
            if (how == X_PENDING_UNWATCH) { neco_signal_watch(SG[s]); raise(SG[s]); neco_signal_unwatch(SG[s]); neco_sleep(5000000); done = true; (void)quit; return; }
            if (how == X_PENDING_END) { go([] { neco_signal_watch(SG[s]); raise(SG[s]); }); neco_sleep(5000000); done = true; return; }
            if (how == X_AFTER) { done = true; return; }
            if (how == X_THREAD) { neco_work(-1, [](void *) { pthread_kill(pthread_self(), SG[s]); usleep(1000); }, nullptr); neco_sleep(5000000); done = true; return; }
            raise(SG[s]);
            if (how == X_WATCHED) { for (int i = 0; i < 4000 && !done; i++) neco_sleep(1000000); if (!done) _exit(52); }
            done = true;
        };
        int r = neco_start(fn, 0); if (r != NECO_OK) _exit(53);
        if (how == X_AFTER) { raise(SG[s]); }
        _exit(42);
    }
    int st = 0; for (int i = 0; i < 400; i++) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) { p = 0; break; } usleep(i < 100 ? 500 : 20000); }
    if (p) { kill(p, SIGKILL); waitpid(p, &st, 0); fail("hang", "the process does not end: %s", t.c_str()); }
    std::string got = WIFEXITED(st) ? strf("exits with %d", WEXITSTATUS(st)) : strf("is killed by signal %d", WTERMSIG(st)); bool pipe = s == 4;
    if (how == X_AFTER) CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SG[s], "after", "signal %s after the runtime ended: the process %s", SGN[s], got.c_str());
    else if (how == X_WATCHED) CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, "watched", "signal %s is watched: the process %s", SGN[s], got.c_str());
    else if (pipe) CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, "sigpipe", "an unwatched SIGPIPE must be ignored: the process %s", got.c_str());
    else CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 128 + SG[s], "default", "signal %s, %s: the process %s", SGN[s], XN[how], got.c_str());
    nontrivial(bystander != 0 || how == X_WATCHED); label(XN[how]);
}
// Real time: another process sends the signals while the runtime is idle, sleeping or polling.
PROP(c17r, "at least 3 signals sent by another process, spaced in time, while the runtime is idle") {
    static int n, sg[8], idle; n = src.range(1, 6); idle = (int)src.draw(3); int gap[8]; for (int i = 0; i < n; i++) { sg[i] = (int)src.draw(8); gap[i] = src.range(3, 15); }
    std::string t = strf("idle in %s; signals:", idle == 0 ? "a wait without deadline" : idle == 1 ? "sleep" : "file wait"); for (int i = 0; i < n; i++) t += strf(" +%dms %s", gap[i], SGN[sg[i]]); kit_begin(t);
    static std::vector<int> got; static bool end; got.clear(); end = false; static int pp[2]; static int rdy[2]; if (pipe(rdy)) inconclusive("pipe"); static pid_t child; 
    pid_t me = getpid(); child = fork(); if (child == 0) { char c; if (read(rdy[0], &c, 1) != 1) _exit(0); for (int i = 0; i < n; i++) { usleep((useconds_t)gap[i] * 1000); kill(me, SG[sg[i]]); } _exit(0); }
    auto fn = [](int, void *[]) {
        if (idle == 2) { (void)!pipe2(pp, O_NONBLOCK); go([] { char c; neco_read_dl(pp[0], &c, 1, neco_now() + 3000000000LL); }); } if (idle == 1) go([] { neco_sleep(900000000); });
        for (int i = 0; i < 8; i++) neco_signal_watch(SG[i]); if (write(rdy[1], "x", 1) != 1) return; int64_t lim = neco_now() + 5000000000LL;
        while ((int)got.size() < n) { int r = neco_signal_wait_dl(lim); if (r < 0) break; got.push_back(sgi(r)); }
        if (idle == 2) { if (write(pp[1], "x", 1) != 1) {} neco_sleep(1000000); close(pp[0]); close(pp[1]); }
    };
    neco_start(fn, 0); int st; waitpid(child, &st, 0); close(rdy[0]); close(rdy[1]);
    if ((int)got.size() < n) { // two equal signals sent back to back may be merged by the system only if the process could not run for the whole gap
        std::map<int, int> a, b; for (int i = 0; i < n; i++) a[sg[i]]++; for (int g : got) b[g]++; for (auto &x : a) CHECK(b[x.first] > 0, "not-delivered", "signal %s was sent but not delivered within 5 s", SGN[x.first]); inconclusive("merged"); }
    for (int i = 0; i < n; i++) { bool ok = false; for (int g : got) if (g == sg[i]) ok = true; CHECK(ok, "not-delivered", "signal %s was sent but not delivered", SGN[sg[i]]); }
    nontrivial(n >= 3);
}
// Promptness: a signal raised while its watcher waits is delivered at once,
// not when the next timer or file event comes.
PROP(c17p, "at least 3 signals raised while the only other coroutines wait for a file, a distant time, or signals") {
    static int nw, n, io, slp, yl; static unsigned mask[4]; static int sg[24]; static int burst[8]; nw = src.range(1, 4); io = src.chance(60); slp = src.chance(50); yl = src.chance(20); n = src.range(1, 8); unsigned all = 0; std::string t;
    for (int i = 0; i < nw; i++) { mask[i] = 1u << src.draw(8); for (int k = src.range(0, 3); k > 0; k--) mask[i] |= 1u << src.draw(8); all |= mask[i]; t += strf("c%d watches", i); for (int s = 0; s < 8; s++) if (mask[i] & 1u << s) t += strf(" %s", SGN[s]); t += "\n"; }
    std::vector<int> av; for (int s = 0; s < 8; s++) if (all & 1u << s) av.push_back(s);
    static int total; total = 0; for (int i = 0; i < n; i++) { burst[i] = src.pick({1, 1, 1, 2, 3}); t += "raise"; for (int k = 0; k < burst[i]; k++) { sg[total] = av[src.draw((uint32_t)av.size())]; t += strf(" %s", SGN[sg[total]]); total++; } t += "\n"; }
    if (io) t += "a coroutine waits for a file\n"; if (slp) t += "a coroutine sleeps for an hour\n"; if (yl) t += "the raising coroutine yields first\n";
    kit_begin(t); vc_begin(1, 30000000);
    run_rt([&] {
        static int pp[2]; static neco_chan *ack; static bool stop; stop = false; static std::vector<int64_t> ids; ids.clear(); static int64_t sid; CHECK(neco_chan_make(&ack, sizeof(int), 0) == NECO_OK, "harness", "chan"); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
        if (io) { if (pipe2(pp, O_NONBLOCK)) inconclusive("pipe"); go([] { char c; neco_read(pp[0], &c, 1); }); }
        if (slp) { go([] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_sleep(3600 * NECO_SECOND); }); sid = neco_lastid(); }
        for (int i = 0; i < nw; i++) { go([i] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); for (int s = 0; s < 8; s++) if (mask[i] & 1u << s) neco_signal_watch(SG[s]); while (!stop) { int r = neco_signal_wait(); if (r == NECO_CANCELED) break; CHECK(r > 0 && sgi(r) >= 0 && mask[i] & 1u << sgi(r), "result", "c%d: the wait returned %d", i, r); int v = sgi(r); neco_chan_send(ack, &v); } }); ids.push_back(neco_lastid()); }
        int at = 0;
        for (int i = 0; i < n; i++) { if (yl) neco_yield(); vc_progress(); int64_t t0 = vc_now(); int want[8] = {0}; for (int k = 0; k < burst[i]; k++) { want[sg[at]]++; raise(SG[sg[at++]]); }
            for (int k = 0; k < burst[i]; k++) { int v = -1; int r = neco_chan_recv(ack, &v); CHECK(r == NECO_OK, "harness", "recv %d", r); CHECK(v >= 0 && want[v]-- > 0, "invented", "a signal was delivered that was not raised"); int64_t d = vc_now() - t0; CHECK(d < 100000000, "late", "signal %s was delivered %lld ms after it was raised although its watcher was waiting", SGN[v], (long long)(d / 1000000)); } }
        stop = true; for (auto id : ids) neco_cancel(id); if (slp) neco_cancel(sid); if (io) { (void)!write(pp[1], "x", 1); neco_sleep(1000000); close(pp[0]); close(pp[1]); } neco_sleep(1000000); neco_chan_release(ack);
    });
    nontrivial(total >= 3 && (io || slp)); count("raised", (uint64_t)total);
}
