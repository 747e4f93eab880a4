// C10: fairness of the scheduler; repeatability of runs and builds.
#include "kit.h"
#include "coprog.h"

// ---- fairness: pure yielders among noise
struct Yl { int rounds; int startafter; };
PROP(c10f, "at least two coroutines that only yield, running while other coroutines block, hand over, start and end; timers and a pipe become ready meanwhile") {
    int ny = src.range(2, 6); if (src.chance(15)) ny = src.range(7, 40);
    std::vector<int> rounds, batch;
    for (int i = 0; i < ny; i++) { rounds.push_back(src.range(8, 40)); batch.push_back(src.range(0, 3)); }
    int nping = src.range(0, 3), nsleep = src.range(0, 3), nspawn = src.range(0, 2), nmu = src.range(0, 2);
    std::vector<int64_t> slp; for (int i = 0; i < nsleep; i++) slp.push_back((int64_t)src.range(1, 60) * 1000);
    bool pipeon = src.chance(40); int pipeat = src.range(2, 6);
    bool burst = src.chance(30);
    kit_begin(strf("%d yielders, %d channel pairs, %d sleepers, %d spawners, %d lockers, pipe reader %s (data after turn %d)%s",
        ny, nping, nsleep, nspawn, nmu, pipeon ? "yes" : "no", pipeat, burst ? ", broadcasts" : ""));
    for (int i = 0; i < ny; i++) { g_txt += strf("; y%d: %d rounds from turn %d", i, rounds[(size_t)i], batch[(size_t)i]); }
    case_hash_str(g_txt);
    vc_begin(1000);
    static std::vector<std::vector<long>> cnt; static std::vector<char> live; static std::vector<long> turns;
    static std::vector<int64_t> due; static std::vector<std::vector<int>> late; static int pfd[2]; static bool pready, pgot; static std::vector<int> plate;
    cnt.assign((size_t)ny, std::vector<long>((size_t)ny, 0)); live.assign((size_t)ny, 0); turns.assign((size_t)ny, 0);
    due.assign((size_t)nsleep, 0); late.assign((size_t)nsleep, std::vector<int>((size_t)ny, 0)); pready = pgot = false; plate.assign((size_t)ny, 0);
    static long total; total = 0;
    run_rt([&] {
        static bool stop; stop = false;
        static std::function<void(int)> yielder; yielder = [&](int i) {
            live[(size_t)i] = 1;
            std::vector<long> snap((size_t)ny, -1);
            for (int r = 0; r < rounds[(size_t)i]; r++) {
                for (int j = 0; j < ny; j++) snap[(size_t)j] = live[(size_t)j] == 1 ? turns[(size_t)j] : -1;
                CHECK(neco_yield() == NECO_OK, "yield", "neco_yield failed");
                turns[(size_t)i]++; total++; tr("y%d turn %ld", i, turns[(size_t)i]);
                for (int j = 0; j < ny; j++) if (j != i && snap[(size_t)j] >= 0 && live[(size_t)j] == 1)
                    CHECK(turns[(size_t)j] > snap[(size_t)j], "unfair", "y%d got another turn while y%d, runnable all the time, got none", i, j);
                int64_t now = vc_now();
                for (size_t s = 0; s < due.size(); s++) if (due[s] && now > due[s])
                    CHECK(++late[s][(size_t)i] <= 6, "starved-timer", "a sleeper is still asleep %lld ns after its deadline while y%d took %d turns", (long long)(now - due[s]), i, late[s][(size_t)i]);
                if (pready && !pgot) CHECK(++plate[(size_t)i] <= 8, "starved-file", "a reader of a readable pipe is still waiting after y%d took %d turns", i, plate[(size_t)i]);
                if (pipeon && !pready && total >= pipeat) { pready = true; ssize_t n = write(pfd[1], "x", 1); (void)n; }
            }
            live[(size_t)i] = 2;
        };
        if (pipeon) {
            CHECK(pipe2(pfd, O_NONBLOCK) == 0, "harness", "pipe");
            go([&] { char c; ssize_t n = neco_read(pfd[0], &c, 1); CHECK(n == 1 && c == 'x', "read", "neco_read returned %zd", n); pgot = true; tr("pipe read"); });
        }
        for (int s = 0; s < nsleep; s++) go([&, s] {
            for (int k = 0; k < 4; k++) { due[(size_t)s] = vc_now() + slp[(size_t)s]; neco_sleep_dl(due[(size_t)s]);
                CHECK(vc_now() >= due[(size_t)s], "early", "sleep returned early"); due[(size_t)s] = 0; for (auto &x : late[(size_t)s]) x = 0; tr("sleeper %d wakes", s); } });
        for (int p = 0; p < nping; p++) {
            neco_chan *ch; neco_chan_make(&ch, 4, (size_t)(p == 1 ? 2 : 0)); neco_chan_retain(ch);
            go([=] { for (int k = 0; k < 12; k++) { int v = k; neco_chan_send(ch, &v); } neco_chan_close(ch); neco_chan_release(ch); });
            go([=] { int v, e = 0; while (neco_chan_recv(ch, &v) == NECO_OK) { CHECK(v == e++, "message", "order"); } CHECK(e == 12, "message", "lost"); neco_chan_release(ch); });
        }
        static neco_mutex mu; memset((void *)&mu, 0, sizeof mu);
        for (int m = 0; m < nmu; m++) go([&] { for (int k = 0; k < 8; k++) { neco_mutex_lock(&mu); neco_yield(); neco_mutex_unlock(&mu); } });
        for (int m = 0; m < nspawn; m++) go([&] { for (int k = 0; k < 6; k++) { go([] { neco_yield(); }); neco_yield(); } });
        if (burst) { static neco_chan *bc; neco_chan_make(&bc, 0, 0);
            static int left; left = 5;
            for (int k = 0; k < 5; k++) go([&] { for (int r = 0; r < 3; r++) neco_chan_recv(bc, nullptr); left--; });
            go([&] { while (left) { neco_chan_broadcast(bc, nullptr); neco_yield(); } neco_chan_release(bc); }); }
        for (int b = 0; b <= 3; b++) { for (int i = 0; i < ny; i++) if (batch[(size_t)i] == b) go([&, i] { yielder(i); }); neco_yield(); }
        while (pipeon && !pgot) { if (!pready) { pready = true; ssize_t n = write(pfd[1], "x", 1); (void)n; } neco_sleep(1000000); }
        if (pipeon) { for (int k = 0; k < 3; k++) neco_yield(); close(pfd[0]); close(pfd[1]); }
    });
    for (int i = 0; i < ny; i++) CHECK(turns[(size_t)i] == rounds[(size_t)i], "lost", "y%d got %ld of %d turns", i, turns[(size_t)i], rounds[(size_t)i]);
    nontrivial(ny >= 2 && nping + nsleep + nspawn + nmu + pipeon + burst > 0);
    if (pipeon) label("pipe");
    if (ny > 8) label("many-yielders");
    if (nsleep) label("timers");
    count("turns", (uint64_t)total);
}

// ---- service: busy coroutines that never pause, and waiters that become ready meanwhile
#include <signal.h>
struct Wt { int kind; int at; int rounds; int64_t dur; int fd[2]; int sig; bool armed, waiting, done; int64_t due; int served; std::vector<int> late; };
static const char *WK[] = {"sleeps", "reads a pipe", "waits to write to a full pipe", "waits for a signal", "waits to read", "receives with a deadline"};
static const char *BK[] = {"yields", "exchanges messages", "feeds a buffered channel", "passes a mutex", "suspends and resumes", "starts coroutines", "draws from a generator", "signals a condition", "sleeps for 0", "cycles a waitgroup"};
PROP(c10s, "at least one coroutine that never pauses for long and one waiter (timer, file or signal) that becomes ready while all of them go on") {
    static std::vector<int> busy; static std::vector<Wt> wt; busy.clear(); wt.clear();
    int nb = src.range(1, 3); if (src.chance(10)) nb = src.range(4, 30); std::string t = "busy:";
    for (int i = 0; i < nb; i++) { busy.push_back(src.chance(45) ? 0 : src.range(1, 9)); t += strf(" %s,", BK[busy.back()]); }
    int nw = src.range(1, 4); int only = src.chance(50) ? src.range(0, 5) : -1; bool filesonly = src.chance(40);
    for (int i = 0; i < nw; i++) { Wt w{}; w.kind = only >= 0 ? only : filesonly ? src.pick({1, 2, 3, 4}) : src.range(0, 5); w.at = src.range(1, 60); w.rounds = src.range(1, 3); w.dur = (int64_t)src.range(0, 80) * 1000; w.sig = i == 0 ? SIGUSR1 : i == 1 ? SIGUSR2 : i == 2 ? SIGHUP : SIGALRM; wt.push_back(w); t += strf("\nwaiter %d %s %d times, ready from turn %d (%lld ns)", i, WK[w.kind], w.rounds, w.at, (long long)w.dur); }
    kit_begin(t); case_hash_str(t); vc_begin(1000, 4000000);
    static long total; total = 0; static bool stop; stop = false; static int nbusy, slots; nbusy = 0; slots = 0;
    for (size_t i = 0; i < wt.size(); i++) { if (wt[i].kind == 1 || wt[i].kind == 2 || wt[i].kind == 4) CHECK(pipe2(wt[i].fd, O_NONBLOCK) == 0, "harness", "pipe"); }
    run_rt([&] {
        static int left; left = (int)wt.size();
        static std::function<void(int)> turn; turn = [](int me) {
            total++; if (stop) return; vc_progress(); int64_t now = vc_now();
            for (size_t i = 0; i < wt.size(); i++) { Wt &w = wt[i]; if (!w.waiting) continue;
                bool timer = w.kind == 0 || w.kind == 5;
                if (!timer && !w.armed && total >= w.at) { w.armed = true; if (w.kind == 1 || w.kind == 4) { ssize_t n = write(w.fd[1], "x", 1); (void)n; } else if (w.kind == 2) { char b[65536]; ssize_t n = read(w.fd[0], b, sizeof b); (void)n; } else raise(w.sig); tr("waiter %zu is due", i); continue; }
                if (timer ? now > w.due : w.armed) { if (w.late.size() <= (size_t)me) w.late.resize((size_t)me + 1); CHECK(++w.late[(size_t)me] <= 12, timer ? "starved-timer" : w.kind == 3 ? "starved-signal" : "starved-file", "the coroutine that %s is still waiting after a busy coroutine took %d more turns", WK[w.kind], w.late[(size_t)me]); } }
            CHECK(total < 200000, "starved", "still not served");
        };
        for (size_t i = 0; i < wt.size(); i++) go([i] {
            Wt &w = wt[i]; if (w.kind == 3) { int r = neco_signal_watch(w.sig); CHECK(r == NECO_OK, "watch", "%d", r); } neco_chan *ch = nullptr; if (w.kind == 5) neco_chan_make(&ch, 1, 0);
            for (int k = 0; k < w.rounds; k++) {
                if (w.kind == 2) { char b[4096] = {0}; while (write(w.fd[1], b, sizeof b) > 0) {} }
                w.armed = false; w.late.clear(); w.due = vc_now() + w.dur; w.waiting = true; w.at = (int)(k ? total + w.at % 20 : w.at); char c = 0; int r = 0;
                switch (w.kind) { case 0: r = neco_sleep_dl(w.due); if (r == NECO_TIMEDOUT) r = 0; break; case 1: r = (int)neco_read(w.fd[0], &c, 1) - 1; break; case 2: r = neco_wait(w.fd[1], NECO_WAIT_WRITE); break; case 3: r = neco_signal_wait() - w.sig; break; case 4: r = neco_wait(w.fd[0], NECO_WAIT_READ); break; case 5: r = neco_chan_recv_dl(ch, &c, w.due) - NECO_TIMEDOUT; break; }
                w.waiting = false; CHECK(r == 0, "result", "the coroutine that %s got %d", WK[w.kind], r); if (w.kind == 4) { ssize_t n = read(w.fd[0], &c, 1); CHECK(n == 1, "spurious", "neco_wait returned for a pipe that is not readable"); } w.served++; tr("waiter %zu served", i); }
            if (ch) neco_chan_release(ch); if (w.kind == 3) neco_signal_unwatch(w.sig); if (--left == 0) { stop = true; } });
        for (int kind : busy) { int me = slots++;
            switch (kind) {
            case 0: nbusy++; go([me] { while (!stop) { neco_yield(); turn(me); } nbusy--; }); break;
            case 1: { neco_chan *a, *b; neco_chan_make(&a, 4, 0); neco_chan_make(&b, 4, 0); neco_chan_retain(a); neco_chan_retain(b); nbusy += 2; int m2 = slots++;
                go([=] { int v = 0; while (neco_chan_recv(a, &v) == NECO_OK) { turn(me); v++; if (neco_chan_send(b, &v)) break; } neco_chan_release(a); neco_chan_release(b); nbusy--; });
                go([=] { int v = 0, x; while (!stop) { turn(m2); if (neco_chan_send(a, &v)) break; if (neco_chan_recv(b, &x)) break; CHECK(x == v + 1, "message", "%d after %d", x, v); v = x; } neco_chan_close(a); neco_chan_close(b); neco_chan_release(a); neco_chan_release(b); nbusy--; }); break; }
            case 2: { neco_chan *a; neco_chan_make(&a, 4, 3); neco_chan_retain(a); nbusy += 2; int m2 = slots++;
                go([=] { int v = 0; while (!stop) { turn(me); if (neco_chan_send(a, &v)) break; v++; } neco_chan_close(a); neco_chan_release(a); nbusy--; });
                go([=] { int v = 0, e = 0; while (neco_chan_recv(a, &v) == NECO_OK) { turn(m2); CHECK(v == e++, "message", "order"); } neco_chan_release(a); nbusy--; }); break; }
            case 3: { neco_mutex *m = new neco_mutex; memset((void *)m, 0, sizeof *m); int *users = new int(2); nbusy += 2; int m2 = slots++;
                for (int q : {me, m2}) go([=] { while (!stop) { neco_mutex_lock(m); turn(q); neco_yield(); neco_mutex_unlock(m); } if (--*users == 0) { delete m; delete users; } nbusy--; }); break; }
            case 4: { nbusy += 2; int m2 = slots++; int64_t *id = new int64_t(0); bool *gone = new bool(false);
                go([=] { *id = neco_getid(); while (!stop) { neco_suspend(); turn(me); } *gone = true; nbusy--; });
                go([=] { while (!*gone) { neco_resume(*id); neco_yield(); turn(m2); } delete id; delete gone; nbusy--; }); break; }
            case 5: nbusy++; go([me] { while (!stop) { go([] { neco_yield(); }); turn(me); neco_yield(); } nbusy--; }); break;
            case 6: nbusy++; go([me] { neco_gen *g; neco_gen_start(&g, 4, +[](int, void **) { int v = 0; while (!stop && neco_gen_yield(&v) == NECO_OK) v++; }, 0); int v = 0; while (neco_gen_next(g, &v) == NECO_OK) turn(me); neco_gen_release(g); nbusy--; }); break;
            case 7: { struct X { neco_mutex m; neco_cond c; int users; }; X *x = new X; memset((void *)x, 0, sizeof *x); x->users = 2; nbusy += 2; int m2 = slots++; bool *gone = new bool(false);
                go([=] { neco_mutex_lock(&x->m); while (!stop) { neco_cond_wait(&x->c, &x->m); turn(me); } neco_mutex_unlock(&x->m); *gone = true; nbusy--; });
                go([=] { while (!*gone) { neco_cond_signal(&x->c); neco_yield(); turn(m2); } delete x; delete gone; nbusy--; }); break; }
            case 8: nbusy++; go([me] { while (!stop) { neco_sleep(0); neco_yield(); turn(me); } nbusy--; }); break;
            case 9: { neco_waitgroup *w = new neco_waitgroup; memset((void *)w, 0, sizeof *w); nbusy++;
                go([=] { while (!stop) { neco_waitgroup_add(w, 1); go([=] { neco_yield(); neco_waitgroup_done(w); }); neco_waitgroup_wait(w); turn(me); } delete w; nbusy--; }); break; }
            } }
    });
    for (size_t i = 0; i < wt.size(); i++) { CHECK(wt[i].served == wt[i].rounds, "lost", "waiter %zu was served %d of %d times", i, wt[i].served, wt[i].rounds); if (wt[i].kind == 1 || wt[i].kind == 2 || wt[i].kind == 4) { close(wt[i].fd[0]); close(wt[i].fd[1]); } label(WK[wt[i].kind]); }
    CHECK(nbusy == 0, "lost", "%d busy coroutines never ended", nbusy);
    for (int k : busy) label(BK[k]);
    nontrivial(true); count("turns", (uint64_t)total);
}

// ---- repeatability
static Profile everything() {
    Profile p; p.maxchan = 2; p.maxmu = 2; p.maxwg = 1; p.asyncpct = 20; p.dlpct = 30; p.bigpct = 8;
    p.w[K_SEND] = 10; p.w[K_RECV] = 9; p.w[K_TRYRECV] = 2; p.w[K_BCAST] = 1; p.w[K_CLOSE] = 1; p.w[K_SELECT] = 5; p.w[K_TRYSELECT] = 1;
    p.w[K_LOCK] = 7; p.w[K_RDLOCK] = 5; p.w[K_UNLOCK] = 9; p.w[K_TRYLOCK] = 1; p.w[K_WGADD] = 4; p.w[K_WGDONE] = 4; p.w[K_WGWAIT] = 5;
    p.w[K_SUSPEND] = 5; p.w[K_RESUME] = 5; p.w[K_JOIN] = 5; p.w[K_CANCEL] = 6; p.w[K_SLEEP] = 7; p.w[K_YIELD] = 12; p.w[K_COMPUTE] = 4; p.w[K_SPAWN] = 4; p.w[K_SETTYPE] = 1;
    return p;
}
PROP(c10d, "a generated program over all operations with at least one hand-over, run twice in one process and once in every other build, with the full sequence of events compared") {
    alloc_install();
    static Program p; p = gen_program(src, everything());
    static std::string txt; txt = render_program(p); case_text(txt);
    g_prog_done = nullptr;
    RunOpts o; o.keepgoing = true;
    vc_tick = 0;
    RunInfo a = run_program(p, o); vc_tick = 0;
    report_value(a.loghash);
    if (is_peer()) pass();
    RunInfo b = run_program(p, o);
    CHECK(a.events == b.events && a.loghash == b.loghash, "repeat", "two runs of the same program in one process differ (%ld and %ld events)", a.events, b.events);
    for (auto &peer : peers()) {
        uint64_t h = 0; int st = peer_value(peer, &h);
        CHECK(st == 1, "peer", "the program fails (status %d) in the build %s", st, peer.c_str());
        CHECK(h == a.loghash, "repeat-build", "the program runs in a different order in the build %s", peer.c_str());
        count("peer-runs", 1);
    }
    program_labels(a); nontrivial(a.grants > 0);
}
