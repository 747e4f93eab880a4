// C24: how a program ends - return of the main coroutine, crashes, panics.
#include "kit.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <csignal>
#include <pthread.h>
static int mbody(int argc, char **argv);
#define main end_main
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wpedantic"
int neco_main(int argc, char *argv[]) { return mbody(argc, argv); }
#pragma GCC diagnostic pop
#undef main
struct Out { std::string out, err, file; int st; bool hung; };
// runs f in a child process with stdout, stderr and one more stream captured
static Out inchild(void (*f)()) {
    Out o; o.hung = false; int p[3][2]; for (auto &x : p) if (pipe(x)) inconclusive("pipe");
    fflush(nullptr); pid_t pid = fork(); if (pid < 0) inconclusive("fork");
    if (!pid) { dup2(p[0][1], 1); dup2(p[1][1], 2); dup2(p[2][1], 9); for (auto &x : p) { if (x[0] != 9) close(x[0]); if (x[1] != 9) close(x[1]); } alarm(0); f(); _exit(99); }
    for (auto &x : p) close(x[1]);
    std::string *d[3] = {&o.out, &o.err, &o.file}; struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (int i = 0; i < 3; i++) fcntl(p[i][0], F_SETFL, O_NONBLOCK);
    bool ended = false; for (int ms = 0;; ms++) {
        for (int i = 0; i < 3; i++) { char b[4096]; ssize_t k; while ((k = read(p[i][0], b, sizeof b)) > 0) d[i]->append(b, (size_t)k); }
        if (ended) break;
        if (waitpid(pid, &o.st, WNOHANG) == pid) ended = true;
        else { if (ms > 30000) { kill(pid, SIGKILL); waitpid(pid, &o.st, 0); o.hung = ended = true; } usleep(ms < 20 ? 200 : 1000); }
    }
    for (auto &x : p) close(x[0]);
    return o;
}
// ---- the main coroutine returns
enum { B_SLEEP, B_SPIN, B_RECV, B_READ, B_JOIN, B_LOCK, B_SUSP, B_WORK, B_SIG, B_DONE, B_CANCEL, B_ACCEPT, B_N };
static const char *BN[] = {"sleeps", "yields forever", "receives", "reads a pipe", "joins main", "waits for a mutex", "is suspended", "waits for background work", "waits for a signal", "ends at once", "waits to cancel main", "accepts"};
static std::vector<int> bg; static int code, margc, yields, nout, outsz, nfile, depth; static bool dis, returned; static int64_t msleep; static std::vector<std::string> margs; static std::string want, wantf; static int turns; static neco_chan *ch; static neco_mutex mu; static int64_t mainid; static int sp[2], ls; static bool nl;
static void slowwork(void *) { sleep(100); }
static void bgco(int k) {
    switch (k) {
    case B_SLEEP: neco_sleep(100 * NECO_SECOND); break;
    case B_SPIN: while (1) { neco_yield(); if (returned && ++turns > 200) { dprintf(2, "TURNS\n"); _exit(77); } } break;
    case B_RECV: { int m; neco_chan_recv(ch, &m); break; }
    case B_READ: { char b; neco_read(sp[0], &b, 1); break; }
    case B_JOIN: neco_join(mainid); while (1) { neco_yield(); if (++turns > 200) { dprintf(2, "TURNS\n"); _exit(77); } } break;
    case B_LOCK: neco_mutex_lock(&mu); break;
    case B_SUSP: neco_suspend(); break;
    case B_WORK: neco_work(-1, slowwork, nullptr); break;
    case B_SIG: neco_signal_watch(SIGUSR1); neco_signal_wait(); break;
    case B_DONE: break;
    case B_CANCEL: neco_cancel(mainid); break;
    case B_ACCEPT: neco_accept(ls, nullptr, nullptr); break;
    }
}
static int mbody(int argc, char **argv) {
    if (argc != margc) { dprintf(2, "ARGC %d\n", argc); _exit(78); }
    for (int i = 0; i < argc; i++) if (margs[(size_t)i] != argv[i]) { dprintf(2, "ARGV %d\n", i); _exit(78); }
    if (argv[argc]) { dprintf(2, "ARGV end\n"); _exit(78); }
    mainid = neco_getid(); neco_chan_make(&ch, 4, 0); neco_mutex_init(&mu); neco_mutex_lock(&mu); if (pipe(sp)) _exit(99); neco_setnonblock(sp[0], true, nullptr); ls = neco_serve("tcp", "127.0.0.1:0"); int ty, stt; if (neco_setcanceltype(NECO_CANCEL_ASYNC, &ty) || ty != NECO_CANCEL_ASYNC) { dprintf(2, "TYPE\n"); _exit(78); } neco_setcancelstate(dis ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE, &stt);
    FILE *f = fdopen(9, "w");
    for (size_t i = 0; i < bg.size(); i++) { int k = bg[i]; if (k == B_CANCEL && !dis) continue; go([=] { if (i % 2 == 0 && nout) { printf("%s", want.substr(0, 1).c_str()); } bgco(k); }); }
    for (int i = 0; i < yields; i++) neco_yield();
    if (msleep) neco_sleep(msleep);
    for (int i = 0; i < nout; i++) { printf("%s", std::string((size_t)outsz, (char)('a' + i % 26)).c_str()); if (nl) puts(""); }
    for (int i = 0; i < nfile; i++) fprintf(f, "%d,", i);
    returned = true; return code;
}
PROP(c24r, "at least one other coroutine is blocked or busy when the main coroutine returns") {
    bg.clear(); int n = src.range(0, 6); std::string t; bool busy = false; for (int i = 0; i < n; i++) { bg.push_back(src.range(0, B_N - 1)); t += strf("coroutine %d %s\n", i, BN[bg.back()]); busy |= bg.back() != B_DONE; }
    code = src.chance(50) ? src.range(0, 3) : (int)src.draw(0xffffffff); margc = src.chance(20) ? src.pick({8, 9, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000}) : src.range(1, 5); margs.clear(); for (int i = 0; i < margc; i++) margs.push_back(std::string((size_t)src.range(0, 9), (char)('a' + i % 26))); yields = src.range(0, 4); msleep = src.chance(30) ? src.range(1, 3000) * 1000 : 0; nout = src.chance(30) ? 0 : src.range(1, 40); outsz = src.pick({1, 7, 100, 1000}); nfile = src.chance(40) ? src.range(1, 2000) : 0; dis = src.chance(30); nl = src.chance(40);
    if (nout * outsz > 30000) outsz = 100;
    turns = 0; returned = false; want = "#"; std::string w; wantf = ""; for (size_t i = 0; i < bg.size(); i++) if (!(bg[i] == B_CANCEL && !dis) && i % 2 == 0 && nout) w += "#"; for (int i = 0; i < nout; i++) { w += std::string((size_t)outsz, (char)('a' + i % 26)); if (nl) w += "\n"; } for (int i = 0; i < nfile; i++) wantf += strf("%d,", i);
    kit_begin(t + strf("main: %d arguments, %d yields, sleep %lld us, %zu bytes printed, %zu to a file, returns %d", margc, yields, (long long)msleep / 1000, w.size(), wantf.size(), code)); nontrivial(busy);
    Out o = inchild([] { static char *av[1002]; for (int i = 0; i < margc; i++) av[i] = strdup(margs[(size_t)i].c_str()); av[margc] = nullptr; end_main(margc, av); _exit(97); });
    CHECK(!o.hung, "hang", "the program did not end although its main coroutine returned");
    CHECK(WIFEXITED(o.st) && WEXITSTATUS(o.st) == (code & 255), "status", "main returned %d but the program ended with status %x: %s", code, o.st, o.err.substr(0, 200).c_str());
    CHECK(o.out == w, "output", "%zu bytes were printed but %zu arrived", w.size(), o.out.size());
    CHECK(o.file == wantf, "output", "%zu bytes were written to a stream but %zu arrived", wantf.size(), o.file.size());
    CHECK(o.err.empty(), "stderr", "unexpected output: %s", o.err.substr(0, 200).c_str());
    pass();
}
// ---- crashes and panics
static int how, where, nco; static bool thread_; static std::string pmsg;
static const int SIGS[] = {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTRAP};
__attribute__((noinline)) static int deep(int n) { volatile char b[400000]; b[399999] = (char)n; b[200000] = (char)n; b[0] = (char)n; int r = n < 0 ? 0 : deep(n + 1); return r + b[0] + b[399999]; }
static void boom() {
    switch (how) {
    case 0: *(volatile int *)8 = 1; break;
    case 1: { volatile int z = 0; volatile int y = 7; y = y / z; raise(SIGFPE); break; }
    case 2: asm volatile("ud2"); break;
    case 3: { char tn[] = "/dev/shm/nbXXXXXX"; int fd = mkstemp(tn); unlink(tn); if (ftruncate(fd, 4096)) _exit(96); char *p = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (ftruncate(fd, 0)) _exit(96); *(volatile char *)p = 1; break; }
    case 4: raise(SIGTRAP); break;
    case 5: deep(0); break;
    case 6: neco_panic("%s/%d", pmsg.c_str(), 42); break;
    }
    dprintf(2, "SURVIVED\n");
}
static void place(int w) {
    if (w == 0) boom();
    else if (w == 1) go([] { neco_yield(); boom(); });
    else if (w == 2) { go([] { neco_sleep(NECO_MILLISECOND); boom(); }); neco_sleep(NECO_SECOND); }
    else if (w == 3) go([] { neco_work(-1, [](void *) { boom(); }, nullptr); });
    else if (w == 4) go([] { neco_cleanup_push([](void *) { boom(); }, nullptr); neco_exit(); neco_cleanup_pop(0); });
    else { neco_gen *g; neco_gen_start(&g, 4, [](int, void **) { int v = 1; neco_gen_yield(&v); boom(); }, 0); int v; neco_gen_next(g, &v); neco_gen_next(g, &v); }
}
PROP(c24x, "other coroutines live, or the failure is not in the first coroutine") {
#ifdef GUARDED
    how = src.chance(60) ? 5 : src.range(0, 6);
#else
    how = src.pick({0, 1, 2, 3, 4, 6, 6});
#endif
    where = src.range(0, how == 5 ? 2 : 5); nco = src.range(0, 5); pmsg = std::string((size_t)(src.chance(50) ? src.range(0, 20) : src.range(0, 400)), 'p');
    static const char *HN[] = {"invalid write", "division by zero", "illegal instruction", "bus error", "trap", "stack overflow", "panic"}, *WN[] = {"in the first coroutine", "in another coroutine", "in a timer-driven coroutine", "in background work", "in a cleanup handler", "in a generator"};
    kit_begin(strf("%s %s, %d other coroutines, message of %zu bytes", HN[how], WN[where], nco, pmsg.size())); nontrivial(nco || where); label(HN[how]); label(WN[where]);
    Out o = inchild([] { neco_start([](int, void **) { for (int i = 0; i < nco; i++) go([i] { if (i % 2) neco_sleep(50 * NECO_MILLISECOND); else neco_suspend_dl(neco_now() + 60 * NECO_MILLISECOND); }); place(where); }, 0); dprintf(2, "ENDED\n"); _exit(0); });
    CHECK(!o.hung, "hang", "the program hangs after the failure");
    CHECK(o.err.find("SURVIVED") == std::string::npos && o.err.find("ENDED") == std::string::npos, "survived", "the program went on after the failure");
    if (how == 6) { CHECK(WIFSIGNALED(o.st) && WTERMSIG(o.st) == SIGABRT, "panic", "the program ended with status %x instead of aborting", o.st); std::string m = "panic: " + (pmsg + "/42").substr(0, 255) + "\n"; CHECK(o.err.compare(0, m.size(), m) == 0, "panic", "the message of the panic is \"%s\"", o.err.substr(0, 300).c_str()); }
    else { int s = how == 5 ? SIGSEGV : SIGS[how]; CHECK(WIFEXITED(o.st) && WEXITSTATUS(o.st) == 128 + s, "crash", "the program ended with status %x instead of %d: %s", o.st, 128 + s, o.err.substr(0, 300).c_str()); CHECK(o.err.find(strsignal(s)) != std::string::npos, "crash", "the crash was not reported: %s", o.err.substr(0, 300).c_str()); }
    pass();
}
