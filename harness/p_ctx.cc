// C15: stacks and preserved registers across switches. Coroutines recurse to
// generated depths, keep patterns in their frames and in the callee-saved
// registers, and switch in every way while they do.
#include "kit.h"
#include <alloca.h>
#include <sys/wait.h>
#ifndef STK
#define STK 8388608
#endif
enum { A_DOWN, A_UP, A_YIELD, A_SLEEP, A_SUSP, A_RESUME, A_WORK, A_START, A_EXIT, A_CHECK, A_CANCEL };
static const char *AN[] = {"call", "return", "yield", "sleep", "suspend", "resume", "work", "start", "exit", "check", "cancel"};
struct Ac { int a; int n; };
struct Cx { std::vector<Ac> plan; size_t pc = 0; int64_t id = 0; bool live = false, started = false, ended = false, pend = false; char *top = nullptr, *low = nullptr; int depth = 0, rt = 0; };
static std::vector<Cx> X; static uint64_t nsw, ndeep, nreg; static int maxlive, live; static size_t maxuse;
#if defined(__x86_64__) && defined(__linux__)
// regcall(fn, pat): calls fn with the preserved registers holding pat[0..5]; returns a mask of the ones that changed
asm(R"(
.text
.globl regcall
.type regcall,@function
regcall:
  push %rbx
  push %rbp
  push %r12
  push %r13
  push %r14
  push %r15
  push %rsi
  mov 0(%rsi),%rbx
  mov 8(%rsi),%rbp
  mov 16(%rsi),%r12
  mov 24(%rsi),%r13
  mov 32(%rsi),%r14
  mov 40(%rsi),%r15
  call *%rdi
  pop %rsi
  xor %eax,%eax
  cmp 0(%rsi),%rbx
  je 1f
  or $1,%eax
1: cmp 8(%rsi),%rbp
  je 1f
  or $2,%eax
1: cmp 16(%rsi),%r12
  je 1f
  or $4,%eax
1: cmp 24(%rsi),%r13
  je 1f
  or $8,%eax
1: cmp 32(%rsi),%r14
  je 1f
  or $16,%eax
1: cmp 40(%rsi),%r15
  je 1f
  or $32,%eax
1: pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbp
  pop %rbx
  ret
.size regcall,.-regcall
.section .note.GNU-stack,"",@progbits
.text
)");
extern "C" int regcall(void (*)(void), const uint64_t *);
static const char *RN[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
#else
static int regcall(void (*f)(void), const uint64_t *) { f(); return 0; }
static const char *RN[] = {"", "", "", "", "", ""};
#endif
static int arg_a, arg_n, arg_co;     // operands of the switch about to happen
struct Wk { uint64_t in, out[64]; };
static void workfn(void *p) { Wk *w = (Wk *)p; for (int i = 0; i < 64; i++) w->out[i] = mix64(w->in + (uint64_t)i); }
static void spawn(int c);
static void doswitch(void) {
    int a = arg_a, n = arg_n, c = arg_co; 
    uintptr_t fa = (uintptr_t)__builtin_frame_address(0); if (fa % 16) fail("alignment", "the stack of c%d is misaligned", c);
    switch (a) {
    case A_YIELD: neco_yield(); break;
    case A_SLEEP: neco_sleep((int64_t)n * 1000000); break;
    case A_SUSP: neco_suspend_dl(neco_now() + (int64_t)n * 1000000); break;
    case A_RESUME: { Cx &t = X[(size_t)n % X.size()]; if (t.live && t.id) neco_resume(t.id); break; }
    case A_CANCEL: { Cx &t = X[(size_t)n % X.size()]; if (t.live && t.id && !t.pend && (int)((size_t)n % X.size()) != c) { t.pend = true; neco_cancel(t.id); } break; }
    case A_START: spawn(n); break;
    case A_WORK: { volatile uint64_t guard0 = mix64((uint64_t)c); Wk w; memset(&w, 0, sizeof w); w.in = mix64((uint64_t)c * 977 + (uint64_t)n); int r = neco_work(n % 3 - 1, workfn, &w); if (r == NECO_OK) for (int i = 0; i < 64; i++) CHECK(w.out[i] == mix64(w.in + (uint64_t)i), "work-data", "the result of background work on the stack of c%d was lost", c); CHECK(guard0 == mix64((uint64_t)c), "stack", "work overwrote the stack"); break; }
    }
}
static uint64_t pat(int c, int d, size_t i, uint32_t v) { return mix64(((uint64_t)c << 48) ^ ((uint64_t)d << 36) ^ ((uint64_t)v << 24) ^ i); }
static void fill(uint64_t *p, size_t n, int c, int d, uint32_t v) { for (size_t i = 0; i < n; i += n > 4096 ? 64 : 1) p[i] = pat(c, d, i, v); p[n - 1] = pat(c, d, n - 1, v); }
static void verify(const uint64_t *p, size_t n, int c, int d, uint32_t v, const char *when) {
    for (size_t i = 0; i < n; i += n > 4096 ? 64 : 1) if (p[i] != pat(c, d, i, v)) fail("stack", "a local variable of c%d at depth %d changed during %s", c, d, when);
    if (p[n - 1] != pat(c, d, n - 1, v)) fail("stack", "a local variable of c%d at depth %d changed during %s", c, d, when);
}
static void extent(int c, char *p) {
    Cx &x = X[(size_t)c]; if (!x.low || p < x.low) x.low = p; if (!x.top || p > x.top) x.top = p; size_t use = (size_t)(x.top - x.low); if (use > maxuse) maxuse = use;
    if (use > STK) fail("harness", "generator used too much stack");
    for (size_t i = 0; i < X.size(); i++) if ((int)i != c && X[i].live && X[i].low && X[i].rt == x.rt) if (!(X[i].top < x.low || x.top < X[i].low)) fail("stack-shared", "the stacks of the live coroutines c%d and c%zu overlap", c, i);
}
static __attribute__((noinline)) void rec(int c, int d, size_t bytes) {
    size_t n = bytes / 8 + 1; uint32_t v = 0; uint64_t *p = (uint64_t *)alloca(n * 8); fill(p, n, c, d, v); extent(c, (char *)p); extent(c, (char *)(p + n)); X[(size_t)c].depth = d;
    double f1 = (double)mix64((uint64_t)c) / 3, f2 = (double)d * 1.25 + c; volatile double g1 = f1, g2 = f2; if (d > 3) ndeep++;
    __attribute__((aligned(16))) char al[32]; if ((uintptr_t)al % 16) fail("alignment", "x"); 
    while (X[(size_t)c].pc < X[(size_t)c].plan.size()) {
        Ac a = X[(size_t)c].plan[X[(size_t)c].pc++];
        if (a.a == A_DOWN) { size_t used = (size_t)(X[(size_t)c].top - (char *)p); if (d < 60 && used + (size_t)a.n + 65536 + 65536 < STK) { rec(c, d + 1, (size_t)a.n); verify(p, n, c, d, v, "a call"); } continue; }
        if (a.a == A_UP) { if (d) break; continue; }
        if (a.a == A_CHECK) { verify(p, n, c, d, v, "nothing"); v = (v + 1) & 0xfff; fill(p, n, c, d, v); continue; }
        if (a.a == A_EXIT) { tr("c%d exits at depth %d", c, d); neco_exit(); fail("exit", "neco_exit returned"); }
        uint64_t rp[6]; for (int i = 0; i < 6; i++) rp[i] = mix64((uint64_t)c * 64 + (uint64_t)d * 7 + (uint64_t)i) | 1; 
        arg_a = a.a; arg_n = a.n; arg_co = c; int e0 = errno = c + 1; (void)e0; nsw++;
        int m = regcall(doswitch, rp); nreg++;
        if (m) { int b = __builtin_ctz((unsigned)m); fail("registers", "register %s of c%d changed during %s", RN[b], c, AN[a.a]); }
        verify(p, n, c, d, v, AN[a.a]); if (g1 != f1 || g2 != f2) fail("float", "a floating-point value of c%d changed during %s", c, AN[a.a]);
        vc_progress();
    }
    verify(p, n, c, d, v, "return");
}
static void gone(void *a) { Cx &x = X[(size_t)(intptr_t)a]; if (!x.ended) { x.ended = true; x.live = false; live--; } }
static int s_rt;
static void body(int c) {
    Cx &x = X[(size_t)c]; x.live = true; live++; if (live > maxlive) maxlive = live; x.id = neco_getid(); x.low = x.top = nullptr; x.rt = s_rt; char here; x.top = x.low = &here; extent(c, &here);
    neco_setcanceltype(c % 2 ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, nullptr); neco_cleanup_push(gone, (void *)(intptr_t)c); rec(c, 0, 64); neco_cleanup_pop(0); x.ended = true; x.live = false; live--;
}
static void spawn(int c) { size_t k = (size_t)c % X.size(); for (size_t i = 0; i < X.size(); i++, k = (k + 1) % X.size()) if (!X[k].started) break; if (X[k].started) return; X[k].started = true; int r; if (c & 1) r = go([k] { body((int)k); }); else r = gov([k] { body((int)k); }); CHECK(r == NECO_OK, "start", "start failed: %d", r); }
PROP(c15, "at least 3 coroutines alive at once, 20 switches, and 3 of them at depth 4 or more") {
    int nrt = src.weighted({80, 12, 8}) + 1; std::string t; static std::vector<std::vector<Cx>> all; all.clear(); bool big = src.chance(12), many = src.chance(8), crowd = many && src.chance(40), shallow = src.chance(30); size_t total = 0;
    for (int r = 0; r < nrt; r++) {
        std::vector<Cx> xs; int n = crowd ? src.range(240, 400) : many ? src.range(60, 300) : src.range(1, 24); int bigleft = 2;
        for (int i = 0; i < n; i++) { Cx x; int m = crowd ? src.range(1, 4) : many ? src.range(1, 10) : src.range(2, 60);
            if (crowd) { x.plan.push_back({A_SLEEP, 300}); if (src.chance(25)) { x.plan.push_back({A_DOWN, STK / 8 * src.range(1, 7)}); x.plan.push_back({A_SLEEP, 300}); } }   // all alive together, some deep
            for (int j = 0; j < m; j++) { Ac a; a.a = src.weighted({shallow ? 4 : 26, 12, 22, 9, 5, 8, many ? 0 : 1, 6, 1, 6, 3}); a.n = 0;
                if (a.a == A_DOWN) { int w = src.weighted({60, 30, 10, big && bigleft ? 6 : 0}); a.n = w == 0 ? src.range(0, 400) : w == 1 ? src.range(400, 9000) : w == 2 ? src.range(9000, many ? 20000 : 60000) : STK / 8 * src.range(2, 7); if (w == 3) bigleft--; if (a.n > STK) a.n = STK; }
                else if (a.a == A_SLEEP || a.a == A_SUSP) a.n = src.pick({0, 1, 3, 40, 120, 300}); else if (a.a != A_UP && a.a != A_YIELD && a.a != A_EXIT && a.a != A_CHECK) a.n = (int)src.draw(400);
                x.plan.push_back(a); }
            total += x.plan.size(); xs.push_back(x); }
        all.push_back(xs);
        t += strf("runtime %d:\n", r); for (size_t i = 0; i < xs.size() && i < 30; i++) { t += strf(" c%zu:", i); for (auto &a : xs[i].plan) { t += strf(" %s", AN[a.a]); if (a.n) t += strf("(%d)", a.n); } t += "\n"; }
    }
    kit_begin(t); vc_begin(1, 30000000); nsw = ndeep = nreg = 0; maxlive = live = 0; maxuse = 0; uint64_t canary[64]; for (int i = 0; i < 64; i++) canary[i] = mix64((uint64_t)i * 3);
    for (s_rt = 0; s_rt < nrt; s_rt++) {
        X = all[(size_t)s_rt]; live = 0;
        run_rt([] { for (int k = 0; k < 4; k++) spawn(k * 2); for (int p = 0; p < 100000; p++) { bool any = false; for (auto &x : X) if (!x.started) any = true; if (any) { spawn(p); neco_yield(); } bool l = false; for (auto &x : X) if (x.live) l = true; if (!any && !l) break; if (!any) neco_sleep(1000000); vc_progress(); } });
        for (size_t i = 0; i < X.size(); i++) CHECK(X[i].ended, "ended", "c%zu did not end", i);
        for (int i = 0; i < 64; i++) CHECK(canary[i] == mix64((uint64_t)i * 3), "stack", "the caller's stack changed while the runtime ran");
    }
    nontrivial(maxlive >= 3 && nsw >= 20 && ndeep >= 3); count("switches", nsw); count("coroutines", total ? X.size() : 0); if (maxuse > STK / 4) label("deep-stack"); if (maxlive > 40) label("many-live"); if (maxlive > 200) label("crowd");
}
