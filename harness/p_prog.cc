// Generated coroutine programs, one profile per property.
#include "coprog.h"
typedef bool (*ntfn)(const RunInfo &);
static void go(Src &src, const Profile &pf, ntfn nt) {
    alloc_install();
    static Program p; p = gen_program(src, pf);
    static std::string txt; txt = render_program(p); case_text(txt);
    static ntfn ntf; ntf = nt;
    g_render = [] { return txt; };
    g_prog_done = [](const RunInfo &r) { program_labels(r); nontrivial(ntf(r)); };
    RunInfo r = run_program(p, RunOpts());
    g_prog_done(r);
}
static int chg(const RunInfo &r) { return r.gk[K_SEND] + r.gk[K_RECV] + r.gk[K_SELECT]; }

PROP(c01, "a generated program over 1-3 channels in which a blocked send or receive was completed by another coroutine") {
    Profile p; p.maxchan = 3; p.dlpct = 20; p.asyncpct = 15;
    p.w[K_SEND] = 30; p.w[K_RECV] = 26; p.w[K_TRYRECV] = 5; p.w[K_BCAST] = 4; p.w[K_CLOSE] = 1; p.w[K_SELECT] = 4; p.w[K_TRYSELECT] = 1;
    p.w[K_YIELD] = 6; p.w[K_SLEEP] = 4; p.w[K_COMPUTE] = 4; p.w[K_CANCEL] = 4; p.w[K_CHREF] = 1; p.w[K_SPAWN] = 1; p.w[K_RENEW] = 2;
    go(src, p, [](const RunInfo &r) { return chg(r) > 0; });
}
PROP(c02, "a generated program over 1-2 channels in which an operation met a closed channel and a blocked operation was completed by another coroutine") {
    Profile p; p.maxchan = 2; p.dlpct = 20; p.asyncpct = 15;
    p.w[K_SEND] = 24; p.w[K_RECV] = 22; p.w[K_TRYRECV] = 6; p.w[K_BCAST] = 4; p.w[K_CLOSE] = 9; p.w[K_SELECT] = 8; p.w[K_TRYSELECT] = 3;
    p.w[K_YIELD] = 6; p.w[K_SLEEP] = 5; p.w[K_COMPUTE] = 4; p.w[K_CANCEL] = 4; p.w[K_CHREF] = 2; p.w[K_RENEW] = 3;
    go(src, p, [](const RunInfo &r) { return r.closed_results > 0 && chg(r) > 0; });
}
PROP(c03, "a generated program over 2-4 channels in which a blocked select was completed by another coroutine") {
    Profile p; p.maxchan = 4; p.dlpct = 20; p.asyncpct = 15;
    p.w[K_SEND] = 26; p.w[K_RECV] = 6; p.w[K_TRYRECV] = 1; p.w[K_BCAST] = 4; p.w[K_CLOSE] = 2; p.w[K_SELECT] = 28; p.w[K_TRYSELECT] = 8;
    p.w[K_YIELD] = 6; p.w[K_SLEEP] = 5; p.w[K_COMPUTE] = 4; p.w[K_CANCEL] = 5; p.w[K_RENEW] = 2;
    go(src, p, [](const RunInfo &r) { return r.gk[K_SELECT] > 0; });
}
PROP(c04, "a generated program over 1-3 mutexes in which a blocked lock was granted by an unlock of another coroutine") {
    Profile p; p.maxmu = 3; p.asyncpct = 15; p.dlpct = 25;
    p.w[K_LOCK] = 22; p.w[K_RDLOCK] = 20; p.w[K_TRYLOCK] = 4; p.w[K_TRYRDLOCK] = 4; p.w[K_UNLOCK] = 30; p.w[K_YIELD] = 8; p.w[K_SLEEP] = 6; p.w[K_COMPUTE] = 6; p.w[K_CANCEL] = 4; p.w[K_SPAWN] = 1;
    go(src, p, [](const RunInfo &r) { return r.gk[K_LOCK] + r.gk[K_RDLOCK] > 0; });
}
PROP(c05, "a generated program over condition variables and mutexes in which a waiter was signaled by another coroutine") {
    Profile p; p.maxmu = 2; p.maxcond = 2; p.loose = true; p.asyncpct = 15; p.dlpct = 25; p.cleanpct = 100;
    p.w[K_LOCK] = 12; p.w[K_RDLOCK] = 2; p.w[K_TRYLOCK] = 2; p.w[K_UNLOCK] = 18; p.w[K_CWAIT] = 18; p.w[K_CSIGNAL] = 12; p.w[K_CBCAST] = 6; p.w[K_YIELD] = 8; p.w[K_SLEEP] = 5; p.w[K_COMPUTE] = 5; p.w[K_CANCEL] = 5;
    go(src, p, [](const RunInfo &r) { return r.gk[K_CWAIT] > 0; });
}
PROP(c06, "a generated program over 1-2 waitgroups in which a blocked wait was released by another coroutine") {
    Profile p; p.maxwg = 2; p.asyncpct = 15; p.dlpct = 25;
    p.w[K_WGADD] = 22; p.w[K_WGDONE] = 36; p.w[K_WGWAIT] = 22; p.w[K_YIELD] = 8; p.w[K_SLEEP] = 6; p.w[K_COMPUTE] = 5; p.w[K_CANCEL] = 5;
    go(src, p, [](const RunInfo &r) { return r.gk[K_WGWAIT] > 0; });
}
static Profile everything() {
    Profile p; p.maxchan = 2; p.maxmu = 2; p.maxwg = 1; p.asyncpct = 20; p.dlpct = 30;
    p.w[K_SEND] = 10; p.w[K_RECV] = 9; p.w[K_TRYRECV] = 2; p.w[K_BCAST] = 1; p.w[K_CLOSE] = 1; p.w[K_SELECT] = 5; p.w[K_TRYSELECT] = 1;
    p.w[K_LOCK] = 7; p.w[K_RDLOCK] = 5; p.w[K_UNLOCK] = 9; p.w[K_TRYLOCK] = 1; p.w[K_WGADD] = 4; p.w[K_WGDONE] = 4; p.w[K_WGWAIT] = 5;
    p.w[K_SUSPEND] = 5; p.w[K_RESUME] = 5; p.w[K_JOIN] = 5; p.w[K_CANCEL] = 6; p.w[K_SLEEP] = 7; p.w[K_YIELD] = 7; p.w[K_COMPUTE] = 4; p.w[K_SPAWN] = 2; p.w[K_STATS] = 3; p.w[K_SETTYPE] = 1;
    return p;
}
PROP(c07p, "a generated program over all blocking operations, most of them with a deadline, in which an operation timed out") {
    Profile p = everything(); p.dlpct = 75; p.w[K_SLEEP] = 12; p.w[K_COMPUTE] = 8;
    go(src, p, [](const RunInfo &r) { return r.timeouts > 0; });
}
PROP(c08p, "a generated program over all blocking operations in which a blocked operation was canceled (inline) or a coroutine was terminated by a cancel (async)") {
    Profile p = everything(); p.w[K_CANCEL] = 30; p.asyncpct = 35; p.w[K_SETTYPE] = 4; p.w[K_SETSTATE] = 4; p.dlpct = 20;
    go(src, p, [](const RunInfo &r) { return r.cancels + r.async_exits > 0; });
}
PROP(c08d, "a generated program with coroutines that disable and enable cancelation, in which a coroutine was canceled") {
    Profile p; p.asyncpct = 30; p.dlpct = 40;
    p.w[K_SUSPEND] = 10; p.w[K_CANCEL] = 20; p.w[K_SLEEP] = 16; p.w[K_YIELD] = 16; p.w[K_COMPUTE] = 5; p.w[K_SETTYPE] = 4; p.w[K_SETSTATE] = 20;
    go(src, p, [](const RunInfo &r) { return r.cancels + r.async_exits > 0; });
}
static Profile conds() {
    Profile p; p.maxmu = 2; p.maxcond = 2; p.maxchan = 1; p.loose = true; p.cleanpct = 100; p.dlpct = 20; p.asyncpct = 30;
    p.w[K_LOCK] = 12; p.w[K_RDLOCK] = 3; p.w[K_UNLOCK] = 16; p.w[K_CWAIT] = 20; p.w[K_CSIGNAL] = 6; p.w[K_CBCAST] = 3; p.w[K_YIELD] = 7; p.w[K_SLEEP] = 6; p.w[K_COMPUTE] = 3; p.w[K_SEND] = 3; p.w[K_RECV] = 3;
    return p;
}
PROP(c08v, "a generated program over condition variables and mutexes in which a blocked operation was canceled (inline) or a coroutine was terminated by a cancel (async)") {
    Profile p = conds(); p.w[K_CANCEL] = 26; p.w[K_SETTYPE] = 4; p.w[K_SETSTATE] = 5;
    go(src, p, [](const RunInfo &r) { return r.cancels + r.async_exits > 0; });
}
PROP(c07q, "a generated program over condition variables and mutexes, most operations with a deadline, in which an operation timed out") {
    Profile p = conds(); p.w[K_CANCEL] = 3; p.dlpct = 75; p.w[K_COMPUTE] = 7; p.asyncpct = 5;
    go(src, p, [](const RunInfo &r) { return r.timeouts > 0; });
}
PROP(c09p, "a generated program of coroutines that start, join, cancel and exit, in which a blocked join was released by an ending coroutine") {
    Profile p; p.asyncpct = 30; p.dlpct = 20; p.bigpct = 8;
    p.w[K_SPAWN] = 16; p.w[K_JOIN] = 22; p.w[K_CANCEL] = 8; p.w[K_SLEEP] = 10; p.w[K_YIELD] = 12; p.w[K_COMPUTE] = 3; p.w[K_EXIT] = 4; p.w[K_SUSPEND] = 4; p.w[K_RESUME] = 4; p.w[K_SETTYPE] = 2; p.w[K_STATS] = 2;
    go(src, p, [](const RunInfo &r) { return r.gk[K_JOIN] > 0; });
}
PROP(c11, "a generated program of coroutines that suspend, resume and cancel each other, in which a suspended coroutine was resumed") {
    Profile p; p.asyncpct = 25; p.dlpct = 25; p.maxchan = 1; p.maxmu = 1; p.maxwg = 1;
    p.w[K_SEND] = 2; p.w[K_RECV] = 3; p.w[K_SELECT] = 2; p.w[K_LOCK] = 3; p.w[K_UNLOCK] = 3; p.w[K_WGADD] = 2; p.w[K_WGWAIT] = 2;
    p.w[K_SUSPEND] = 24; p.w[K_RESUME] = 26; p.w[K_JOIN] = 4; p.w[K_CANCEL] = 8; p.w[K_SLEEP] = 9; p.w[K_YIELD] = 10; p.w[K_COMPUTE] = 4; p.w[K_EXIT] = 1; p.w[K_SPAWN] = 2; p.w[K_SETTYPE] = 2; p.w[K_STATS] = 2;
    go(src, p, [](const RunInfo &r) { return r.gk[K_SUSPEND] > 0; });
}
PROP(c22p, "a generated program over all blocking operations with statistics read at random points while at least one coroutine was blocked") {
    Profile p = everything(); p.w[K_STATS] = 30; p.w[K_SLEEP] = 10;
    go(src, p, [](const RunInfo &r) { return r.blocked_ops > 0 && r.nstats > 0; });
}
PROP(c22c, "a generated program over condition variables with statistics read at random points while at least one coroutine was blocked") {
    Profile p; p.maxmu = 2; p.maxcond = 2; p.loose = true; p.cleanpct = 100; p.dlpct = 20;
    p.w[K_LOCK] = 12; p.w[K_UNLOCK] = 18; p.w[K_CWAIT] = 18; p.w[K_CSIGNAL] = 10; p.w[K_CBCAST] = 5; p.w[K_YIELD] = 8; p.w[K_SLEEP] = 5; p.w[K_STATS] = 20; p.w[K_CANCEL] = 4; p.asyncpct = 10;
    go(src, p, [](const RunInfo &r) { return r.blocked_ops > 0 && r.nstats > 0; });
}
PROP(c12, "a generated program of 1-3 generators and several consumers in which a blocked next or yield was completed by its counterpart") {
    Profile p; p.maxgen = 3; p.dlpct = 20; p.asyncpct = 20; p.moreops = 88;
    p.w[K_SEND] = 30; p.w[K_RECV] = 36; p.w[K_CLOSE] = 2; p.w[K_CHREF] = 3; p.w[K_GDROP] = 2; p.w[K_EXIT] = 2;
    p.w[K_YIELD] = 6; p.w[K_SLEEP] = 4; p.w[K_COMPUTE] = 4; p.w[K_CANCEL] = 5; p.w[K_JOIN] = 2; p.w[K_STATS] = 1;
    go(src, p, [](const RunInfo &r) { return chg(r) > 0; });
}
