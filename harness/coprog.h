// Generated coroutine programs, executed against neco, checked in execution
// order against a sequential reference model.
#pragma once
#include "pbt.h"
#include "vclock.h"
extern "C" {
#include "neco.h"
int neco_mutex_destroy(neco_mutex *);
int neco_waitgroup_destroy(neco_waitgroup *);
int neco_cond_destroy(neco_cond *);
}
#include <deque>
#include <vector>
#include <string>
#include <set>

enum Kind {
    K_YIELD, K_COMPUTE, K_SLEEP, K_SPAWN, K_JOIN, K_SEND, K_RECV, K_TRYRECV, K_BCAST, K_CLOSE,
    K_SELECT, K_TRYSELECT, K_LOCK, K_RDLOCK, K_TRYLOCK, K_TRYRDLOCK, K_UNLOCK, K_WGADD, K_WGDONE,
    K_WGWAIT, K_CWAIT, K_CSIGNAL, K_CBCAST, K_SUSPEND, K_RESUME, K_CANCEL, K_SETTYPE, K_SETSTATE,
    K_EXIT, K_STATS, K_CHREF, K_GDROP, K_RENEW, NKIND
};
struct Op { Kind k; int obj = 0, arg = 0; int64_t rel = INT64_MAX; bool hasdl = false; std::vector<int> cases; bool varargs = false; int rep = 1; };
struct ChanSpec { int msgsize, cap; bool gen = false; };
struct Script { std::vector<Op> ops; bool top = true; bool tidy = true; int ctype = 2; int nargs = 1; int gen = -1; };
struct Program {
    std::vector<ChanSpec> chans; int nmu = 0, nwg = 0, ncond = 0;
    std::vector<Script> cos;
    bool loose = false; int churn = 0; std::vector<int> warm;
};
struct Profile {
    int w[NKIND] = {0};
    int maxgen = 0, maxchan = 0, maxmu = 0, maxwg = 0, maxcond = 0;
    int dlpct = 20;          // % of blocking ops with a deadline
    int asyncpct = 0;        // % of coroutines with async cancelation
    int maxco = 8, moreco = 75, maxops = 14, moreops = 85;
    int bigpct = 3;          // % of programs with many coroutines
    int cleanpct = 70;       // % of coroutines that release their locks at the end
    bool loose = false;
};
Program gen_program(Src &s, const Profile &p);
std::string render_program(const Program &p);

struct RunOpts { bool leakcheck = true; bool drain = true; bool trace = false; bool keepgoing = false; };
struct RunInfo {
    uint64_t loghash = 0; long events = 0; int blocked_ops = 0, grants = 0, timeouts = 0, cancels = 0, stuck = 0, async_exits = 0;
    int gk[NKIND] = {0}, closed_results = 0, nstats = 0; int maxqueue = 0; bool drained = false; int ngranted_past_deadline = 0; std::string log;
};
// Runs the program in this process (fails the case on any divergence).
RunInfo run_program(const Program &p, const RunOpts &o);

// allocator tracking
void alloc_install();
long alloc_live();
extern long alloc_fail_at;     // fail the n-th allocation from now (-1 never)
extern long alloc_count;
int count_fds();
void program_labels(const RunInfo &r);
extern void (*g_prog_done)(const RunInfo &);
