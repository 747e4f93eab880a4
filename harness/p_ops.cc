// C07, C08, C11 over every blocking operation: coroutines work through lists of
// operations of about 25 kinds, each on an object of its own; a controller
// completes, cancels, resumes and lets time pass in generated order, and every
// result is compared with what was done to that coroutine. An operation that
// was canceled or timed out is tried again on the same object, so that an
// effect it should not have had is seen.
#include "kit.h"
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
enum { B_SLEEP, B_RECV, B_SEND0, B_SENDF, B_SELECT, B_LOCK, B_RDLOCK, B_WG, B_COND, B_SUSP, B_JOIN, B_CANCELW, B_GNEXT, B_GYIELD, B_WAITR, B_WAITW, B_READ, B_ACCEPT, B_SIG, B_SREAD, B_SBREAD, B_SFULL, B_SBYTE, B_WRITE, B_SWRITE, B_SFLUSH, NB };
static const char *BN[] = {"sleep", "recv", "send", "send (full)", "select", "lock", "rdlock", "waitgroup_wait", "cond_wait", "suspend", "join", "cancel of a protected coroutine", "gen_next", "gen_yield", "wait for reading", "wait for writing",
    "read", "accept", "signal_wait", "stream_read", "stream_read (buffered)", "stream_readfull", "stream_read_byte", "write", "stream_write", "stream_flush"};
static bool peerkind(int k) { return k <= B_GYIELD && k != B_JOIN && k != B_CANCELW && k != B_GNEXT; } // completed in the very call of complete()
struct Ob { int kind; int64_t D; bool dis; int seq; int tries = 0; int64_t aux = 0; bool auxsusp = false, auxlive = false, held = false, finished = false; int comp = 0; int fds[2] = {-1, -1}; neco_chan *ch[3] = {nullptr, nullptr, nullptr}; neco_mutex mu; neco_waitgroup wg; neco_cond cv; neco_gen *gen = nullptr; neco_stream *st = nullptr; int sig = 0; size_t full = 0; unsigned rpos = 0, wpos = 0; bool drained = false; };
struct Sl { int ix = 0; std::vector<Ob *> plan; size_t pos = 0; int type = 2; bool isgen = false, in = false, ended = false, term = false, disnow = false, pre = false; int64_t id = 0, dl = 0; int can = 0, canceled = 0, handlers = 0, incarn = 0; neco_gen *gen = nullptr; };
struct Cn { Sl *s; int64_t id; int64_t dl; bool done; int rc; };
struct A { int o, t, x; int64_t dt; };
enum { A_COMPLETE, A_CANCEL, A_TIME, A_BOTH, A_CANCOMP, A_RESUME, A_YIELD, A_CANCELD };
static const char *AN[] = {"complete", "cancel", "time passes", "complete and cancel", "cancel and complete", "resume", "yield", "cancel with a short deadline"};
static std::deque<Ob> OB; static std::deque<Sl> SL; static std::deque<Cn> CN; static std::string dir; static int nres[3];
static void aux_co(int, void **a) { Ob *p = (Ob *)a[0]; p->auxlive = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); if (p->kind == B_CANCELW) neco_setcancelstate(NECO_CANCEL_DISABLE, nullptr); p->auxsusp = true; neco_suspend(); p->auxsusp = false; p->auxlive = false; }
static void gen_co(int, void **a) { Ob *p = (Ob *)a[0]; p->auxlive = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); p->auxsusp = true; neco_suspend(); p->auxsusp = false; int v = p->seq * 7 + 1; neco_gen_yield(&v); p->auxlive = false; }
static void fillpipe(Ob *p) { static char z[65536]; ssize_t n; while ((n = write(p->fds[1], z, sizeof z)) > 0) p->full += (size_t)n; while (write(p->fds[1], z, 1) > 0) p->full++; }
static void setup(Ob *p, size_t i) {
    memset(&p->mu, 0, sizeof p->mu); memset(&p->wg, 0, sizeof p->wg); memset(&p->cv, 0, sizeof p->cv); int v;
    switch (p->kind) {
    case B_RECV: case B_SEND0: CHECK(neco_chan_make(&p->ch[0], sizeof(int), 0) == 0, "harness", "chan"); break;
    case B_SENDF: CHECK(neco_chan_make(&p->ch[0], sizeof(int), 2) == 0, "harness", "chan"); v = -1; neco_chan_send(p->ch[0], &v); v = -2; neco_chan_send(p->ch[0], &v); break;
    case B_SELECT: for (auto &c : p->ch) neco_chan_make(&c, sizeof(int), (size_t)(p->seq % 3)); break;
    case B_LOCK: neco_mutex_lock(&p->mu); p->held = true; break;
    case B_RDLOCK: neco_mutex_lock(&p->mu); p->held = true; break;
    case B_WG: neco_waitgroup_add(&p->wg, 1); break;
    case B_JOIN: case B_CANCELW: neco_start(aux_co, 1, p); p->aux = neco_lastid(); break;
    case B_GNEXT: CHECK(neco_gen_start(&p->gen, sizeof(int), gen_co, 1, p) == NECO_OK, "harness", "gen"); p->aux = neco_lastid(); break;
    case B_WAITR: case B_READ: if (pipe2(p->fds, O_NONBLOCK)) inconclusive("pipe"); break;
    case B_WAITW: case B_WRITE: if (pipe2(p->fds, O_NONBLOCK)) inconclusive("pipe"); fillpipe(p); break;
    case B_SWRITE: case B_SFLUSH: if (pipe2(p->fds, O_NONBLOCK)) inconclusive("pipe"); fillpipe(p); CHECK((p->kind == B_SFLUSH ? neco_stream_make_buffered(&p->st, p->fds[1]) : neco_stream_make(&p->st, p->fds[1])) == 0, "harness", "stream"); if (p->kind == B_SFLUSH) CHECK(neco_stream_write(p->st, "0123456789", 10) == 10, "harness", "write"); break;
    case B_SREAD: case B_SBREAD: case B_SFULL: case B_SBYTE: if (pipe2(p->fds, O_NONBLOCK)) inconclusive("pipe"); CHECK((p->kind == B_SREAD || (p->kind == B_SFULL && p->seq % 2) ? neco_stream_make(&p->st, p->fds[0]) : neco_stream_make_buffered(&p->st, p->fds[0])) == 0, "harness", "stream"); break;
    case B_ACCEPT: { p->fds[0] = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; snprintf(u.sun_path, sizeof u.sun_path, "%s/a%zu", dir.c_str(), i); if (bind(p->fds[0], (struct sockaddr *)&u, sizeof u) || listen(p->fds[0], 16)) inconclusive("listen"); break; }
    }
}
static char pat(const Ob *p, unsigned i) { return (char)(p->seq * 31 + (int)i * 5 + 1); }
static void chk(Ob *p, const char *b, ssize_t n) { for (ssize_t i = 0; i < n; i++) CHECK(b[i] == pat(p, p->rpos + (unsigned)i), "data", "%s: byte %u is wrong after an earlier attempt", BN[p->kind], p->rpos + (unsigned)i); p->rpos += (unsigned)n; CHECK(p->rpos <= p->wpos, "data", "%s: more bytes read than written", BN[p->kind]); }
// one attempt; result 0 completed, 1 timed out, 2 canceled
static int attempt(Ob *p, int64_t dl) {
    char b[64]; ssize_t rc = 0; int v = p->seq * 7 + 1; errno = 0;
    switch (p->kind) {
    case B_SLEEP: rc = neco_sleep_dl(dl); break;
    case B_RECV: v = 0; rc = neco_chan_recv_dl(p->ch[0], &v, dl); break;
    case B_SEND0: case B_SENDF: rc = neco_chan_send_dl(p->ch[0], &v, dl); break;
    case B_SELECT: rc = neco_chan_selectv_dl(3, p->ch, dl); break;
    case B_LOCK: rc = neco_mutex_lock_dl(&p->mu, dl); break;
    case B_RDLOCK: rc = neco_mutex_rdlock_dl(&p->mu, dl); break;
    case B_WG: rc = neco_waitgroup_wait_dl(&p->wg, dl); break;
    case B_COND: rc = neco_cond_wait_dl(&p->cv, &p->mu, dl); break;
    case B_SUSP: rc = neco_suspend_dl(dl); break;
    case B_JOIN: rc = neco_join_dl(p->aux, dl); break;
    case B_CANCELW: rc = neco_cancel_dl(p->aux, dl); if (rc == NECO_NOTFOUND) rc = NECO_OK; break;
    case B_GNEXT: v = 0; rc = neco_gen_next_dl(p->gen, &v, dl); break;
    case B_GYIELD: rc = neco_gen_yield_dl(&v, dl); break;
    case B_WAITR: rc = neco_wait_dl(p->fds[0], NECO_WAIT_READ, dl); break;
    case B_WAITW: rc = neco_wait_dl(p->fds[1], NECO_WAIT_WRITE, dl); break;
    case B_READ: rc = neco_read_dl(p->fds[0], b, 8, dl); break;
    case B_WRITE: rc = neco_write_dl(p->fds[1], "0123456789", 10, dl); break;
    case B_ACCEPT: rc = neco_accept_dl(p->fds[0], nullptr, nullptr, dl); break;
    case B_SIG: neco_signal_watch(p->sig); rc = neco_signal_wait_dl(dl); break;
    case B_SREAD: case B_SBREAD: rc = neco_stream_read_dl(p->st, b, 8, dl); break;
    case B_SFULL: rc = neco_stream_readfull_dl(p->st, b, 4, dl); break;
    case B_SBYTE: rc = neco_stream_read_byte_dl(p->st, dl); break;
    case B_SWRITE: rc = neco_stream_write_dl(p->st, "0123456789", 10, dl); break;
    case B_SFLUSH: rc = neco_stream_flush_dl(p->st, dl); break;
    }
    int er = errno, le = neco_lasterr();
    tr("%lld %s -> %zd errno %d lasterr %d", (long long)(vc_now() % 1000000000000LL), BN[p->kind], rc, er, le);
    if (p->kind == B_COND) CHECK(neco_mutex_trylock(&p->mu) == NECO_BUSY, "cond-mutex", "the mutex is not held after cond_wait returned %zd", rc);
    if (rc == -1) { CHECK((er == ETIMEDOUT && le == NECO_TIMEDOUT) || (er == ECANCELED && le == NECO_CANCELED), "result", "%s returned -1 with errno %d, last error %d", BN[p->kind], er, le); return er == ETIMEDOUT ? 1 : 2; }
    if (rc == NECO_TIMEDOUT || rc == NECO_CANCELED) { CHECK(le == rc, "result", "%s returned %zd but the last error is %d", BN[p->kind], rc, le); return rc == NECO_TIMEDOUT ? 1 : 2; }
    switch (p->kind) {
    case B_RECV: case B_GNEXT: CHECK(rc == NECO_OK && v == p->seq * 7 + 1, "result", "%s returned %zd with value %d", BN[p->kind], rc, v); break;
    case B_SELECT: CHECK(rc == p->seq % 3 && neco_chan_case(p->ch[rc], &v) == NECO_OK && v == p->seq * 11 + 5, "result", "select returned %zd with value %d", rc, v); break;
    case B_LOCK: case B_RDLOCK: CHECK(rc == NECO_OK && neco_mutex_unlock(&p->mu) == NECO_OK, "result", "%s returned %zd", BN[p->kind], rc); break;
    case B_READ: case B_SREAD: case B_SBREAD: CHECK(rc == 4, "result", "%s returned %zd, 4 bytes expected", BN[p->kind], rc); chk(p, b, rc); break;
    case B_SFULL: CHECK(rc == 4, "result", "readfull returned %zd", rc); chk(p, b, 4); break;
    case B_SBYTE: CHECK(rc >= 0 && rc < 256, "result", "read_byte returned %zd", rc); b[0] = (char)rc; chk(p, b, 1); break;
    case B_WRITE: case B_SWRITE: CHECK(rc == 10, "result", "%s returned %zd", BN[p->kind], rc); break;
    case B_ACCEPT: CHECK(rc >= 0, "result", "accept returned %zd", rc); close((int)rc); break;
    case B_SIG: CHECK(rc == p->sig, "result", "signal_wait returned %zd", rc); neco_signal_unwatch(p->sig); break;
    default: CHECK(rc == NECO_OK, "result", "%s returned %zd", BN[p->kind], rc);
    }
    return 0;
}
// called by the controller; true if the waiting operation has been completed by it
static bool complete(Sl *s) {
    Ob *p = s->plan[s->pos]; int v = 0, r; if (p->comp) return false; static char z[65536];
    tr("%lld complete %s of s%d", (long long)(vc_now() % 1000000000000LL), BN[p->kind], s->ix);
    switch (p->kind) {
    case B_SLEEP: return false;
    case B_RECV: v = p->seq * 7 + 1; p->comp++; r = neco_chan_send_dl(p->ch[0], &v, neco_now() + 1000); CHECK(r == NECO_OK, "counterpart", "a send to a waiting receiver returned %d", r); return true;
    case B_SEND0: p->comp++; r = neco_chan_tryrecv(p->ch[0], &v); CHECK(r == NECO_OK && v == p->seq * 7 + 1, "counterpart", "a receive from a waiting sender returned %d, value %d", r, v); return true;
    case B_SENDF: p->comp++; r = neco_chan_tryrecv(p->ch[0], &v); CHECK(r == NECO_OK && v == -1, "counterpart", "a receive from a full channel returned %d, value %d", r, v); return true;
    case B_SELECT: v = p->seq * 11 + 5; p->comp++; r = neco_chan_send_dl(p->ch[p->seq % 3], &v, neco_now() + 1000); CHECK(r == NECO_OK, "counterpart", "a send to a waiting select returned %d", r); return true;
    case B_LOCK: case B_RDLOCK: p->held = false; p->comp++; r = neco_mutex_unlock(&p->mu); CHECK(r == NECO_OK, "counterpart", "unlock returned %d", r); return true;
    case B_WG: p->comp++; r = neco_waitgroup_done(&p->wg); CHECK(r == NECO_OK, "counterpart", "done returned %d", r); return true;
    case B_COND: p->comp++; r = p->seq & 1 ? neco_cond_signal(&p->cv) : neco_cond_broadcast(&p->cv); CHECK(r == NECO_OK, "counterpart", "signal returned %d", r); return true;
    case B_SUSP: p->comp++; r = neco_resume(s->id); CHECK(r == NECO_OK, "counterpart", "resume of a suspended coroutine returned %d", r); return true;
    case B_JOIN: case B_CANCELW: case B_GNEXT: p->comp++; r = neco_resume(p->aux); CHECK(r == NECO_OK, "counterpart", "resume of a suspended coroutine returned %d", r); return true;
    case B_GYIELD: p->comp++; r = neco_gen_next_dl(s->gen, &v, neco_now() + 1000); CHECK(r == NECO_OK && v == p->seq * 7 + 1, "counterpart", "gen_next with a waiting generator returned %d, value %d", r, v); return true;
    case B_WAITR: p->comp++; (void)!write(p->fds[1], "x", 1); return true;
    case B_READ: case B_SREAD: case B_SBREAD: case B_SFULL: case B_SBYTE: { char b[8]; int n = p->kind == B_SBYTE ? 1 : 4; for (int i = 0; i < n; i++) b[i] = pat(p, p->wpos++); p->comp++; (void)!write(p->fds[1], b, (size_t)n); return true; }
    case B_WAITW: case B_WRITE: case B_SWRITE: case B_SFLUSH: { p->comp++; p->drained = true; size_t left = p->full; while (left) { ssize_t n = read(p->fds[0], z, std::min(left, sizeof z)); if (n <= 0) inconclusive("drain"); for (ssize_t i = 0; i < n; i++) CHECK(z[i] == 0, "data", "an operation that did not complete wrote something"); left -= (size_t)n; } return true; }
    case B_ACCEPT: { p->comp++; struct sockaddr_un u; socklen_t n = sizeof u; getsockname(p->fds[0], (struct sockaddr *)&u, &n); int c = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); if (connect(c, (struct sockaddr *)&u, n)) inconclusive("connect"); close(c); return true; }
    case B_SIG: p->comp++; raise(p->sig); return true;
    }
    return false;
}
static int waiting(Sl *s) { int n = 0; for (auto &c : CN) n += c.s == s && !c.done; return n; } // cancelers that wait because s has cancelation disabled
static void out_(void *v) { Sl *s = (Sl *)v; s->handlers++; s->term = true; if (s->in) { CHECK(s->can > 0, "spurious-cancel", "s%d is terminated in %s but nobody canceled it", s->ix, BN[s->plan[s->pos]->kind]); CHECK(s->type == NECO_CANCEL_ASYNC, "async", "s%d has inline cancelation but is terminated", s->ix); CHECK(!s->disnow || s->pre, "disabled", "s%d is terminated while cancelation is disabled", s->ix); tr("s%d terminated in %s", s->ix, BN[s->plan[s->pos]->kind]); } s->in = false; }
static void sbody(Sl *s) {
    s->id = neco_getid(); s->ended = s->term = false; s->handlers = 0; neco_setcanceltype(s->type, nullptr);
    neco_cleanup_push(out_, s);
    while (s->pos < s->plan.size()) {
        Ob *p = s->plan[s->pos]; int sn = s->ix;
        if (p->kind == B_GYIELD && (!s->isgen || s->incarn)) { s->pos++; continue; }
        if (p->kind == B_COND) { if (s->incarn && p->held) { s->pos++; continue; } int r = neco_mutex_lock(&p->mu); if (r == NECO_CANCELED) { CHECK(s->can > 0, "spurious-cancel", "lock of s%d", sn); s->can--; s->canceled++; continue; } CHECK(r == NECO_OK, "harness", "lock %d", r); p->held = true; }
        if (p->dis) { s->pre = s->can > waiting(s); s->disnow = true; CHECK(neco_setcancelstate(NECO_CANCEL_DISABLE, nullptr) == NECO_OK, "harness", "disable"); }
        s->dl = p->D ? vc_now() + p->D : INT64_MAX; s->in = true; tr("%lld s%d begins %s%s deadline %lld", (long long)(vc_now() % 1000000000000LL), sn, BN[p->kind], p->dis ? " (protected)" : "", s->dl == INT64_MAX ? -1LL : (long long)(s->dl % 1000000000000LL));
        int r = attempt(p, s->dl); int64_t t = vc_now(); s->in = false; nres[r]++;
        if (p->kind == B_COND) { p->held = false; neco_mutex_unlock(&p->mu); }
        if (r == 0) {
            if (p->kind == B_SLEEP) CHECK(t >= s->dl, "early", "s%d: sleep ended %lld ns early", sn, (long long)(s->dl - t));
            else CHECK(p->comp > 0, "spurious", "s%d: %s reports success but nobody completed it", sn, BN[p->kind]);
        } else if (r == 1) {
            CHECK(t >= s->dl, "early", "s%d: %s gave up %lld ns before its deadline", sn, BN[p->kind], (long long)(s->dl - t));
            CHECK(p->kind != B_SLEEP, "result", "s%d: sleep timed out", sn);
            CHECK(!(p->comp && peerkind(p->kind)), "undone", "s%d: %s was completed but reports a timeout", sn, BN[p->kind]);
        } else {
            CHECK(s->can > 0, "spurious-cancel", "s%d: %s reports canceled but nobody canceled it", sn, BN[p->kind]); s->can--; s->canceled++;
            CHECK(s->type == NECO_CANCEL_INLINE, "async", "s%d: %s reports canceled although cancelation is async", sn, BN[p->kind]);
            CHECK(!p->dis || s->pre, "disabled", "s%d: %s reports canceled although cancelation is disabled", sn, BN[p->kind]);
            CHECK(!(p->comp && peerkind(p->kind)), "undone", "s%d: %s was completed but reports canceled", sn, BN[p->kind]);
        }
        if (r != 2 && s->dl != INT64_MAX && t >= s->dl) CHECK(t - s->dl < 2000000, "late", "s%d: %s returned %lld ns after its deadline", sn, BN[p->kind], (long long)(t - s->dl));
        if (p->dis) { s->disnow = false; CHECK(neco_setcancelstate(NECO_CANCEL_ENABLE, nullptr) == NECO_OK, "harness", "enable"); }
        if (r == 0) { p->finished = true; s->pos++; } else if (r == 1 && ++p->tries > p->seq % 3) p->D = 0;
    }
    s->ended = true; tr("s%d ends", s->ix);
    neco_cleanup_pop(0);
}
static void settle() { for (int r = 0; r < 3; r++) { for (int i = 0; i < 5; i++) neco_yield(); neco_sleep(150000); } for (int i = 0; i < 4; i++) neco_yield(); vc_progress(); }
static void clear_of_deadlines() {
    for (int k = 0; k < 200; k++) { bool near = false; int64_t now = vc_now(); for (auto &s : SL) if (s.in && s.dl != INT64_MAX && s.dl - now < 2500000) near = true; for (auto &c : CN) if (!c.done && c.dl != INT64_MAX && c.dl - now < 2500000) near = true; if (!near) return; neco_sleep(1000000); settle(); }
}
static void start_slot(Sl *s) {
    if (s->isgen && !s->incarn) CHECK(neco_gen_start(&s->gen, sizeof(int), [](int, void **a) { sbody((Sl *)a[0]); }, 1, s) == NECO_OK, "harness", "gen_start");
    else go([s] { sbody(s); });
}
static void verify() {
    for (size_t i = 0; i < SL.size(); i++) { Sl &s = SL[i];
        if (s.term && !s.ended) { // async: a new coroutine takes over with the same objects
            CHECK(s.handlers == 1, "cleanup", "the handler of s%zu ran %d times", i, s.handlers);
            int r = neco_join_dl(s.id, neco_now()); CHECK(r == NECO_OK, "terminated", "s%zu was terminated but join returns %d", i, r);
            Ob *p = s.plan[s.pos]; s.can = 0; s.incarn++; s.type = (p->seq & 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE; if (p->comp && peerkind(p->kind)) s.pos++; start_slot(&s); settle(); }
        for (int k = 0; k < 30 && !s.in && !s.ended && !s.term; k++) neco_yield(); // between two operations: unlocking its mutex
        if (!s.in) { CHECK(s.ended || s.term, "harness", "s%zu is nowhere", i); continue; }
        Ob *p = s.plan[s.pos];
        CHECK(s.can <= (p->dis ? waiting(&s) : 0), "cancel-lost", "s%zu was canceled but is still blocked in %s", i, BN[p->kind]);
        CHECK(!p->comp, "stuck", "%s of s%zu was completed but is still blocked", BN[p->kind], i);
        CHECK(s.dl == INT64_MAX || vc_now() - s.dl < 2000000, "late", "s%zu is still blocked in %s after its deadline", i, BN[p->kind]);
    }
    for (auto &c : CN) if (!c.done) { CHECK(c.dl == INT64_MAX || vc_now() - c.dl < 2000000, "late", "a cancel of a protected coroutine is still blocked after its deadline"); CHECK(c.s->disnow && c.s->in, "cancel-stuck", "a cancel is still waiting although cancelation is enabled again or its target is gone"); }
}
static void do_cancel(Sl *s, int x) {
    if (s->disnow) {
        for (auto &c : CN) if (c.s == s && !c.done) return;
        CN.push_back({s, s->id, x % 3 ? vc_now() + (x % 3) * 15000000LL : INT64_MAX, false, 0}); Cn *c = &CN.back(); tr("%lld cancel of protected s%d begins", (long long)(vc_now() % 1000000000000LL), s->ix);
        go([c] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); c->s->can++; int cd = c->s->canceled; int r = neco_cancel_dl(c->id, c->dl); tr("%lld cancel of protected s%d -> %d", (long long)(vc_now() % 1000000000000LL), c->s->ix, r); (void)cd; c->rc = r; c->done = true;
            CHECK(r == NECO_OK || r == NECO_TIMEDOUT || r == NECO_NOTFOUND, "cancel", "cancel returned %d", r);
            if (r == NECO_TIMEDOUT) { CHECK(vc_now() >= c->dl, "early", "a cancel gave up before its deadline"); CHECK(c->s->id != c->id || c->s->disnow, "cancel", "a cancel timed out although cancelation was enabled"); c->s->can--; }
            if (r == NECO_NOTFOUND) { CHECK(c->s->ended || c->s->term || c->s->id != c->id, "cancel", "a cancel reports not found but its target is alive"); if (c->s->id == c->id && c->s->can) c->s->can--; } });
        return;
    }
    s->can++; int64_t id = s->id; int r = neco_cancel_dl(id, x & 1 ? INT64_MAX : neco_now() + 50000000); tr("%lld cancel s%d -> %d", (long long)(vc_now() % 1000000000000LL), s->ix, r);
    CHECK(r == NECO_OK, "cancel", "cancel of a coroutine blocked in an operation returned %d", r);
}
static void ops(Src &src, std::vector<int> wa, int dlpct, int dispct, int asyncpct) {
    OB.clear(); SL.clear(); CN.clear(); memset(nres, 0, sizeof nres); std::string t; int seq = (int)src.draw(20), nsig = 0;
    int n = src.range(1, 5); if (src.chance(8)) n = src.range(6, 25); bool uni = src.chance(25); int u = (int)src.draw(NB); std::set<int> kinds;
    for (int i = 0; i < n; i++) {
        SL.emplace_back(); Sl &s = SL.back(); s.ix = i; s.type = src.chance(asyncpct) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE; s.isgen = src.chance(15); t += strf("s%d (%s%s): ", i, s.type == NECO_CANCEL_ASYNC ? "async" : "inline", s.isgen ? ", generator" : "");
        int m = src.range(1, 4);
        for (int j = 0; j < m; j++) {
            int k = uni && src.chance(60) ? u : (int)src.draw(NB); if (k == B_GYIELD && !s.isgen) k = B_GNEXT; if (k == B_SIG && nsig >= 3) k = B_READ;
#ifndef NOWRW
            if (k == B_WRITE || k == B_SWRITE || k == B_SFLUSH) k = B_WAITW; // writes visit a worker thread first
#endif
            int64_t D = src.chance(dlpct) ? src.pick<int64_t>({10, 25, 60, 200, 4000}) * 1000000 : 0; if (k == B_SLEEP && D <= 0) D = 30000000;
            OB.push_back({k, D, src.chance(dispct), seq++}); Ob *p = &OB.back(); if (k == B_SIG) { static const int SG[] = {SIGUSR1, SIGUSR2, SIGHUP}; p->sig = SG[nsig++]; } s.plan.push_back(p); kinds.insert(k);
            t += strf("%s%s%s; ", BN[k], p->dis ? " (cancelation disabled)" : "", D ? strf(" deadline +%lld ms", (long long)D / 1000000).c_str() : "");
        }
        t += "\n";
    }
    int na = src.range(1, 20); static std::vector<A> acts; acts.clear();
    for (int i = 0; i < na; i++) { A a; a.o = src.weighted(wa); a.t = (int)src.draw(32); a.x = (int)src.draw(6); a.dt = src.pick<int64_t>({5, 12, 30, 100, 1000}) * 1000000; acts.push_back(a); t += a.o == A_TIME ? strf("%lld ms pass\n", (long long)a.dt / 1000000) : strf("%s %d\n", AN[a.o], a.t); }
    kit_begin(t); dir = scratch_dir(); vc_begin(1, 30000000); static int nact; nact = 0;
    run_rt([&] {
        neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); for (int g : {SIGUSR1, SIGUSR2, SIGHUP, SIGPIPE}) neco_signal_watch(g);
        for (size_t i = 0; i < OB.size(); i++) setup(&OB[i], i);
        for (auto &s : SL) { start_slot(&s); } settle(); clear_of_deadlines(); verify();
        for (auto &a : acts) {
            vc_progress(); clear_of_deadlines(); verify();
            std::vector<Sl *> v; for (auto &s : SL) if (s.in) v.push_back(&s);
            if (v.empty()) break;
            Sl *s = v[(size_t)a.t % v.size()]; nact++;
            switch (a.o) {
            case A_COMPLETE: complete(s); break;
            case A_CANCEL: do_cancel(s, a.x); break;
            case A_CANCELD: do_cancel(s, 1 + a.x % 2); break;
            case A_TIME: neco_sleep(a.dt); break;
            case A_BOTH: { if (waiting(s)) break; complete(s); if (s->ended || s->term) break; if (a.x == 5) neco_yield(); if (!s->ended && !s->term && (s->in || !s->disnow)) { if (s->disnow) break; s->can++; int64_t id = s->id; int r = neco_cancel(id); tr("cancel s%d -> %d", s->ix, r); CHECK(r == NECO_OK, "cancel", "cancel returned %d", r); } break; }
            case A_CANCOMP: { if (s->disnow) break; do_cancel(s, a.x); if (s->in && s->pos < s->plan.size()) complete(s); break; }
            case A_RESUME: { bool susp = s->plan[s->pos]->kind == B_SUSP; if (susp) s->plan[s->pos]->comp++; int r = neco_resume(s->id); CHECK(r == (susp ? NECO_OK : NECO_NOTSUSPENDED), "resume", "resume of a coroutine blocked in %s returned %d", BN[s->plan[s->pos]->kind], r); break; }
            case A_YIELD: neco_yield(); break;
            }
            if (a.o != A_YIELD) { settle(); verify(); }
            for (auto &x : SL) if (x.ended) { int64_t id = x.id; int r = neco_cancel(id); CHECK(r == NECO_NOTFOUND, "cancel", "cancel of an ended coroutine returned %d", r); r = neco_resume(id); CHECK(r == NECO_NOTFOUND, "resume", "resume of an ended coroutine returned %d", r); }
        }
        for (int r = 0; r < 60; r++) { settle(); clear_of_deadlines(); verify(); bool any = false; for (auto &s : SL) if (s.in) { any = true; if (s.plan[s.pos]->kind != B_SLEEP) complete(&s); settle(); clear_of_deadlines(); } if (!any) break; bool sl = false; for (auto &s : SL) if (s.in && s.plan[s.pos]->kind == B_SLEEP) sl = true; if (sl) neco_sleep(4100000000LL); }
        settle(); verify();
        for (size_t i = 0; i < SL.size(); i++) CHECK(SL[i].ended, "stuck", "s%zu did not end", i);
        for (auto &c : CN) CHECK(c.done, "cancel-stuck", "a cancel did not return although its target ended");
        for (auto &s : SL) if (s.gen) { neco_gen_close(s.gen); neco_gen_release(s.gen); }
        for (auto &p : OB) { if (p.auxsusp) neco_resume(p.aux); if (p.gen) { int v; neco_gen_close(p.gen); neco_gen_next_dl(p.gen, &v, neco_now() + 1000); neco_gen_release(p.gen); } }
        for (int k = 0; k < 4; k++) neco_yield();
        for (auto &p : OB) {
            if ((p.kind == B_WRITE || p.kind == B_SWRITE || p.kind == B_SFLUSH) && p.finished) { char b[64]; ssize_t g = read(p.fds[0], b, sizeof b); CHECK(g == 10 && !memcmp(b, "0123456789", 10), "data", "%s: %zd bytes arrived instead of 10", BN[p.kind], g); }
            if (p.kind == B_SENDF && p.finished) { int v = 0; CHECK(neco_chan_tryrecv(p.ch[0], &v) == NECO_OK && v == -2, "data", "value %d", v); CHECK(neco_chan_tryrecv(p.ch[0], &v) == NECO_OK && v == p.seq * 7 + 1, "data", "the message sent is %d", v); }
            if (p.ch[0]) for (auto &c : p.ch) if (c) { int v; int r = neco_chan_tryrecv(c, &v); CHECK(r == NECO_EMPTY || !p.finished, "effect", "%s: a message is left over", BN[p.kind]); neco_chan_release(c); }
            if (p.st) neco_stream_release(p.st); if (p.held && p.kind != B_COND) neco_mutex_unlock(&p.mu);
            for (int f : p.fds) if (f >= 0) close(f);
        }
        neco_sleep(1000000);
        neco_stats st; neco_getstats(&st); CHECK(st.coroutines == 1, "leak", "%zu coroutines are left", st.coroutines);
    });
    for (int k : kinds) label(BN[k]);
    count("completed", (uint64_t)nres[0]); count("timed-out", (uint64_t)nres[1]); count("canceled", (uint64_t)nres[2]);
}
PROP(c08x, "operations of any kind were blocked and at least one of them was canceled or terminated and one completed") {
    ops(src, {14, 34, 6, 12, 10, 2, 4, 10}, 25, 20, 35); int tm = 0; for (auto &s : SL) tm += s.incarn; count("terminated", (uint64_t)tm); nontrivial(nres[2] + tm > 0 && nres[0] > 0);
}
PROP(c07x, "operations of any kind with deadlines were blocked, at least one timed out and one completed") {
    ops(src, {24, 6, 40, 3, 3, 2, 4, 6}, 80, 8, 20); nontrivial(nres[1] > 0 && nres[0] > 0);
}
PROP(c11x, "coroutines blocked in operations of any kind were resumed, and at least one operation completed") {
    ops(src, {16, 8, 8, 3, 3, 40, 4, 2}, 30, 8, 20); nontrivial(nres[0] > 0 && OB.size() > 1);
}
