// C23: error reporting. c23a runs several coroutines that each go through a
// generated list of operations whose outcome is known (invalid arguments,
// refused and failing operations, successes, blocking ones that others wake,
// cancel or let time out), interleaved; result, last error, errno, message and
// the absence of side effects are checked at each step. c23m checks messages
// and conversions for generated codes, c23p panic-on-error.
#include "kit.h"
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
struct S { // the private objects of a coroutine
    int64_t id = 0; neco_chan *ch = nullptr, *cl = nullptr, *full = nullptr, *rz = nullptr; neco_mutex mu, held; neco_waitgroup wg, wg1; neco_cond cv; int eof = -1, idle[2] = {-1, -1}, gone = -1; neco_stream *se = nullptr, *sb = nullptr, *su = nullptr; neco_gen *gd = nullptr; int64_t parked = 0, dead = 0; std::string bad; bool kick = false;
};
static neco_chan *const NC = nullptr; static neco_mutex *const NM = nullptr; static neco_waitgroup *const NW = nullptr; static neco_cond *const NV = nullptr; static neco_stream *const NS_ = nullptr; static neco_gen *const NG = nullptr;
static void nop(int, void **) { fail("effect", "a coroutine was started by a refused call"); }
static void nopw(void *) { fail("effect", "a task was run by a refused call"); }
static void fine(int, void **) {}
static void yielder(int, void **) { int v = 1; neco_gen_yield(&v); }
#define KEEP(T, init, call) ({ T k_ = init; T o_ = k_; long r_ = (call); if (memcmp(&k_, &o_, sizeof k_)) s.bad = "the result parameter was written"; r_; })
#define B bb
static char bb[4096]; enum { NOE = -1, SHORT = -77 };
struct Op { const char *n; long (*f)(S &); long want; int err; bool inval; };
#define I(name, expr) {name, [](S &s) -> long { (void)s; return (long)(expr); }, NECO_INVAL, NOE, true}
#define E(name, expr, w) {name, [](S &s) -> long { (void)s; return (long)(expr); }, w, NOE, true}
#define X(name, expr, e) {name, [](S &s) -> long { (void)s; return (long)(expr); }, -1, e, true}
#define K(name, expr, w) {name, [](S &s) -> long { (void)s; return (long)(expr); }, w, NOE, false}
static int64_t soon(S &s) { (void)s; return neco_now() + 3 * NECO_MILLISECOND; }
static neco_chan *cc[12], *SS0; static int any = -999;
static int reftcp() { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001); int l = socket(AF_INET, SOCK_STREAM, 0); bind(l, (struct sockaddr *)&a, sizeof a); socklen_t n = sizeof a; getsockname(l, (struct sockaddr *)&a, &n); int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); int r = neco_connect(fd, (struct sockaddr *)&a, sizeof a); int e = errno; close(fd); close(l); errno = e; return r; }
static long gai(const char *h, const char *p, int fam, int *le) { struct addrinfo hi, *res = nullptr; memset(&hi, 0, sizeof hi); hi.ai_family = fam; hi.ai_socktype = SOCK_STREAM; long r = neco_getaddrinfo(h, p, &hi, &res); *le = neco_lasterr(); if (r == 0) freeaddrinfo(res); return r; }
static long bytes_ok(long r) { return r; }
static int nin, ndone, nlive, nsteps;
static const Op OPS[] = {
    I("start(no function)", neco_start(nullptr, 0)), I("start(argc -1)", neco_start(nop, -1)), I("startv(no function)", neco_startv(nullptr, 0, nullptr)), I("startv(argc -2)", neco_startv(nop, -2, nullptr)),
    I("signal_watch(0)", neco_signal_watch(0)), I("signal_watch(-1)", neco_signal_watch(-1)), I("signal_watch(32)", neco_signal_watch(32)), I("signal_watch(64)", neco_signal_watch(64)), I("signal_unwatch(0)", neco_signal_unwatch(0)), I("signal_unwatch(-5)", neco_signal_unwatch(-5)), I("signal_unwatch(32)", neco_signal_unwatch(32)),
    I("wait(mode 0)", neco_wait(s.idle[0], 0)), I("wait(mode 3)", neco_wait(s.idle[0], 3)), I("wait(mode 4)", neco_wait(s.idle[0], 4)), I("wait_dl(mode -1)", neco_wait_dl(s.idle[0], -1, 1)),
    I("getstats(NULL)", neco_getstats(nullptr)),
    I("chan_make(NULL)", neco_chan_make(nullptr, 4, 1)), I("chan_make(size too large)", KEEP(neco_chan *, (neco_chan *)8, neco_chan_make(&k_, (size_t)INT32_MAX + 1, 1))), I("chan_make(size -1)", KEEP(neco_chan *, (neco_chan *)8, neco_chan_make(&k_, (size_t)-1, 0))), I("chan_make(capacity too large)", KEEP(neco_chan *, (neco_chan *)8, neco_chan_make(&k_, 0, (size_t)INT32_MAX + 1))), I("chan_make(capacity -1)", KEEP(neco_chan *, (neco_chan *)8, neco_chan_make(&k_, 1, (size_t)-1))),
    I("chan_retain(NULL)", neco_chan_retain(NC)), I("chan_release(NULL)", neco_chan_release(NC)), I("chan_send(NULL)", neco_chan_send(NC, B)), I("chan_send_dl(NULL)", neco_chan_send_dl(NC, B, 1)), I("chan_broadcast(NULL)", neco_chan_broadcast(NC, B)), I("chan_recv(NULL)", neco_chan_recv(NC, B)), I("chan_recv_dl(NULL)", neco_chan_recv_dl(NC, B, 1)), I("chan_tryrecv(NULL)", neco_chan_tryrecv(NC, B)), I("chan_close(NULL)", neco_chan_close(NC)), I("chan_case(NULL)", neco_chan_case(NC, B)),
    I("chan_selectv(-1)", neco_chan_selectv(-1, nullptr)), I("chan_select(-1)", neco_chan_select(-1)), I("chan_tryselect(-3)", neco_chan_tryselect(-3)), I("chan_tryselectv(-1)", neco_chan_tryselectv(-1, nullptr)), I("chan_select(channel, NULL)", neco_chan_select(2, s.ch, NC)), I("chan_select(NULL, channel)", neco_chan_select(2, NC, s.ch)), I("chan_select_dl(full channel, NULL)", neco_chan_select_dl(1, 2, s.full, NC)), I("chan_tryselect(full channel, NULL)", neco_chan_tryselect(2, s.full, NC)), I("chan_select(closed channel, NULL)", neco_chan_select(2, s.cl, NC)),
    I("chan_selectv(9 with a NULL)", ({ for (int i = 0; i < 9; i++) cc[i] = i == 8 ? NC : s.full; neco_chan_selectv(9, cc); })), I("chan_selectv_dl(3 with a NULL)", ({ cc[0] = s.full; cc[1] = NC; cc[2] = s.ch; neco_chan_selectv_dl(3, cc, 1); })), I("chan_tryselectv(10 with a NULL)", ({ for (int i = 0; i < 10; i++) cc[i] = i == 3 ? NC : s.full; neco_chan_tryselectv(10, cc); })),
    I("dial(NULL)", neco_dial(nullptr, "127.0.0.1:1")), I("dial(no address)", neco_dial("tcp", nullptr)), I("dial(unknown network)", neco_dial("udp", "127.0.0.1:1")), I("dial(empty network)", neco_dial("", "127.0.0.1:1")), I("dial(TCP)", neco_dial("TCP", "127.0.0.1:1")), I("dial(no port)", neco_dial("tcp", "127.0.0.1")), I("dial(port 65536)", neco_dial("tcp", "127.0.0.1:65536")), I("dial_dl(unknown network)", neco_dial_dl("tcp5", "127.0.0.1:1", 1)),
    I("serve(NULL)", neco_serve(nullptr, "127.0.0.1:0")), I("serve(no address)", neco_serve("tcp", nullptr)), I("serve(unknown network)", neco_serve("tcp46", "127.0.0.1:0")), I("serve(no port)", neco_serve("tcp", "127.0.0.1")), I("serve_dl(unknown network)", neco_serve_dl("x", "127.0.0.1:0", 1)),
    I("dial(unix, long path)", neco_dial("unix", "/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789")), I("serve(unix, long path)", neco_serve("unix", "/0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789")),
    I("mutex_init(NULL)", neco_mutex_init(NM)), I("mutex_lock(NULL)", neco_mutex_lock(NM)), I("mutex_lock_dl(NULL)", neco_mutex_lock_dl(NM, 1)), I("mutex_trylock(NULL)", neco_mutex_trylock(NM)), I("mutex_unlock(NULL)", neco_mutex_unlock(NM)), I("mutex_rdlock(NULL)", neco_mutex_rdlock(NM)), I("mutex_rdlock_dl(NULL)", neco_mutex_rdlock_dl(NM, 1)), I("mutex_tryrdlock(NULL)", neco_mutex_tryrdlock(NM)),
    I("waitgroup_init(NULL)", neco_waitgroup_init(NW)), I("waitgroup_add(NULL)", neco_waitgroup_add(NW, 1)), I("waitgroup_done(NULL)", neco_waitgroup_done(NW)), I("waitgroup_wait(NULL)", neco_waitgroup_wait(NW)), I("waitgroup_wait_dl(NULL)", neco_waitgroup_wait_dl(NW, 1)),
    I("cond_init(NULL)", neco_cond_init(NV)), I("cond_signal(NULL)", neco_cond_signal(NV)), I("cond_broadcast(NULL)", neco_cond_broadcast(NV)), I("cond_wait(NULL, mutex)", neco_cond_wait(NV, &s.mu)), I("cond_wait(cond, NULL)", neco_cond_wait(&s.cv, NM)), I("cond_wait_dl(cond, NULL)", neco_cond_wait_dl(&s.cv, NM, 1)), I("cond_wait_dl(NULL, mutex)", neco_cond_wait_dl(NV, &s.mu, 1)),
    I("setcanceltype(0)", KEEP(int, any, neco_setcanceltype(0, &k_))), I("setcanceltype(ENABLE)", KEEP(int, any, neco_setcanceltype(NECO_CANCEL_ENABLE, &k_))), I("setcanceltype(DISABLE)", neco_setcanceltype(NECO_CANCEL_DISABLE, nullptr)), I("setcancelstate(ASYNC)", KEEP(int, any, neco_setcancelstate(NECO_CANCEL_ASYNC, &k_))), I("setcancelstate(INLINE)", neco_setcancelstate(NECO_CANCEL_INLINE, nullptr)), I("setcancelstate(5)", neco_setcancelstate(5, nullptr)), I("setcancelstate(-1)", neco_setcancelstate(-1, nullptr)),
    I("stream_make(NULL)", neco_stream_make(nullptr, s.idle[0])), I("stream_make(-1)", KEEP(neco_stream *, (neco_stream *)8, neco_stream_make(&k_, -1))), I("stream_make_buffered(NULL)", neco_stream_make_buffered(nullptr, s.idle[0])), I("stream_make_buffered(-1)", KEEP(neco_stream *, (neco_stream *)8, neco_stream_make_buffered(&k_, -1))),
    I("stream_close(NULL)", neco_stream_close(NS_)), I("stream_close_dl(NULL)", neco_stream_close_dl(NS_, 1)), I("stream_read(NULL)", neco_stream_read(NS_, B, 4)), I("stream_read_dl(NULL)", neco_stream_read_dl(NS_, B, 4, 1)), I("stream_write(NULL)", neco_stream_write(NS_, B, 4)), I("stream_write_dl(NULL)", neco_stream_write_dl(NS_, B, 4, 1)), I("stream_readfull(NULL)", neco_stream_readfull(NS_, B, 4)), I("stream_readfull_dl(NULL)", neco_stream_readfull_dl(NS_, B, 4, 1)), I("stream_read_byte(NULL)", neco_stream_read_byte(NS_)), I("stream_read_byte_dl(NULL)", neco_stream_read_byte_dl(NS_, 1)), I("stream_unread_byte(NULL)", neco_stream_unread_byte(NS_)), I("stream_flush(NULL)", neco_stream_flush(NS_)), I("stream_flush_dl(NULL)", neco_stream_flush_dl(NS_, 1)), I("stream_buffered_read_size(NULL)", neco_stream_buffered_read_size(NS_)), I("stream_buffered_write_size(NULL)", neco_stream_buffered_write_size(NS_)),
    I("rand(attr 2)", KEEP(int64_t, 77, neco_rand(&k_, 8, 2))), I("rand(attr -1)", KEEP(int64_t, 77, neco_rand(&k_, 8, -1))), I("rand_dl(attr 9)", neco_rand_dl(B, 4, 9, 1)),
    I("gen_start(NULL)", neco_gen_start(nullptr, 4, nop, 0)), I("gen_start(size too large)", KEEP(neco_gen *, (neco_gen *)8, neco_gen_start(&k_, (size_t)INT32_MAX + 1, nop, 0))), I("gen_start(no function)", ({ neco_gen *g = nullptr; neco_gen_start(&g, 4, nullptr, 0); })), I("gen_start(argc -1)", ({ neco_gen *g = nullptr; neco_gen_start(&g, 4, nop, -1); })), I("gen_startv(NULL)", neco_gen_startv(nullptr, 4, nop, 0, nullptr)), I("gen_startv(no function)", ({ neco_gen *g = nullptr; neco_gen_startv(&g, 4, nullptr, 0, nullptr); })),
    I("gen_retain(NULL)", neco_gen_retain(NG)), I("gen_release(NULL)", neco_gen_release(NG)), I("gen_next(NULL)", neco_gen_next(NG, B)), I("gen_next_dl(NULL)", neco_gen_next_dl(NG, B, 1)), I("gen_close(NULL)", neco_gen_close(NG)),
    I("work(NULL)", neco_work(0, nullptr, nullptr)), I("work(-1, NULL)", neco_work(-1, nullptr, B)),
    // refused
    E("cancel(0)", neco_cancel(0), NECO_NOTFOUND), E("cancel(-1)", neco_cancel(-1), NECO_NOTFOUND), E("cancel(far id)", neco_cancel(INT64_MAX), NECO_NOTFOUND), E("cancel(ended)", neco_cancel(s.dead), NECO_NOTFOUND), E("cancel_dl(ended)", neco_cancel_dl(s.dead, 1), NECO_NOTFOUND), E("resume(0)", neco_resume(0), NECO_NOTFOUND), E("resume(ended)", neco_resume(s.dead), NECO_NOTFOUND), E("resume(far id)", neco_resume(INT64_MAX / 2), NECO_NOTFOUND), E("resume(self)", neco_resume(neco_getid()), NECO_NOTSUSPENDED), E("resume(a receiver)", neco_resume(s.parked), NECO_NOTSUSPENDED),
    E("signal_wait(not watching)", neco_signal_wait(), NECO_NOSIGWATCH), E("signal_wait_dl(not watching)", neco_signal_wait_dl(soon(s)), NECO_NOSIGWATCH),
    E("chan_tryrecv(empty)", neco_chan_tryrecv(s.ch, B), NECO_EMPTY), E("chan_tryselect(empty)", neco_chan_tryselect(1, s.ch), NECO_EMPTY), E("chan_tryselectv(two empty)", ({ cc[0] = s.ch; cc[1] = s.rz; neco_chan_tryselectv(2, cc); }), NECO_EMPTY), E("chan_recv(closed)", neco_chan_recv(s.cl, B), NECO_CLOSED), E("chan_tryrecv(closed)", neco_chan_tryrecv(s.cl, B), NECO_CLOSED), E("chan_send(closed)", neco_chan_send(s.cl, B), NECO_CLOSED), E("chan_broadcast(closed)", neco_chan_broadcast(s.cl, B), NECO_CLOSED), E("chan_close(closed)", neco_chan_close(s.cl), NECO_CLOSED), E("gen_next(ended)", neco_gen_next(s.gd, B), NECO_CLOSED),
    E("mutex_trylock(held)", neco_mutex_trylock(&s.held), NECO_BUSY), E("mutex_tryrdlock(held)", neco_mutex_tryrdlock(&s.held), NECO_BUSY), E("waitgroup_done(0)", neco_waitgroup_done(&s.wg), NECO_NEGWAITGRP), E("waitgroup_add(-1)", neco_waitgroup_add(&s.wg, -1), NECO_NEGWAITGRP), E("waitgroup_add(-100)", neco_waitgroup_add(&s.wg1, -100), NECO_NEGWAITGRP), E("gen_yield(no generator)", neco_gen_yield(B), NECO_NOTGENERATOR), E("gen_yield_dl(no generator)", neco_gen_yield_dl(B, soon(s)), NECO_NOTGENERATOR),
    E("stream_read(at the end)", neco_stream_read(s.se, B, 8), NECO_EOF), E("stream_readfull(at the end)", neco_stream_readfull(s.se, B, 8), NECO_EOF), E("stream_read_byte(at the end)", neco_stream_read_byte(s.sb), NECO_EOF), E("stream_unread_byte(nothing read)", neco_stream_unread_byte(s.su), NECO_UNREADFAIL), E("stream_unread_byte(unbuffered)", neco_stream_unread_byte(s.se), NECO_UNREADFAIL),
    // timed out
    E("sleep(-1)", neco_sleep(-1), NECO_TIMEDOUT), K("sleep_dl(past)", neco_sleep_dl(1), NECO_TIMEDOUT), K("yield", neco_yield(), NECO_OK), E("chan_recv_dl(past)", neco_chan_recv_dl(s.ch, B, 1), NECO_TIMEDOUT), E("chan_send_dl(full, past)", neco_chan_send_dl(s.full, B, 1), NECO_TIMEDOUT), E("mutex_lock_dl(held, past)", neco_mutex_lock_dl(&s.held, 1), NECO_TIMEDOUT), E("suspend_dl(past)", neco_suspend_dl(1), NECO_TIMEDOUT), E("read_dl(past)", ({ long r = neco_read_dl(s.idle[0], B, 4, 1); r == -1 && errno == ETIMEDOUT ? NECO_TIMEDOUT : r; }), SHORT),
    K("chan_recv_dl", neco_chan_recv_dl(s.ch, B, soon(s)), NECO_TIMEDOUT), K("chan_send_dl(full)", neco_chan_send_dl(s.full, B, soon(s)), NECO_TIMEDOUT), K("chan_select_dl", neco_chan_select_dl(soon(s), 2, s.ch, s.rz), NECO_TIMEDOUT), K("mutex_lock_dl(held)", neco_mutex_lock_dl(&s.held, soon(s)), NECO_TIMEDOUT), K("mutex_rdlock_dl(held)", neco_mutex_rdlock_dl(&s.held, soon(s)), NECO_TIMEDOUT), K("waitgroup_wait_dl", neco_waitgroup_wait_dl(&s.wg1, soon(s)), NECO_TIMEDOUT), K("cond_wait_dl", ({ neco_mutex_lock(&s.mu); int r = neco_cond_wait_dl(&s.cv, &s.mu, soon(s)); int l = neco_lasterr(); neco_mutex_unlock(&s.mu); if (l != r) s.bad = "cond_wait_dl: result and last error differ"; neco_chan_recv_dl(s.ch, B, 1); r; }), NECO_TIMEDOUT), K("suspend_dl", neco_suspend_dl(soon(s)), NECO_TIMEDOUT), K("join_dl(blocked)", neco_join_dl(s.parked, soon(s)), NECO_TIMEDOUT), K("wait_dl(idle)", neco_wait_dl(s.idle[0], NECO_WAIT_READ, soon(s)), NECO_TIMEDOUT), K("stream_read_dl(idle)", neco_stream_read_dl(s.su, B, 4, soon(s)), NECO_TIMEDOUT), {"read_dl(idle)", [](S &s) -> long { return neco_read_dl(s.idle[0], B, 4, soon(s)); }, -1, ETIMEDOUT, false},
    // system errors
    X("read(-1)", neco_read(-1, B, 4), EBADF), X("read(closed)", neco_read(s.gone, B, 4), EBADF), X("write(-1)", neco_write(-1, B, 4), EBADF), X("write(closed)", neco_write(s.gone, B, 4), EBADF), X("accept(-1)", neco_accept(-1, nullptr, nullptr), EBADF), X("accept(pipe)", neco_accept(s.eof, nullptr, nullptr), ENOTSOCK), X("connect(-1)", neco_connect(-1, nullptr, 0), EBADF), X("connect(pipe)", ({ struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; neco_connect(s.idle[0], (struct sockaddr *)&a, sizeof a); }), ENOTSOCK), X("write(broken pipe)", ({ int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipe"); close(p[0]); long r = neco_write(p[1], B, 4); int e = errno; close(p[1]); errno = e; r; }), EPIPE), X("setnonblock(-1)", neco_setnonblock(-1, true, nullptr), EBADF), X("wait(-1)", neco_wait(-1, NECO_WAIT_READ), EBADF), X("wait(closed)", neco_wait_dl(s.gone, NECO_WAIT_WRITE, INT64_MAX), EBADF), X("read(directory)", ({ int d = open("/", O_RDONLY | O_NONBLOCK | O_DIRECTORY); long r = neco_read(d, B, 4); int e = errno; close(d); errno = e; r; }), EISDIR), X("connect(refused)", reftcp(), ECONNREFUSED), X("dial(unix, absent)", neco_dial("unix", "/nonexistent/socket"), ENOENT), X("serve(unix, absent folder)", neco_serve("unix", "/nonexistent/socket"), ENOENT), X("stream_write(closed)", ({ neco_stream *x; neco_stream_make(&x, s.gone); long r = neco_stream_write(x, B, 4); int e = errno, l = neco_lasterr(); neco_stream_release(x); (void)l; neco_read(s.gone, B, 1); errno = e; r; }), EBADF), X("testcode", ({ errno = EAGAIN; neco_testcode(-1); }), EAGAIN),
    // success
    K("sleep(0)", neco_sleep(0), NECO_OK), K("sleep(5us)", neco_sleep(5000), NECO_OK), K("chan send", ({ int v = 5; int r = neco_chan_send(s.full, &v) ; r; }), SHORT), K("chan_retain", ({ int r = neco_chan_retain(s.ch); int q = neco_chan_release(s.ch); r ? r : q; }), NECO_OK), K("mutex lock", ({ int r = neco_mutex_lock(&s.mu); int q = neco_mutex_unlock(&s.mu); r ? r : q; }), NECO_OK), K("waitgroup add", ({ int r = neco_waitgroup_add(&s.wg, 2); int q = neco_waitgroup_done(&s.wg); int w = neco_waitgroup_add(&s.wg, -1); r ? r : q ? q : w; }), NECO_OK), K("waitgroup_wait(0)", neco_waitgroup_wait(&s.wg), NECO_OK), K("cond_signal", neco_cond_signal(&s.cv), NECO_OK), K("cond_broadcast", neco_cond_broadcast(&s.cv), NECO_OK), K("start", neco_start(fine, 0), NECO_OK), K("join(ended)", neco_join(s.dead), NECO_OK), K("read(at the end)", neco_read(s.eof, B, 4), 0), K("wait(end)", neco_wait(s.eof, NECO_WAIT_READ), NECO_OK), K("wait(writable)", neco_wait(s.idle[1], NECO_WAIT_WRITE), NECO_OK), K("setcanceltype", ({ int o = 0; int r = neco_setcanceltype(NECO_CANCEL_INLINE, &o); if (o != NECO_CANCEL_INLINE) s.bad = "the cancel type was changed by a refused call"; r; }), NECO_OK), K("setcancelstate", ({ int o = 0; int r = neco_setcancelstate(NECO_CANCEL_ENABLE, &o); if (o != NECO_CANCEL_ENABLE) s.bad = "the cancel state was changed by a refused call"; r; }), NECO_OK), K("signal watch", ({ int r = neco_signal_watch(SIGUSR2); int q = neco_signal_unwatch(SIGUSR2); r ? r : q; }), NECO_OK), K("rand", neco_rand(B, 16, NECO_PRNG), NECO_OK), K("rand(nothing)", neco_rand(nullptr, 0, NECO_CSPRNG), NECO_OK), K("work", neco_work(-1, [](void *) {}, nullptr), NECO_OK), K("work(failing call inside)", neco_work(-1, [](void *) { if (neco_yield() != NECO_PERM || neco_lasterr() != NECO_PERM) fail("result", "an operation in a worker thread did not report PERM"); }, nullptr), NECO_OK), K("getstats", ({ neco_stats st; neco_getstats(&st); }), NECO_OK), K("testcode(0)", neco_testcode(0), NECO_OK), K("generator", ({ neco_gen *g; int r = neco_gen_start(&g, 4, yielder, 0); int q = neco_gen_next(g, B); int w = neco_gen_next(g, B); neco_gen_release(g); r ? r : q ? q : w == NECO_CLOSED ? 0 : -99; }), NECO_OK), K("stream_write", ({ int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipe"); neco_stream *x; neco_stream_make(&x, p[1]); long r = neco_stream_write(x, B, 5); neco_stream_close(x); close(p[0]); bytes_ok(r); }), 5), K("write", ({ int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipe"); long r = neco_write(p[1], B, 3); close(p[0]); close(p[1]); r; }), 3),
    K("getid", ({ neco_chan_tryrecv(s.cl, B); neco_getid() == s.id ? 0 : -99; }), NECO_OK), K("lastid", ({ neco_chan_tryrecv(s.cl, B); neco_lastid() > 0 ? 0 : -99; }), NECO_OK), K("starterid", ({ neco_chan_tryrecv(s.cl, B); neco_starterid() >= 0 ? 0 : -99; }), NECO_OK), K("now", ({ neco_chan_tryrecv(s.cl, B); neco_now() > 0 ? 0 : -99; }), NECO_OK), K("is_main_thread", ({ neco_chan_tryrecv(s.cl, B); neco_is_main_thread() == 1 ? 0 : -99; }), NECO_OK), K("rand_setseed", ({ neco_chan_tryrecv(s.cl, B); int64_t o; neco_rand_setseed(5, &o); }), NECO_OK), K("setnonblock", ({ neco_chan_tryrecv(s.cl, B); bool o = false; int r = neco_setnonblock(s.idle[0], true, &o); if (!o) s.bad = "setnonblock: wrong previous state"; r; }), NECO_OK), K("setnonblock(off)", ({ neco_chan_tryrecv(s.cl, B); int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipe"); bool o = false, q = true; int r = neco_setnonblock(p[0], false, &o), f = fcntl(p[0], F_GETFL), r2 = neco_setnonblock(p[0], true, &q), g = fcntl(p[0], F_GETFL), h = fcntl(p[1], F_GETFL); if (!o || q || (f & O_NONBLOCK) || !(g & O_NONBLOCK) || !(h & O_NONBLOCK) || (g & ~O_NONBLOCK) != (f & ~O_NONBLOCK)) s.bad = "setnonblock: wrong state"; close(p[0]); close(p[1]); r ? r : r2; }), NECO_OK), K("buffered sizes", ({ neco_chan_tryrecv(s.cl, B); neco_stream_buffered_read_size(s.su) + neco_stream_buffered_write_size(s.su); }), 0), K("stream_readfull_dl(idle)", neco_stream_readfull_dl(s.su, B, 4, soon(s)), NECO_TIMEDOUT), K("chan_case", ({ neco_chan_tryrecv(s.cl, B); int r = neco_chan_select(1, s.full); neco_chan_case(s.full, B); neco_chan_send(s.full, B); r; }), 0), K("try lock", ({ neco_chan_tryrecv(s.cl, B); int r = neco_mutex_trylock(&s.mu); neco_mutex_unlock(&s.mu); r; }), NECO_OK), K("rdlock", ({ neco_chan_tryrecv(s.cl, B); int r = neco_mutex_rdlock(&s.mu); int q = neco_mutex_tryrdlock(&s.mu); neco_mutex_unlock(&s.mu); neco_mutex_unlock(&s.mu); r ? r : q; }), NECO_OK), K("chan_make", ({ neco_chan_tryrecv(s.cl, B); neco_chan *c; int r = neco_chan_make(&c, 3, 2); if (neco_lasterr()) s.bad = "chan_make left the last error"; neco_chan_release(c); r; }), NECO_OK), K("resume", ({ int64_t id = 0; int r = 0; neco_start([](int, void **) { neco_suspend(); }, 0); id = neco_lastid(); neco_chan_tryrecv(s.cl, B); r = neco_resume(id); r; }), NECO_OK), K("cancel", ({ neco_start([](int, void **) { neco_suspend(); }, 0); int64_t id = neco_lastid(); neco_chan_tryrecv(s.cl, B); neco_cancel(id); }), NECO_OK),
    // a child cancels or wakes the blocked operation
    K("suspend(canceled)", ({ s.kick = true; neco_suspend(); }), NECO_CANCELED), K("chan_recv(canceled)", ({ s.kick = true; neco_chan_recv(s.ch, B); }), NECO_CANCELED), K("mutex_lock(held, canceled)", ({ s.kick = true; neco_mutex_lock(&s.held); }), NECO_CANCELED), K("sleep(canceled)", ({ s.kick = true; neco_sleep(NECO_HOUR); }), NECO_CANCELED), K("waitgroup_wait(canceled)", ({ s.kick = true; neco_waitgroup_wait(&s.wg1); }), NECO_CANCELED), K("wait(canceled)", ({ s.kick = true; neco_wait(s.idle[0], NECO_WAIT_READ); }), NECO_CANCELED), {"read(canceled)", [](S &s) -> long { s.kick = true; return neco_read(s.idle[0], B, 1); }, -1, ECANCELED, false}, {"accept(canceled)", [](S &s) -> long { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; int l = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); bind(l, (struct sockaddr *)&a, sizeof(sa_family_t)); listen(l, 3); s.kick = true; long r = neco_accept(l, nullptr, nullptr); int e = errno; close(l); errno = e; return r; }, -1, ECANCELED, false},
    K("chan_select(canceled)", ({ s.kick = true; neco_chan_select(2, s.ch, s.rz); }), NECO_CANCELED), K("stream_read(canceled)", ({ s.kick = true; neco_stream_read(s.su, B, 9); }), NECO_CANCELED), K("join(canceled)", ({ s.kick = true; neco_join(s.parked); }), NECO_CANCELED),
};
enum { NOPS = sizeof OPS / sizeof *OPS };
static const struct { const char *h, *p; int fam, want; } GAI[] = {{"127.0.0.1", "nosuchservice", AF_INET, EAI_SERVICE}, {"127.0.0.1", "80", AF_INET6, EAI_ADDRFAMILY}, {"::1", "80", AF_INET, EAI_ADDRFAMILY}, {"127.0.0.1", "80", 12345, EAI_FAMILY}, {"127.0.0.1", "80", AF_INET, 0}};
static int conv(int e) { return e == EINVAL ? NECO_INVAL : e == EPERM ? NECO_PERM : e == ENOMEM ? NECO_NOMEM : e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR; }
static const char *msgof(long c, int e) {
    switch (c) { case NECO_OK: return "Success"; case NECO_ERROR: return strerror(e); case NECO_INVAL: return strerror(EINVAL); case NECO_PERM: return strerror(EPERM); case NECO_NOMEM: return strerror(ENOMEM); case NECO_EOF: return "End of file"; case NECO_NOTFOUND: return "No such coroutine"; case NECO_NOSIGWATCH: return "Not watching on a signal"; case NECO_CLOSED: return "Channel closed"; case NECO_EMPTY: return "Channel empty"; case NECO_TIMEDOUT: return strerror(ETIMEDOUT); case NECO_CANCELED: return strerror(ECANCELED); case NECO_BUSY: return strerror(EBUSY); case NECO_NEGWAITGRP: return "Negative waitgroup counter"; case NECO_UNREADFAIL: return "Failed to unread byte"; case NECO_PARTIALWRITE: return "Failed to write all bytes"; case NECO_NOTGENERATOR: return "Coroutine is not a generator"; case NECO_NOTSUSPENDED: return "Coroutine is not suspended"; default: return nullptr; } }
static const char *CODES[] = {"NECO_OK", "NECO_ERROR", "NECO_INVAL", "NECO_PERM", "NECO_NOMEM", "NECO_EOF", "NECO_NOTFOUND", "NECO_NOSIGWATCH", "NECO_CLOSED", "NECO_EMPTY", "NECO_TIMEDOUT", "NECO_CANCELED", "NECO_BUSY", "NECO_NEGWAITGRP", "NECO_GAIERROR", "NECO_UNREADFAIL", "NECO_PARTIALWRITE", "NECO_NOTGENERATOR", "NECO_NOTSUSPENDED"};
static std::string fdmap() { std::string r; for (int i = 0; i < 160; i++) r += fcntl(i, F_GETFD) >= 0 ? '1' : '0'; return r; }
static void setup(S &s) {
    nsteps++;
    s.id = neco_getid(); memset(&s.mu, 0, sizeof s.mu); memset(&s.held, 0, sizeof s.held); memset(&s.wg, 0, sizeof s.wg); memset(&s.wg1, 0, sizeof s.wg1); memset(&s.cv, 0, sizeof s.cv); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
    neco_chan_make(&s.ch, 8, 1); neco_chan_make(&s.cl, 8, 1); neco_chan_close(s.cl); neco_chan_make(&s.full, 8, 1); neco_chan_make(&s.rz, 8, 0); int64_t v = 1; neco_chan_send(s.full, &v); neco_mutex_lock(&s.held); neco_waitgroup_add(&s.wg1, 1); neco_mutex_lock(&s.mu); neco_mutex_unlock(&s.mu);
    int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipe"); close(p[1]); s.eof = p[0]; s.gone = 900; if (pipe2(s.idle, O_NONBLOCK)) inconclusive("pipe"); neco_stream_make(&s.se, s.eof); neco_stream_make_buffered(&s.sb, s.eof); neco_stream_make_buffered(&s.su, s.idle[0]);
    neco_stream_read_byte(s.sb); neco_gen_start(&s.gd, 8, fine, 0); neco_start(fine, 0); s.dead = neco_lastid(); int v2; go([&s] { int64_t x; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_chan_recv(s.rz, &x); }); s.parked = neco_lastid(); (void)v2;
}
static void teardown(S &s) { nsteps++; int64_t v = 0; neco_cancel(s.parked); neco_join(s.parked); neco_chan_release(s.ch); neco_chan_release(s.cl); CHECK(neco_chan_tryrecv(s.full, &v) == NECO_OK && v == 1, "effect", "the message of a channel was lost or changed"); neco_chan_release(s.full); neco_chan_release(s.rz); neco_stream_release(s.se); neco_stream_release(s.sb); neco_stream_release(s.su); close(s.eof); close(s.idle[0]); close(s.idle[1]); neco_gen_release(s.gd); }
static void one(S &s, const Op &o) {
    neco_stats s0, s1; neco_getstats(&s0); std::string f0 = o.want == NECO_INVAL ? fdmap() : ""; int st0 = ++nsteps; long a0 = alloc_live(); errno = 0; vc_progress(); int64_t lid = neco_lastid();
    if (o.want == SHORT && !o.inval) return;
    if (strstr(o.n, "canceled")) { int64_t me = neco_getid(); S *p = &s; p->kick = false; go([p, me] { while (!p->kick) neco_yield(); for (int i = 0; i < 2; i++) neco_yield(); neco_chan_recv(nullptr, nullptr); neco_cancel(me); neco_mutex_trylock(nullptr); }); errno = 0; }
    long r = o.f(s); int e = errno, le = neco_lasterr(), ge = neco_lasterr(); ndone++;
    long want = o.want == SHORT ? NECO_TIMEDOUT : o.want;
    CHECK(r == want, "result", "%s returned %ld instead of %ld (errno %d)", o.n, r, want, e); CHECK(le == ge, "lasterr", "neco_lasterr() changed by itself");
    if (o.err != NOE) CHECK(e == o.err, "errno", "%s failed with errno %d (%s) instead of %d", o.n, e, strerror(e), o.err);
    int wl = r == -1 ? conv(e) : r < 0 ? (int)r : NECO_OK; CHECK(le == wl, "lasterr", "%s returned %ld (errno %d), but neco_lasterr() is %d instead of %d", o.n, r, e, le, wl);
    const char *m = msgof(le, e); errno = e; const char *g = neco_strerror(le); CHECK(m && g && !strcmp(m, g), "message", "the message of %d (errno %d) is \"%s\" instead of \"%s\"", le, e, g ? g : "NULL", m); CHECK(errno == e, "errno", "neco_strerror changed errno");
    CHECK(s.bad.empty(), "effect", "%s: %s", o.n, s.bad.c_str()); CHECK(neco_getid() == s.id, "effect", "%s: another coroutine goes on", o.n);
    if (o.want == NECO_INVAL && st0 == nsteps) { neco_getstats(&s1);
        CHECK(fdmap() == f0, "effect", "%s was refused but opened or closed a descriptor", o.n);
        CHECK(alloc_live() == a0, "effect", "%s was refused but left %ld blocks", o.n, alloc_live() - a0);
        CHECK(!memcmp(&s0, &s1, sizeof s0) && neco_lastid() == lid, "effect", "%s was refused but the statistics or the last id changed", o.n); }
    nsteps++;
}
static void gaione(int i) { auto &g = GAI[i]; int le; long r = gai(g.h, g.p, g.fam, &le); ndone++; CHECK(r == g.want, "result", "getaddrinfo(%s, %s) returned %ld (%s) instead of %d", g.h ? g.h : "NULL", g.p ? g.p : "NULL", r, gai_strerror((int)r), g.want); CHECK(le == (r ? NECO_GAIERROR : NECO_OK), "lasterr", "getaddrinfo returned %ld but neco_lasterr() is %d", r, le); if (r) { CHECK(neco_gai_lasterr() == r, "lasterr", "getaddrinfo returned %ld (%s) but neco_gai_lasterr() is %d", r, gai_strerror((int)r), neco_gai_lasterr()); CHECK(!strcmp(neco_strerror(le), gai_strerror((int)r)), "message", "the message of a getaddrinfo error is \"%s\" instead of \"%s\"", neco_strerror(le), gai_strerror((int)r)); } }
static std::deque<S> SS; static std::vector<std::vector<int>> lists;
PROP(c23a, "at least two coroutines, and 6 or more operations of which at least two fail and one succeeds") {
    int n = src.range(1, 4); SS.clear(); lists.assign((size_t)n, {}); std::string t; int tot = 0; std::vector<int> conc; bool f = false, k = false;
    for (int i = 0; i < n; i++) { int m = src.range(1, 14); t += strf("coroutine %d:", i); for (int j = 0; j < m; j++) { int o = src.chance(4) ? NOPS + src.range(0, 4) : src.range(0, NOPS - 1); lists[(size_t)i].push_back(o); t += o < NOPS ? strf(" %s;", OPS[o].n) : strf(" getaddrinfo(%d);", o - NOPS); tot++; (o < NOPS && OPS[o].want < 0 ? f : k) = true; if (o < NOPS) label(OPS[o].inval ? "refused or failing at once" : OPS[o].want < 0 ? "blocking, then failing" : "succeeding"); } t += "\n"; }
    kit_begin(t); nontrivial(n >= 2 && tot >= 6 && f && k); signal(SIGPIPE, SIG_IGN); vc_begin(1000, 6000000); nin = ndone = 0; nlive = n;
    run_rt([n] { for (int i = 0; i < n; i++) { SS.emplace_back(); S *s = &SS.back(); auto *l = &lists[(size_t)i]; auto body = [s, l] { setup(*s); for (int o : *l) { if (o >= NOPS) { tr("%lld getaddrinfo", (long long)s->id); gaione(o - NOPS); } else { tr("%lld %s", (long long)s->id, OPS[o].n); one(*s, OPS[o]); } } teardown(*s); nin++; }; if (i == n - 1) { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); body(); } else go(body); } while (nin < n) neco_sleep(1000000); for (int i = 0; i < 6; i++) neco_yield(); });
    count("operations", (uint64_t)ndone); pass();
}
static void *thr(void *u) { long c = (long)u; neco_strerror(c); neco_chan_recv(nullptr, nullptr); errno = EXDEV; return (void *)(long)neco_lasterr(); }
PROP(c23m, "the code is a known one, or not in the range of the known ones") {
    int what = src.range(0, 3); if (what == 0) { // messages
        long c = src.chance(60) ? -(long)src.range(0, 18) : src.chance(50) ? (long)(int32_t)src.draw(0xffffffff) : (long)src.u64(); int e = src.range(0, 140); long o = src.chance(50) ? -(long)src.range(0, 30) : (long)src.u64(); kit_begin(strf("message of %ld, errno %d, then of %ld", c, e, o)); nontrivial(c <= 0 && c >= -18 ? true : c > 0 || c < -18); label("message");
        errno = e; const char *m = neco_strerror(c); CHECK(m && *m, "message", "no message for %ld", c); std::string s1 = m; if (c != NECO_GAIERROR) { const char *w = msgof(c, e); std::string ws = w ? w : strf("Undefined error: %ld", c); CHECK(s1 == ws, "message", "the message of %ld is \"%s\" instead of \"%s\"", c, m, ws.c_str()); }
        std::string sh = neco_shortstrerror((int)c), wsh = (int)c <= 0 && (int)c >= -18 ? CODES[-(int)c] : "UNKNOWN"; CHECK(sh == wsh, "message", "the name of %d is \"%s\" instead of \"%s\"", (int)c, sh.c_str(), wsh.c_str());
        pthread_t th; void *r; pthread_create(&th, nullptr, thr, (void *)o); pthread_join(th, &r); CHECK((long)r == NECO_INVAL, "lasterr", "in another thread neco_lasterr() is %ld", (long)r); if (!(c >= -18 && c <= 0)) CHECK(s1 == m, "message", "the message of %ld became \"%s\" by a call in another thread", c, m); errno = e; neco_strerror(o); CHECK(errno == e || o == NECO_GAIERROR, "errno", "neco_strerror changed errno"); errno = e; CHECK(s1 == neco_strerror(c), "message", "the message of %ld is not stable", c);
    } else if (what == 1) { int e = src.range(0, 140); kit_begin(strf("errno %d", e)); nontrivial(true); label("system error"); errno = e; CHECK(neco_errconv_from_sys() == conv(e), "conv", "errno %d is converted to %d instead of %d", e, neco_errconv_from_sys(), conv(e)); errno = e; CHECK(neco_testcode(-1) == -1 && errno == e && neco_lasterr() == conv(e), "lasterr", "a result of -1 with errno %d gives the last error %d", e, neco_lasterr()); int c = conv(e); if (c != NECO_ERROR) { errno = 0; neco_errconv_to_sys(c); CHECK(errno == e, "conv", "%d is converted to errno %d instead of %d", c, errno, e); } errno = e; CHECK(!strcmp(neco_strerror(NECO_ERROR), strerror(e)), "message", "the message of errno %d is wrong", e);
    } else if (what == 2) { long c = (long)(int32_t)src.draw(0xffffffff); if (src.chance(50)) c = -(long)src.range(0, 20); kit_begin(strf("result %ld", c)); nontrivial(true); label("result"); errno = EIO; neco_testcode((int)c); CHECK(neco_lasterr() == (c == -1 ? NECO_ERROR : c < 0 ? c : 0), "lasterr", "after a result of %ld neco_lasterr() is %d", c, neco_lasterr()); neco_testcode(0); CHECK(neco_lasterr() == 0, "lasterr", "a success leaves neco_lasterr() at %d", neco_lasterr());
    } else { int e = src.range(0, 140); int c = -src.range(0, 18); kit_begin(strf("%d to errno, from %d", c, e)); nontrivial(true); label("to system error"); errno = e; neco_errconv_to_sys(c); int w = c == NECO_OK ? 0 : c == NECO_INVAL ? EINVAL : c == NECO_PERM ? EPERM : c == NECO_NOMEM ? ENOMEM : c == NECO_CANCELED ? ECANCELED : c == NECO_TIMEDOUT ? ETIMEDOUT : e; CHECK(errno == w, "conv", "%d is converted to errno %d instead of %d", c, errno, w); }
    pass();
}
static const struct { const char *n; long (*f)(); } OUT[] = {{"yield", [] { return (long)neco_yield(); }}, {"sleep", [] { return (long)neco_sleep(5); }}, {"getstats", [] { neco_stats st; return (long)neco_getstats(&st); }}, {"chan_make", [] { neco_chan *c; return (long)neco_chan_make(&c, 4, 1); }}, {"suspend", [] { return (long)neco_suspend(); }}, {"cancel", [] { return (long)neco_cancel(1); }}, {"join", [] { return (long)neco_join(1); }}, {"signal_watch", [] { return (long)neco_signal_watch(SIGUSR1); }}, {"rand", [] { return (long)neco_rand(B, 4, NECO_PRNG); }}, {"dial", [] { return (long)neco_dial("tcp", "127.0.0.1:1"); }}, {"stream_make", [] { neco_stream *x; return (long)neco_stream_make(&x, 0); }}, {"work", [] { return (long)neco_work(0, nopw, nullptr); }}};
static const struct { const char *n; long (*f)(); } MEM[] = {{"chan_make", [] { neco_chan *c = nullptr; return (long)neco_chan_make(&c, 4, 1); }}, {"stream_make_buffered", [] { neco_stream *x = nullptr; return (long)neco_stream_make_buffered(&x, 0); }}, {"start", [] { void *a[60] = {nullptr}; return (long)neco_startv(nop, 60, a); }}, {"selectv", [] { neco_chan *v[20]; for (auto &x : v) x = SS0; return (long)neco_chan_tryselectv(20, v); }}};
// runs f in a child process with its own stderr; returns the status and the output
static int inchild(void (*f)(), std::string *out) {
    int pp[2]; if (pipe(pp)) inconclusive("pipe"); pid_t pid = fork(); if (pid < 0) inconclusive("fork");
    if (!pid) { close(pp[0]); dup2(pp[1], 2); f(); _exit(9); }
    close(pp[1]); char b[512]; ssize_t k; while ((k = read(pp[0], b, sizeof b)) > 0) out->append(b, (size_t)k); close(pp[0]); int st; waitpid(pid, &st, 0); return st;
}
PROP(c23q, "always") { // panic on error: PERM and NOMEM
    static int o; static bool set, mem; mem = src.chance(30); set = src.chance(70); o = src.range(0, mem ? 3 : 11); kit_begin(strf("%s %s, panic on error %s", mem ? "no memory:" : "outside of a coroutine:", mem ? MEM[o].n : OUT[o].n, set ? "set" : "not set")); nontrivial(true); alloc_install(); std::string out; label(set ? "must panic" : "must not panic");
    int st = mem ? inchild([] { go([] { neco_chan_make(&SS0, 4, 1); neco_env_setpaniconerror(set); alloc_count = 0; alloc_fail_at = 1; long r = MEM[o].f(); _exit(r == NECO_NOMEM && neco_lasterr() == NECO_NOMEM ? 0 : 3); }); }, &out) : inchild([] { neco_env_setpaniconerror(set); long r = OUT[o].f(); _exit(r == NECO_PERM && neco_lasterr() == NECO_PERM ? 0 : 3); }, &out);
    if (set) { CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "panic", "no panic (status %x)", st); CHECK(out.find(std::string("panic: ") + strerror(mem ? ENOMEM : EPERM)) != std::string::npos, "panic", "the message of the panic is missing: %s", out.substr(0, 200).c_str()); }
    else CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "panic", "the call did not report %s (status %x)", mem ? "NOMEM" : "PERM", st);
    pass();
}
PROP(c23p, "the operation fails") { // panic on error
    int o = src.range(0, NOPS - 1); int nb = src.range(0, 3); std::vector<int> before; std::string t = "panic on error:"; for (int i = 0; i < nb; i++) { int b; do b = src.range(0, NOPS - 1); while (conv(OPS[b].err) <= NECO_INVAL || OPS[b].want == NECO_INVAL); before.push_back(b); t += strf(" %s;", OPS[b].n); } t += strf(" %s", OPS[o].n); kit_begin(t); nontrivial(OPS[o].want < 0); signal(SIGPIPE, SIG_IGN); vc_begin(1000, 6000000); alloc_install(); nlive = 1;
    bool expect = OPS[o].want == NECO_INVAL; label(expect ? "must panic" : "must not panic"); static std::vector<int> bf; bf = before; static int oo; oo = o; std::string out;
    int st = inchild([] { go([] { SS.emplace_back(); S &s = SS.back(); setup(s); neco_env_setpaniconerror(true); for (int b : bf) { if (strstr(OPS[b].n, "inside") || OPS[b].want == SHORT) continue; if (strstr(OPS[b].n, "canceled")) continue; OPS[b].f(s); } if (!strstr(OPS[oo].n, "canceled") && !strstr(OPS[oo].n, "inside") && OPS[oo].want != SHORT) OPS[oo].f(s); neco_env_setpaniconerror(false); _exit(0); }); }, &out);
    if (expect) { CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "panic", "%s did not panic although panic-on-error is set (status %x)", OPS[o].n, st); CHECK(out.find(std::string("panic: ") + strerror(EINVAL)) != std::string::npos, "panic", "the message of the panic is missing: %s", out.substr(0, 200).c_str()); }
    else CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "panic", "the program ended with status %x (%s)", st, out.substr(0, 200).c_str());
    pass();
}
