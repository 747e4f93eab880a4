// C20: dial and serve. Generated sets of servers (TCP over IPv4 and IPv6 on
// addresses of this process's own, Unix paths) each hand out an identity;
// generated dials, serves and resolutions with scripted names, slow lookups,
// full backlogs, injected failures, deadlines and cancelations must reach
// exactly the right one or fail with the right error, and leave nothing.
#include "kit.h"
#include <arpa/inet.h>
#include <atomic>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
extern long alloc_fail_len, alloc_failed; extern int64_t alloc_only;
extern "C" {
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **); void __real_freeaddrinfo(struct addrinfo *);
int __real_socket(int, int, int); int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int); int __real_fcntl(int, int, ...); int __real_connect(int, const struct sockaddr *, socklen_t); int __real_pipe(int *); int __real_accept(int, struct sockaddr *, socklen_t *); ssize_t __real_read(int, void *, size_t); int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
}
// ---- faults ----
enum { F_NONE, F_SOCKET, F_SETOPT, F_BIND, F_LISTEN, F_FCNTL, F_CONNECT, F_PIPE, F_THREAD, F_ALLOC, F_ACCEPT, NF };
static const char *FN[] = {"no fault", "socket", "setsockopt", "bind", "listen", "fcntl", "connect", "pipe", "pthread_create", "allocation", "accept"};
static int64_t f_co; static int f_kind, f_at, f_errno, f_hits, f_calls; static std::atomic<uint64_t> heart{0};
static bool hit(int k) { if (f_kind != k || neco_getid() != f_co) return false; if (++f_calls == f_at) { f_hits++; errno = f_errno; return true; } return false; }
extern "C" int __wrap_socket(int a, int b, int c) { return hit(F_SOCKET) ? -1 : __real_socket(a, b, c); }
extern "C" int __wrap_setsockopt(int a, int b, int c, const void *d, socklen_t e) { return hit(F_SETOPT) ? -1 : __real_setsockopt(a, b, c, d, e); }
static std::map<int64_t, std::vector<std::string>> tmpsocks; // by coroutine: paths bound by neco_pipe
extern "C" int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) { if (hit(F_BIND)) return -1; int r = __real_bind(a, b, c); if (!r && b->sa_family == AF_UNIX) { auto i = tmpsocks.find(neco_getid()); if (i != tmpsocks.end()) i->second.push_back(((const struct sockaddr_un *)b)->sun_path); } return r; }
extern "C" int __wrap_accept(int a, struct sockaddr *b, socklen_t *c) { return hit(F_ACCEPT) ? -1 : __real_accept(a, b, c); }
extern "C" int __wrap_listen(int a, int b) { return hit(F_LISTEN) ? -1 : __real_listen(a, b); }
extern "C" int __wrap_fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); return hit(F_FCNTL) ? -1 : __real_fcntl(fd, cmd, v); }
extern "C" int __wrap_connect(int a, const struct sockaddr *b, socklen_t c) { return hit(F_CONNECT) ? -1 : __real_connect(a, b, c); }
extern "C" int __wrap_pipe(int *a) { return hit(F_PIPE) ? -1 : __real_pipe(a); }
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *g) { if (hit(F_THREAD)) return f_errno; return __real_pthread_create(t, a, f, g); }
static int64_t rd_co; static bool rd_seen; // the coroutine whose reads are watched
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) { ssize_t r = __real_read(fd, b, n); if (r > 0 && rd_co && neco_getid() == rd_co) rd_seen = true; return r; }
static void arm(int k, int at, int e) { f_calls = f_hits = 0; f_kind = k; f_co = alloc_only = neco_getid(); f_at = at; f_errno = e; if (k == F_ALLOC) { alloc_count = 0; alloc_failed = 0; alloc_fail_len = 1; alloc_fail_at = at; } }
static int disarm() { int n = f_hits + (f_kind == F_ALLOC ? (int)alloc_failed : 0); f_kind = F_NONE; alloc_fail_at = -1; alloc_failed = 0; return n; }

// ---- addresses ----
static std::string ip(int k) { unsigned p = (unsigned)getpid(); return strf("127.%u.%u.%u", p >> 12 & 0xff, p >> 4 & 0xff, (p & 15) << 4 | (unsigned)k); } // k: 1..14; the process has these addresses for itself

// ---- scripted resolver ----
struct Name { std::vector<std::string> addrs; int err = 0, sysno = 0; int delay_ms = 0; };
static std::map<std::string, Name> names; static pthread_mutex_t gmu = PTHREAD_MUTEX_INITIALIZER; static std::set<struct addrinfo *> chains; static std::atomic<int> nlookups{0}; static std::atomic<bool> gerr{false}; static pid_t maintid;
static struct addrinfo *mkai(const std::string &a, int port, const struct addrinfo *h) {
    struct sockaddr_storage *ss = (struct sockaddr_storage *)calloc(1, sizeof *ss); struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof *ai); ai->ai_addr = (struct sockaddr *)ss; ai->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; ai->ai_protocol = h ? h->ai_protocol : 0;
    if (a.find(':') != std::string::npos) { struct sockaddr_in6 *s = (struct sockaddr_in6 *)ss; s->sin6_family = AF_INET6; s->sin6_port = htons((uint16_t)port); inet_pton(AF_INET6, a.c_str(), &s->sin6_addr); ai->ai_family = AF_INET6; ai->ai_addrlen = sizeof *s; }
    else { struct sockaddr_in *s = (struct sockaddr_in *)ss; s->sin_family = AF_INET; s->sin_port = htons((uint16_t)port); inet_pton(AF_INET, a.c_str(), &s->sin_addr); ai->ai_family = AF_INET; ai->ai_addrlen = sizeof *s; }
    return ai;
}
extern "C" int __wrap_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    heart++; struct in6_addr tmp; struct addrinfo *r = nullptr; std::vector<std::string> as; bool num = node && (inet_pton(AF_INET, node, &tmp) == 1 || inet_pton(AF_INET6, node, &tmp) == 1);
    if (!node) as = {h && h->ai_flags & AI_PASSIVE ? "0.0.0.0" : "127.0.0.1"};
    else if (num) as = {node};
    else {
        nlookups++; Name n; { auto i = names.find(node); if (i == names.end()) return EAI_NONAME; n = i->second; }
        if (n.delay_ms) usleep((useconds_t)n.delay_ms * 1000);
        heart++; if (n.err) { errno = n.sysno; return n.err; } as = n.addrs; if (as.empty()) { *res = nullptr; return 0; }
    }
    int port = 0; if (svc) { char *e; long v = strtol(svc, &e, 10); if (*svc && !*e) port = (int)(uint16_t)v; else if (!*svc) port = 0; else return EAI_SERVICE; }
    struct addrinfo **t = &r; for (auto &a : as) { bool six = a.find(':') != std::string::npos; if (h && h->ai_family == AF_INET && six) continue; if (h && h->ai_family == AF_INET6 && !six) continue; *t = mkai(a, port, h); t = &(*t)->ai_next; }
    if (!r) return num ? EAI_ADDRFAMILY : EAI_NODATA;
    pthread_mutex_lock(&gmu); chains.insert(r); pthread_mutex_unlock(&gmu); *res = r; return 0;
}
extern "C" void __wrap_freeaddrinfo(struct addrinfo *a) {
    if (!a) return; pthread_mutex_lock(&gmu); bool ok = chains.erase(a) == 1; pthread_mutex_unlock(&gmu); if (!ok) fail("gai", "freeaddrinfo was called for a result that is not there (freed twice?)");
    while (a) { struct addrinfo *n = a->ai_next; free(a->ai_addr); memset(a, 0xDD, sizeof *a); free(a); a = n; }
}
static int nchains() { pthread_mutex_lock(&gmu); int n = (int)chains.size(); pthread_mutex_unlock(&gmu); return n; }

// ---- servers ----
struct Srv { std::string net, host, addr; int fd = -1, port = 0; int64_t co = 0; bool open = false; bool closefirst = false; int ident; };
static std::deque<Srv> S; static std::deque<int> raw; static int naccepted; static std::string dir;
static void conn(int fd, int ident, bool closefirst) { int v = ident; __real_fcntl(fd, F_SETFL, O_NONBLOCK); if (write(fd, &v, sizeof v) != sizeof v) {} if (closefirst) { close(fd); return; } char b[64]; ssize_t n; while ((n = neco_read(fd, b, sizeof b)) > 0) if (write(fd, b, (size_t)n) != n) break; close(fd); }
static void accept_loop(Srv *s) { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); for (;;) { int fd = neco_accept(s->fd, nullptr, nullptr); heart++; if (fd < 0) { if (errno == ECANCELED) break; fail("accept", "neco_accept on a served descriptor failed with errno %d", errno); } naccepted++; int id = s->ident; bool cf = s->closefirst; go([fd, id, cf] { conn(fd, id, cf); }); } }
static void begin_accept(Srv *s) { go([s] { s->co = neco_getid(); accept_loop(s); }); }
static void end_srv(Srv &s) { if (!s.open) return; neco_cancel(s.co); neco_join(s.co); close(s.fd); s.open = false; if (s.net == "unix") unlink(s.addr.c_str()); }
static bool v6(const std::string &h) { return h.find(':') != std::string::npos; }
static void check_served(const Srv &s, int fd, const std::string &host) {
    int fl = __real_fcntl(fd, F_GETFL, 0L); CHECK(fl != -1 && fl & O_NONBLOCK, "descriptor", "the served descriptor is %s", fl == -1 ? "not open" : "not non-blocking");
    int v = 0; socklen_t n = sizeof v; getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &n); CHECK(v, "descriptor", "the served descriptor does not listen");
    struct sockaddr_storage ss; n = sizeof ss; memset(&ss, 0, sizeof ss); getsockname(fd, (struct sockaddr *)&ss, &n); char b[200];
    if (s.net == "unix") { CHECK(ss.ss_family == AF_UNIX && ((struct sockaddr_un *)&ss)->sun_path == s.addr, "address", "serving unix %s: the socket is bound to another path", s.addr.c_str()); return; }
    if (ss.ss_family == AF_INET6) inet_ntop(AF_INET6, &((struct sockaddr_in6 *)&ss)->sin6_addr, b, sizeof b); else inet_ntop(AF_INET, &((struct sockaddr_in *)&ss)->sin_addr, b, sizeof b);
    CHECK(host == b, "address", "serving %s %s: the socket is bound to %s", s.net.c_str(), s.addr.c_str(), b);
}
static int port_of(int fd) { struct sockaddr_storage ss; socklen_t n = sizeof ss; getsockname(fd, (struct sockaddr *)&ss, &n); return ntohs(ss.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&ss)->sin6_port : ((struct sockaddr_in *)&ss)->sin_port); }
static std::string hp(const std::string &h, int p, int form) { std::string s = v6(h) && form % 3 == 1 ? h : v6(h) || form % 3 == 2 ? "[" + h + "]" : h; return s + strf(":%d", p); }
// a bound TCP socket without listener (nowhere) or with a full backlog (stuck)
static int raw_sock(const std::string &h, bool stuck, int *port) {
    struct addrinfo hh; memset(&hh, 0, sizeof hh); struct addrinfo *ai = mkai(h, 0, &hh); int fd = __real_socket(ai->ai_family, SOCK_STREAM, 0); if (__real_bind(fd, ai->ai_addr, ai->ai_addrlen)) inconclusive("bind"); raw.push_back(fd); *port = port_of(fd); free(ai->ai_addr); free(ai);
    if (stuck) { __real_listen(fd, 0); ai = mkai(h, *port, &hh); for (int i = 0; i < 3; i++) { int c = __real_socket(ai->ai_family, SOCK_STREAM | SOCK_NONBLOCK, 0); (void)!__real_connect(c, ai->ai_addr, ai->ai_addrlen); raw.push_back(c); } free(ai->ai_addr); free(ai); }
    return fd;
}
// ---- operations ----
enum { O_DIAL, O_ELSEWHERE, O_NOWHERE, O_BADNET, O_BADADDR, O_BADPORT, O_RANGE, O_FAMILY, O_NAME, O_UNIXNONE, O_UNIXLONG, O_STUCK, O_SERVE, O_INUSE, O_RESERVE, O_RESOLVE, O_PIPE, NO };
static const char *ON[] = {"dial", "dial where nobody serves", "dial a port nobody listens on", "malformed network", "malformed address", "malformed port", "port out of range", "wrong family", "dial a name", "dial a missing path", "over-long path", "dial a full backlog", "serve", "serve an address in use", "close and serve again", "resolve", "pipe"};
struct Op { int o; int a, b, c; int fault, fat; int dl; int cancel, cwhen; }; // dl: 0 none 1 far 2 past 3 near; cancel: 0 none 1 inline 2 async
static std::vector<std::vector<Op>> batches; static int64_t ticks; static int ntrivial;
static const int BADERR[] = {EAI_NONAME, EAI_AGAIN, EAI_MEMORY, EAI_SYSTEM, 0};
static void talk(int fd, int ident, const char *what, bool cf) {
    int fl = __real_fcntl(fd, F_GETFL, 0L); CHECK(fl != -1 && fl & O_NONBLOCK, "descriptor", "%s returned a descriptor that is %s", what, fl == -1 ? "not open" : "not non-blocking");
    int v = -1; size_t got = 0; while (got < sizeof v) { ssize_t n = neco_read(fd, (char *)&v + got, sizeof v - got); CHECK(n > 0, "unusable", "%s succeeded but reading from the connection returned %zd (errno %d)", what, n, errno); got += (size_t)n; } heart++;
    CHECK(v == ident, "wrong-server", "%s reached server %d instead of %d", what, v, ident);
    if (!cf) { char b[6] = "hello", c[6] = {0}; ssize_t n = neco_write(fd, b, 5); CHECK(n == 5, "unusable", "writing to the connection returned %zd", n); got = 0; while (got < 5) { n = neco_read(fd, c + got, 5 - got); CHECK(n > 0, "unusable", "the echo was not received: %zd", n); got += (size_t)n; } CHECK(!memcmp(b, c, 5), "unusable", "the echo is damaged"); } else { char c; ssize_t n = neco_read(fd, &c, 1); CHECK(n == 0, "unusable", "no end of file after the server closed: %zd", n); }
    close(fd); heart++;
}
// result r with errno e: what was expected; want 0 = success
static void want_err(const Op &o, const char *what, int r, int e, int code, int en) {
    CHECK(r < 0, "accepted", "%s succeeded (%d)", what, r); CHECK(r == code, "error", "%s returned %d (%s, errno %d) instead of %d", what, r, neco_shortstrerror(r), e, code);
    if (code == NECO_ERROR && en) CHECK(e == en, "error", "%s failed with errno %d (%s) instead of %d (%s)", what, e, strerror(e), en, strerror(en)); (void)o;
}
struct Res { int r = 0, e = 0, le = 0, gl = 0; int64_t took = 0; bool ended = false, returned = false; bool canceled_before = false; };
static void call(const Op &o, bool serve, const std::string &net, const std::string &addr, Res &x, const char *nt = nullptr, const char *ad = nullptr) {
    const char *n = nt ? nt : net.c_str(), *a = ad ? ad : addr.c_str(); int64_t t0 = neco_now(); if (t0 <= 0) t0 = real_now(); int64_t dl = o.dl == 1 ? t0 + 3600 * NECO_SECOND : o.dl == 2 ? t0 - o.a * NECO_SECOND - 1 : o.dl == 3 ? t0 + 15 * NECO_MILLISECOND : INT64_MAX; errno = 0; int64_t r0 = real_now();
    if (o.fault) arm(o.fault, o.fat, o.fault == F_THREAD ? EAGAIN : o.fault == F_CONNECT ? ENETUNREACH : o.fault == F_BIND ? EACCES : EMFILE);
    int r; if (serve) r = o.dl ? neco_serve_dl(n, a, dl) : neco_serve(n, a); else r = o.dl ? neco_dial_dl(n, a, dl) : neco_dial(n, a);
    x.e = errno; x.r = r; x.le = neco_lasterr(); x.gl = neco_gai_lasterr(); x.took = real_now() - r0; x.returned = true; heart++;
    CHECK(r >= 0 ? x.le == NECO_OK : x.le == r, "lasterr", "%s returned %d but neco_lasterr() is %d", serve ? "neco_serve" : "neco_dial", r, x.le);
}
static std::string pathn(int i) { return dir + strf("/s%d", i); }
static void finish_faulted(const Op &o, const char *what, Res &x, bool mayok, int hits) {
    if (!hits) return; label("fault injected");
    if (x.r >= 0) { CHECK(mayok, "swallowed", "%s succeeded although %s failed", what, FN[o.fault]); return; }
    if (o.fault == F_ALLOC) CHECK(x.r == NECO_NOMEM, "error", "%s: a failed allocation is reported as %d", what, x.r);
    else CHECK(x.r == NECO_ERROR && x.e == f_errno, "error", "%s: %s failed with errno %d, reported as %d with errno %d", what, FN[o.fault], f_errno, x.r, x.e);
}
static Srv *pick_srv(int k, bool tcp = false) { std::vector<Srv *> v; for (auto &s : S) if (s.open && !(tcp && s.net == "unix")) v.push_back(&s); return v.empty() ? nullptr : v[(size_t)k % v.size()]; }
static bool conflict(int k, int port) { for (auto &s : S) if (s.open && s.net != "unix" && s.port == port && (s.host == ip(k) || s.host == "0.0.0.0" || s.host == "::")) return true; return false; }
static void do_dial(const Op &o, Srv *s, const std::string &net, const std::string &addr, const char *what, int en, int code) { // s: expected server or null with error code/errno
    Res x; call(o, false, net, addr, x); int hits = o.fault ? disarm() : 0; std::string w = strf("%s (%s %s)", what, net.c_str(), addr.c_str());
    if (hits) { finish_faulted(o, w.c_str(), x, false, hits); if (x.r < 0) { Op q = o; q.fault = 0; do_dial(q, s, net, addr, "the dial after a failed one", en, code); return; } }
    else if (o.dl == 2) { if (code == NECO_INVAL && x.r == NECO_INVAL) return; if (code == NECO_GAIERROR && x.r == NECO_GAIERROR) return; want_err(o, w.c_str(), x.r, x.e, NECO_TIMEDOUT, 0); label("deadline in the past"); return; }
    if (s) { CHECK(x.r >= 0, "failed", "%s returned %d (%s, errno %d, gai %d)", w.c_str(), x.r, neco_shortstrerror(x.r), x.e, x.gl); talk(x.r, s->ident, w.c_str(), s->closefirst); return; }
    want_err(o, w.c_str(), x.r, x.e, code, en);
}
static std::string name_for(Srv *s, int form) { // a scripted name whose address list leads to s
    return s->host == ip(1) ? (form & 1 ? "one.test" : "slow.test") : s->host == "::1" ? "six.test" : "";
}
static void stop_tick(const Op &o, Res &x, const std::string &w, bool blocked) {
    if (o.cancel == 2) { CHECK(!x.returned || !blocked, "async", "%s returned %d although its coroutine was async-canceled while it was blocked", w.c_str(), x.r); return; }
    if (o.cancel == 1) { if (blocked) { CHECK(x.returned, "hang", "%s did not return", w.c_str()); CHECK(x.r == NECO_CANCELED, "cancel", "%s was canceled but returned %d (%s, errno %d)", w.c_str(), x.r, neco_shortstrerror(x.r), x.e); } return; }
    CHECK(x.r == NECO_TIMEDOUT, "deadline", "%s with a deadline of 15 ms returned %d (%s, errno %d) after %lld us", w.c_str(), x.r, neco_shortstrerror(x.r), x.e, (long long)x.took / 1000); CHECK(x.took >= 13 * NECO_MILLISECOND, "deadline", "%s with a deadline of 15 ms timed out after %lld us", w.c_str(), (long long)x.took / 1000);
}
// a dial or serve run in its own coroutine, interrupted by a deadline or a cancelation
static void interrupted(const Op &o, bool serve, const std::string &net, const std::string &addr, bool blocked, Srv *s) {
    auto x = std::make_shared<Res>(); auto idp = std::make_shared<int64_t>(0); std::string w = strf("%s %s %s", serve ? "serving" : "dialing", net.c_str(), addr.c_str()); Op q = o; if (!q.cancel) q.dl = 3; else q.dl = q.dl == 2 ? 0 : q.dl; if (q.cancel && q.dl == 3) q.dl = 1; q.fault = 0;
    auto pend = std::make_shared<bool>(false); auto ended = std::make_shared<bool>(false);
    go([=] { *idp = neco_getid(); neco_setcanceltype(q.cancel == 2 ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, nullptr); static auto note = [](void *p) { *(bool *)p = true; }; neco_cleanup_push(+[](void *p) { *(bool *)p = true; }, ended.get());
        call(q, serve, net, addr, *x); if (x->r >= 0) close(x->r);
        if (q.cancel == 1 && *pend && x->r != NECO_CANCELED) { int r = neco_sleep(1); CHECK(r == NECO_CANCELED, "lost-cancel", "%s was canceled but returned %d, and the next operation returned %d", w.c_str(), x->r, r); }
        neco_cleanup_pop(1); (void)note; });
    if (q.cancel && q.cwhen >= 16) { rd_seen = false; rd_co = *idp; int64_t lim = real_now() + 80000000; while (!rd_seen && !*ended && real_now() < lim) { neco_yield(); } if (rd_seen) { label("canceled when the lookup is done"); blocked = false; } rd_co = 0; q.cwhen -= 16; if (q.cwhen > 3) q.cwhen = 0; }
    if (q.cancel) { int64_t until = real_now() + q.cwhen * 400000; for (int i = 0; i < q.cwhen; i++) neco_yield(); while (q.cwhen > 3 && real_now() < until) { neco_sleep(50000); heart++; } if (!*ended && !x->returned) { *pend = true; int r = neco_cancel(*idp); CHECK(r == NECO_OK || r == NECO_NOTFOUND, "cancel", "neco_cancel returned %d", r); label(q.cancel == 2 ? "async-canceled" : "canceled"); } }
    int64_t end = real_now() + 6000000000; while (!*ended) { neco_sleep(100000); heart++; if (real_now() > end) fail("hang", "%s was %s but did not end", w.c_str(), q.cancel ? "canceled" : "given a deadline"); }
    if (q.cancel && !*pend) { return; } stop_tick(q, *x, w, blocked); ntrivial++; (void)s;
}
static int nthop;
static void run_op(const Op &o) {
    heart++; int fd0 = count_fds(); (void)fd0; const char *what = ON[o.o]; tr("%s", what);
    switch (o.o) {
    case O_DIAL: { Srv *s = pick_srv(o.a); if (!s) break; std::string net = s->net, addr = s->net == "unix" ? s->addr : ""; if (net != "unix") { std::string h = s->host == "0.0.0.0" ? ip(1 + o.b % 12) : s->host == "::" ? "::1" : s->host; net = v6(h) ? (o.c & 1 ? "tcp6" : "tcp") : (o.c & 1 ? "tcp4" : "tcp"); if (s->host == "::" ) net = "tcp6"; addr = s->host == "0.0.0.0" && o.c % 5 == 4 ? strf(":%d", s->port) : hp(h, s->port, o.b); if (s->host == "0.0.0.0" && conflict(1 + o.b % 12, s->port)) { bool other = false; for (auto &q : S) if (&q != s && q.open && q.port == s->port && q.net != "unix") other = true; if (other) break; } }
        if (o.cancel && !o.fault && o.dl != 2) { interrupted(o, false, net, addr, false, s); break; }
        Op q = o; if (q.dl == 3) q.dl = 1; q.cancel = 0; if (o.fault && o.fault != F_SOCKET && o.fault != F_FCNTL && o.fault != F_CONNECT && o.fault != F_ALLOC) q.fault = 0; do_dial(q, s, net, addr, what, 0, 0); ntrivial++; break; }
    case O_ELSEWHERE: { Srv *s = pick_srv(o.a, true); if (!s) break; int k = 1 + o.b % 12; if (conflict(k, s->port)) break; std::string h = ip(k); Op q = o; q.fault = 0; if (q.dl == 3) q.dl = 1; do_dial(q, nullptr, o.c & 1 ? "tcp4" : "tcp", hp(h, s->port, o.b), what, ECONNREFUSED, NECO_ERROR); ntrivial++; break; }
    case O_NOWHERE: { int p; std::string h = o.a % 3 == 2 ? "::1" : ip(1 + o.a % 12); raw_sock(h, false, &p); Op q = o; q.fault = 0; if (q.dl == 3) q.dl = 1; do_dial(q, nullptr, "tcp", hp(h, p, o.b), what, ECONNREFUSED, NECO_ERROR); ntrivial++; break; }
    case O_BADNET: { static const char *bad[] = {"", "TCP", "tcp5", "udp", "tcp ", "unixgram", "tcp44", "t", nullptr}; const char *n = bad[o.a % 9]; Srv *s = pick_srv(o.b); std::string ad = s ? s->net == "unix" ? s->addr : hp(s->host, s->port, 0) : "127.0.0.1:1"; Res x; Op q = o; q.fault = 0; q.dl = o.dl == 1 ? 1 : 0; call(q, o.c & 1, "", ad, x, n ? n : (const char *)nullptr, ad.c_str());
        if (!n) { errno = 0; x.r = o.c & 1 ? neco_serve(nullptr, ad.c_str()) : neco_dial(nullptr, ad.c_str()); } want_err(o, strf("%s with network \"%s\"", o.c & 1 ? "serve" : "dial", n ? n : "(null)").c_str(), x.r, x.e, NECO_INVAL, 0); break; }
    case O_BADADDR: if (o.b % 2) { Srv *s = pick_srv(o.a, true); std::string h = s && s->host != "0.0.0.0" && s->host != "::" ? s->host : ip(1); std::string hh = o.b % 6 == 1 ? "[" + h : o.b % 6 == 3 ? h + "]" : "[[" + h + "]]"; std::string a = hh + strf(":%d", s ? s->port : 1); Res x; Op q = o; q.fault = 0; q.dl = 0; bool sv = o.c % 3 == 2; call(q, sv, "tcp", a, x); CHECK(x.r < 0, "accepted", "%s tcp %s succeeded", sv ? "serving" : "dialing", a.c_str()); label("unbalanced brackets"); break; } else { static const char *bad[] = {"", "localhost", "127.0.0.1", "80", "one.test", "[::1]", nullptr}; const char *a = bad[o.a % 7]; static const char *nets[] = {"tcp", "tcp4", "tcp6"}; const char *n = nets[o.b % 3]; Res x; Op q = o; q.fault = 0; q.dl = 0; errno = 0; if (a && !strcmp(a, "[::1]")) { call(q, o.c & 1, n, a, x); if (!strcmp(n, "tcp")) { CHECK(x.r < 0, "accepted", "%s [::1] without a port succeeded", n); } else CHECK(x.r < 0, "accepted", "%s [::1] without a port succeeded", n); break; }
        if (a) call(q, o.c & 1, n, a, x); else x.r = o.c & 1 ? neco_serve(n, nullptr) : neco_dial(n, nullptr); want_err(o, strf("%s %s \"%s\"", o.c & 1 ? "serving" : "dialing", n, a ? a : "(null)").c_str(), x.r, x.e, NECO_INVAL, 0); break; }
    case O_BADPORT: { static const char *bad[] = {"nosuchservice", "80x", "x80", "8 0", "-"}; std::string a = ip(1) + ":" + bad[o.a % 5]; if (o.b % 3 == 1) a = std::string("one.test:") + bad[o.a % 5]; Res x; Op q = o; q.fault = 0; q.dl = 0; call(q, o.c & 1, "tcp", a, x); std::string w = strf("%s tcp %s", o.c & 1 ? "serving" : "dialing", a.c_str()); want_err(o, w.c_str(), x.r, x.e, NECO_GAIERROR, 0); CHECK(x.gl == EAI_SERVICE, "error", "%s: neco_gai_lasterr() is %d instead of EAI_SERVICE", w.c_str(), x.gl); break; }
    case O_RANGE: { Srv *s = pick_srv(o.a, true); if (!s || s->net == "unix") break; static const int64_t add[] = {65536, -65536, 131072, INT64_C(4294967296)}; std::string h = s->host == "0.0.0.0" ? ip(1) : s->host == "::" ? "::1" : s->host; if (o.b % 5 == 4 && s->host == ip(1)) h = "one.test"; std::string a = hp(h, 0, o.c); a.pop_back(); bool ex = o.b % 7 == 6; a += strf("%lld", ex ? (long long)(o.c & 1 ? 65536 : -1) : (long long)s->port + add[o.b % 4]); bool sv = ex && o.c & 2; Res x; Op q = o; q.fault = 0; q.dl = 0; call(q, sv, "tcp", a, x); if (ex) { want_err(o, strf("%s tcp %s", sv ? "serving" : "dialing", a.c_str()).c_str(), x.r, x.e, NECO_INVAL, 0); label("port 65536 or -1"); break; } CHECK(x.r < 0, "accepted", "dialing tcp %s (port out of range) succeeded", a.c_str()); ntrivial++; break; }
    case O_FAMILY: { bool six = o.a & 1; Res x; Op q = o; q.fault = 0; q.dl = 0; std::string a = six ? "[::1]:80" : ip(1) + ":80"; if (o.b % 3 == 2) { a = six ? "six.test:80" : "one.test:80"; } call(q, o.c & 1, six ? "tcp4" : "tcp6", a, x); std::string w = strf("%s %s %s", o.c & 1 ? "serving" : "dialing", six ? "tcp4" : "tcp6", a.c_str()); want_err(o, w.c_str(), x.r, x.e, NECO_GAIERROR, 0); CHECK(x.gl == EAI_ADDRFAMILY || x.gl == EAI_NODATA, "error", "%s: neco_gai_lasterr() is %d", w.c_str(), x.gl); break; }
    case O_NAME: { // names: errors, several addresses, slow ones
        int k = o.a % 10; static const char *en[] = {"none.test", "again.test", "mem.test", "sys.test", "empty.test"};
        if (k < 5) { bool slow = o.b % 4 == 3; if (slow && o.dl != 2 && (o.cancel || o.dl == 3)) { interrupted(o, o.c & 1, "tcp", "slownone.test:80", true, nullptr); break; } Res x; Op q = o; q.fault = 0; if (q.dl == 3) q.dl = 1; call(q, o.c & 1, "tcp", std::string(en[k]) + ":80", x); std::string w = strf("%s tcp %s:80", o.c & 1 ? "serving" : "dialing", en[k]); ntrivial++;
            if (q.dl == 2) { want_err(o, w.c_str(), x.r, x.e, NECO_TIMEDOUT, 0); break; }
            switch (k) { case 0: want_err(o, w.c_str(), x.r, x.e, NECO_GAIERROR, 0); CHECK(x.gl == EAI_NONAME, "error", "%s: neco_gai_lasterr() is %d", w.c_str(), x.gl); break; case 1: want_err(o, w.c_str(), x.r, x.e, NECO_GAIERROR, 0); CHECK(x.gl == EAI_AGAIN, "error", "%s: neco_gai_lasterr() is %d", w.c_str(), x.gl); break; case 2: want_err(o, w.c_str(), x.r, x.e, NECO_NOMEM, 0); break; case 3: want_err(o, w.c_str(), x.r, x.e, NECO_ERROR, EIO); break; case 4: want_err(o, w.c_str(), x.r, x.e, NECO_GAIERROR, 0); break; } break; }
        if (k < 8) { Srv *s = pick_srv(o.b, true); if (!s) break; std::string n = name_for(s, o.c); if (n.empty()) break; std::string addr = strf("%s:%d", n.c_str(), s->port); int64_t t0 = ticks;
            if (o.cancel && !o.fault && o.dl != 2) { interrupted(o, false, "tcp", addr, false, s); break; } if (n == "slow.test" && o.dl == 3) { interrupted(o, false, "tcp", addr, true, s); break; }
            Op q = o; if (q.dl == 3) q.dl = 1; q.cancel = 0; if (q.fault == F_BIND || q.fault == F_LISTEN || q.fault == F_SETOPT) q.fault = 0; do_dial(q, s, "tcp", addr, "dialing a name", 0, 0); ntrivial++; if (n == "slow.test" && q.dl != 2) { CHECK(ticks > t0, "blocking", "no other coroutine ran while a slow name was looked up"); label("slow lookup"); } break; }
        if (k == 8 && o.b % 3 == 0) { Srv *s = nullptr; bool six = false; for (auto &q : S) { if (q.open && q.net != "unix" && q.host == ip(1)) s = &q; } if (s) for (auto &q : S) if (q.open && v6(q.host) && q.port == s->port) six = true; if (s && !six) { int b = __real_socket(AF_INET6, SOCK_STREAM, 0); struct sockaddr_in6 a6; memset(&a6, 0, sizeof a6); a6.sin6_family = AF_INET6; a6.sin6_addr = in6addr_loopback; a6.sin6_port = htons((uint16_t)s->port); if (__real_bind(b, (struct sockaddr *)&a6, sizeof a6)) { close(b); break; } Op q = o; if (q.dl == 3) q.dl = 1; q.cancel = 0; q.fault = 0; do_dial(q, s, "tcp", strf("%s:%d", o.c & 1 ? "both.test" : "both2.test", s->port), "dialing a name with addresses of both families", 0, 0); close(b); ntrivial++; label("both families"); break; } }
        // several addresses: first refuses or is stuck, then the server's
        { Srv *s = nullptr; for (auto &q : S) if (q.open && q.net != "unix" && q.host == ip(2)) s = &q; if (!s || conflict(13, s->port) || conflict(14, s->port)) break; struct addrinfo hh; memset(&hh, 0, sizeof hh);
          if (k == 8 && o.fault) { static const int er[] = {ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, EADDRNOTAVAIL, EACCES, ECONNRESET, ENETDOWN}, es[] = {EAFNOSUPPORT, EPROTONOSUPPORT}; Op q = o; q.fault = 0; if (q.dl != 1) q.dl = 0; bool sk = o.fault == F_SOCKET; arm(sk ? F_SOCKET : F_CONNECT, 1, sk ? es[o.c % 2] : er[o.c % 7]); int fe = f_errno; Res x; call(q, false, "tcp", strf("multi.test:%d", s->port), x); disarm(); CHECK(x.r >= 0, "failed", "dialing a name with several addresses of which the first fails (%s, errno %d) returned %d (%s, errno %d)", sk ? "socket" : "connect", fe, x.r, neco_shortstrerror(x.r), x.e); talk(x.r, s->ident, "dialing a name whose first address fails", s->closefirst); ntrivial++; label("first of several addresses fails"); break; }
          if (k == 8) { Op q = o; if (q.dl == 3) q.dl = 1; q.cancel = 0; q.fault = 0; do_dial(q, s, "tcp", strf("multi.test:%d", s->port), "dialing a name with several addresses", 0, 0); ntrivial++; label("several addresses"); break; }
          struct addrinfo *ai = mkai(ip(14), s->port, &hh); int fd = __real_socket(AF_INET, SOCK_STREAM, 0); int one = 1; __real_setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (__real_bind(fd, ai->ai_addr, ai->ai_addrlen)) { close(fd); free(ai->ai_addr); free(ai); break; } __real_listen(fd, 0); std::vector<int> cs; for (int i = 0; i < 3; i++) { int c = __real_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); (void)!__real_connect(c, ai->ai_addr, ai->ai_addrlen); cs.push_back(c); } free(ai->ai_addr); free(ai);
          Op q = o; q.fault = 0; q.cwhen = 8 + o.cwhen % 8; if (q.dl == 2) q.dl = 0; interrupted(q, false, "tcp", strf("stuck.test:%d", s->port), true, s); label("first of several addresses is stuck"); for (int c : cs) close(c); close(fd); break; } }
    case O_UNIXNONE: { std::string p = dir + strf("/none%d", o.a % 3); if (o.b & 1) { p = dir + strf("/stale%d", nthop++); struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; strncpy(u.sun_path, p.c_str(), sizeof u.sun_path - 1); int fd = __real_socket(AF_UNIX, SOCK_STREAM, 0); if (__real_bind(fd, (struct sockaddr *)&u, sizeof u)) inconclusive("bind"); if (o.b & 2) { __real_listen(fd, 1); } close(fd); } Op q = o; q.fault = 0; if (q.dl == 3) q.dl = 1; do_dial(q, nullptr, "unix", p, what, o.b & 1 ? ECONNREFUSED : ENOENT, NECO_ERROR); ntrivial++; break; }
    case O_UNIXLONG: { static const int len[] = {106, 107, 108, 109, 110, 200, 5000}; int L = len[o.a % 7]; std::string p = dir + "/"; int u = nthop++; std::string tail = strf("%d", u); while ((int)(p.size() + tail.size()) < L) p += 'p'; p += tail; Op q = o; q.fault = 0; q.dl = 0; ntrivial++;
        if (L > 107) { Res x; call(q, o.c & 1, "unix", p, x); want_err(o, strf("%s a path of %d characters", o.c & 1 ? "serving" : "dialing", L).c_str(), x.r, x.e, NECO_INVAL, 0); struct stat st; CHECK(stat(p.substr(0, 107).c_str(), &st) != 0 && stat(p.substr(0, 108).c_str(), &st) != 0, "effect", "a refused path left a file"); break; }
        Res x; call(q, true, "unix", p, x); CHECK(x.r >= 0, "failed", "serving a path of %d characters returned %d (errno %d)", L, x.r, x.e); Srv s; s.net = "unix"; s.addr = p; check_served(s, x.r, ""); int sfd = x.r; struct stat st; CHECK(stat(p.c_str(), &st) == 0 && S_ISSOCK(st.st_mode), "effect", "the served path does not exist"); Res y; call(q, false, "unix", p, y); CHECK(y.r >= 0, "failed", "dialing a path of %d characters returned %d (errno %d)", L, y.r, y.e); int c = accept(sfd, nullptr, nullptr); CHECK(c >= 0, "wrong-server", "the dial did not reach the server"); close(c); close(y.r); close(sfd); unlink(p.c_str()); break; }
    case O_STUCK: { int p; std::string h = o.a % 4 == 3 ? "::1" : ip(1 + o.a % 12); size_t n0 = raw.size(); raw_sock(h, true, &p); Op q = o; q.fault = 0; q.cwhen = 5 + o.cwhen % 8; interrupted(q, false, o.c & 1 ? (v6(h) ? "tcp6" : "tcp4") : "tcp", hp(h, p, o.b), true, nullptr); while (raw.size() > n0) { close(raw.back()); raw.pop_back(); } label("full backlog"); break; }
    case O_SERVE: { Srv s; s.ident = 100 + (int)S.size(); s.closefirst = o.c % 3 == 0; int k = o.a % 11; std::string bound; Op q = o; q.cancel = 0; if (q.dl == 3) q.dl = 1; if (q.fault == F_CONNECT) q.fault = 0;
        if (k < 5) { s.host = ip(1 + k % 4); Srv *o2 = pick_srv(o.b, true); int port = o2 && o.c & 1 && !conflict(1 + k % 4, o2->port) && o2->host != "0.0.0.0" && !v6(o2->host) ? o2->port : o.b % 4 == 3 && !conflict(1 + k % 4, 65535) && !conflict(1, 65535) ? 65535 : 0; s.net = o.c & 2 ? "tcp4" : "tcp"; s.addr = hp(s.host, port, o.b); bound = s.host; if (k == 4) { s.host = ip(1); if (port && conflict(1, port)) break; s.addr = strf("%s:%d", "one.test", port); bound = s.host; } if (port == 65535) label("port 65535"); else if (port) label("same port on another address"); }
        else if (k < 7) { s.host = "::1"; s.net = o.c & 2 ? "tcp6" : "tcp"; s.addr = hp("::1", 0, o.b); bound = "::1"; if (k == 6) s.addr = "six.test:0"; }
        else if (k == 7) { s.host = o.c & 2 ? "::" : "0.0.0.0"; s.net = o.c & 2 ? "tcp6" : o.c & 4 ? "tcp4" : "tcp"; s.addr = o.b % 3 ? ":0" : o.b % 2 ? "[]:0" : ":"; bound = s.host; }
        else { s.net = "unix"; s.addr = pathn(nthop++); if (q.fault == F_PIPE || q.fault == F_THREAD || q.fault == F_ALLOC || q.fault == F_SETOPT) q.fault = 0; }
        Res x; call(q, true, s.net, s.addr, x); int hits = q.fault ? disarm() : 0; std::string w = strf("serving %s %s", s.net.c_str(), s.addr.c_str()); if (hits) finish_faulted(q, w.c_str(), x, false, hits); else if (q.dl == 2) { if (s.net == "unix" && x.r >= 0) { close(x.r); unlink(s.addr.c_str()); break; } want_err(o, w.c_str(), x.r, x.e, NECO_TIMEDOUT, 0); }
        if (x.r < 0 && s.net == "unix") { struct stat sb; CHECK(lstat(s.addr.c_str(), &sb) != 0, "file", "%s failed and left a socket file behind", w.c_str()); }
        if (x.r < 0 && (hits || q.dl == 2)) { q.fault = 0; q.dl = 0; call(q, true, s.net, s.addr, x); }
        if (x.r == NECO_ERROR && x.e == EADDRINUSE && v6(s.host)) { label("port taken by another process"); break; }
        CHECK(x.r >= 0, "failed", "%s returned %d (%s, errno %d, gai %d)", w.c_str(), x.r, neco_shortstrerror(x.r), x.e, x.gl); s.fd = x.r; check_served(s, s.fd, bound); if (s.net != "unix") s.port = port_of(s.fd); s.open = true; S.push_back(s); begin_accept(&S.back()); ntrivial++; break; }
    case O_INUSE: { Srv *s = pick_srv(o.a); if (!s || s->host == "0.0.0.0" || s->host == "::") break; Op q = o; q.fault = 0; q.dl = 0; std::string a = s->net == "unix" ? s->addr : hp(s->host, s->port, o.b); Res x; call(q, true, s->net, a, x); want_err(o, strf("serving %s %s, which is in use,", s->net.c_str(), a.c_str()).c_str(), x.r, x.e, NECO_ERROR, EADDRINUSE); do_dial(q, s, s->net, a, "dialing a server after somebody else tried to serve its address", 0, 0); ntrivial++; break; }
    case O_RESERVE: { Srv *s = pick_srv(o.a); if (!s) break; std::string a = s->net == "unix" ? s->addr : s->host == "0.0.0.0" || s->host == "::" ? strf(":%d", s->port) : hp(s->host, s->port, o.b); std::string bound = s->host; if (s->host == "0.0.0.0" || s->host == "::") break; Op q = o; q.fault = 0; q.dl = o.dl == 1 ? 1 : 0;
        if (o.c & 1) { Res d; call(q, false, s->net, a, d); CHECK(d.r >= 0, "failed", "dialing %s %s returned %d", s->net.c_str(), a.c_str(), d.r); talk(d.r, s->ident, "dial", s->closefirst); }
        std::string net = s->net; end_srv(*s); for (int i = 0; i < o.b % 4; i++) neco_yield(); Res x; call(q, true, net, a, x); if (x.r < 0 && x.e == EADDRINUSE && v6(s->host)) { label("port taken by another process"); break; } CHECK(x.r >= 0, "reuse", "serving %s %s again right after it was closed returned %d (%s, errno %d)", net.c_str(), a.c_str(), x.r, neco_shortstrerror(x.r), x.e);
        Srv n; n.net = net; n.host = bound; n.addr = s->addr; n.port = s->port; n.fd = x.r; n.ident = 100 + (int)S.size(); n.closefirst = s->closefirst; n.open = true; check_served(n, n.fd, bound); S.push_back(n); begin_accept(&S.back()); do_dial(q, &S.back(), net, a, "dialing the server that took over an address", 0, 0); ntrivial++; label("served again"); break; }
    case O_RESOLVE: { struct addrinfo h; memset(&h, 0, sizeof h); h.ai_socktype = SOCK_STREAM; h.ai_family = o.a % 3 == 1 ? AF_INET : o.a % 3 == 2 ? AF_INET6 : 0; static const char *nm[] = {"multi.test", "one.test", "both.test", "none.test", "sys.test", "empty.test", "127.0.0.1", "::1", nullptr}; const char *n = nm[o.b % 9]; const char *svc = o.c % 4 == 3 ? nullptr : o.c % 4 == 2 ? "badsvc" : "4321"; bool hh = o.c % 5 != 4; if (!n) h.ai_flags = o.c & 1 ? AI_PASSIVE : 0;
        struct addrinfo *want = nullptr, *got = nullptr; int64_t dl = o.dl == 2 ? 1 : INT64_MAX; Op q = o; if (q.fault != F_PIPE && q.fault != F_THREAD && q.fault != F_ALLOC && q.fault != F_FCNTL) q.fault = 0; if (q.dl == 2) q.fault = 0; if (q.fault) arm(q.fault, q.fat, q.fault == F_THREAD ? EAGAIN : EMFILE); int fe = f_errno; errno = 0; int r = q.dl == 2 ? neco_getaddrinfo_dl(n, svc, hh ? &h : nullptr, &got, dl) : neco_getaddrinfo(n, svc, hh ? &h : nullptr, &got); int e = errno, le = neco_lasterr(), hits = q.fault ? disarm() : 0; std::string w = strf("neco_getaddrinfo(%s, %s)", n ? n : "(null)", svc ? svc : "(null)"); ntrivial++;
        if (hits) { if (q.fault == F_ALLOC) CHECK(r == EAI_MEMORY, "error", "%s returned %d when an allocation failed", w.c_str(), r); else CHECK(r == EAI_SYSTEM && e == fe, "error", "%s returned %d errno %d when %s failed", w.c_str(), r, e, FN[q.fault]); break; }
        if (q.dl == 2) { CHECK(r == EAI_SYSTEM && e == ETIMEDOUT && le == NECO_TIMEDOUT, "deadline", "%s with a deadline in the past returned %d errno %d, neco_lasterr() %d", w.c_str(), r, e, le); break; }
        errno = 0; int r2 = __wrap_getaddrinfo(n, svc, hh ? &h : nullptr, &want); int e2 = errno; CHECK(r == r2 && (r != EAI_SYSTEM || e == e2), "resolve", "%s returned %d (errno %d) instead of %d (errno %d)", w.c_str(), r, e, r2, e2); CHECK(r ? le < 0 : le == 0, "lasterr", "%s returned %d but neco_lasterr() is %d", w.c_str(), r, le);
        if (!r) { struct addrinfo *x = got, *y = want; for (; x && y; x = x->ai_next, y = y->ai_next) CHECK(x->ai_family == y->ai_family && x->ai_socktype == y->ai_socktype && x->ai_addrlen == y->ai_addrlen && !memcmp(x->ai_addr, y->ai_addr, x->ai_addrlen), "resolve", "%s gave another address", w.c_str()); CHECK(!x && !y, "resolve", "%s gave another number of addresses", w.c_str()); if (got) freeaddrinfo(got); if (want) freeaddrinfo(want); } break; }
    case O_PIPE: { // a pair of connected descriptors
        int p[2] = {-7, -8}, ty = o.a & 1 ? NECO_CANCEL_INLINE : NECO_CANCEL_ASYNC, st = o.a & 2 ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE, t0, s0, t1 = -9, s1 = -9; neco_setcanceltype(ty, &t0); bool pend = !o.fault && o.b % 4 == 3 && ty == NECO_CANCEL_INLINE && st == NECO_CANCEL_ENABLE; if (pend) neco_cancel(neco_getid()); neco_setcancelstate(st, &s0); ntrivial++;
        if (o.fault) arm(o.fault == F_CONNECT || o.fault == F_PIPE || o.fault == F_THREAD || o.fault == F_SETOPT ? F_ACCEPT : o.fault, o.fat, o.fault == F_BIND ? EACCES : EMFILE); int64_t me = neco_getid(); tmpsocks[me].clear(); int kind = f_kind, fe = kind == F_ALLOC ? ENOMEM : f_errno; errno = 0; int r = neco_pipe(p), e = errno, le = neco_lasterr(); int hits = o.fault ? disarm() : 0; std::vector<std::string> socks = tmpsocks[me]; tmpsocks.erase(me); heart++;
        neco_setcancelstate(s0, &s1); neco_setcanceltype(t0, &t1); CHECK(s1 == st, "state", "neco_pipe changed the cancel state from %d to %d", st, s1); CHECK(t1 == ty, "state", "neco_pipe changed the cancel type from %d to %d", ty, t1);
        CHECK(r == 0 || r == -1, "error", "neco_pipe returned %d", r); if (r) CHECK(p[0] == -7 && p[1] == -8, "effect", "a failed neco_pipe changed its argument"); if (pend && r == -1 && e == ECANCELED) { label("pipe, canceled"); pend = false; }
        else if (hits) { CHECK(r == -1, "swallowed", "neco_pipe succeeded although %s failed", FN[kind]); CHECK(e == fe, "error", "neco_pipe failed with errno %d instead of %d after %s failed", e, fe, FN[kind]); label("pipe, fault injected"); }
        else { CHECK(r == 0 && le == NECO_OK, "failed", "neco_pipe failed: errno %d (%s), neco_lasterr() %d", e, strerror(e), le); int x[2]; for (int i = 0; i < 2; i++) { int fl = __real_fcntl(p[i], F_GETFL, 0L); CHECK(fl != -1 && fl & O_NONBLOCK, "descriptor", "end %d of the pipe is %s", i, fl == -1 ? "not open" : "not non-blocking"); } CHECK(p[0] != p[1], "descriptor", "both ends of the pipe are the same");
            if (pend) { int q = neco_sleep(1); CHECK(q == NECO_CANCELED, "lost-cancel", "a pending cancelation was lost in neco_pipe"); }
            for (int i = 0; i < 2; i++) { ssize_t n = __real_read(p[i], x, 4); CHECK(n == -1 && errno == EAGAIN, "pipe", "a new pipe is not empty: %zd", n); } for (int i = 0; i < 2; i++) { x[0] = 77 + i + o.c; ssize_t n = neco_write(p[i], x, 4); CHECK(n == 4, "pipe", "write to end %d returned %zd (errno %d)", i, n, errno); } for (int i = 0; i < 2; i++) { ssize_t n = neco_read(p[i], x, 8); CHECK(n == 4 && x[0] == 77 + 1 - i + o.c, "pipe", "end %d received %zd bytes, %d", i, n, x[0]); }
            int k = o.c & 1; close(p[k]); ssize_t n = neco_read(p[1 - k], x, 8); CHECK(n == 0, "pipe", "no end of file after the other end was closed: %zd", n); close(p[1 - k]); }
        for (auto &k : socks) { struct stat sb; CHECK(lstat(k.c_str(), &sb) != 0, "file", "neco_pipe left a file behind"); }
        break; }
    }
}
static void *watchdog(void *) { uint64_t last = ~0ull; int same = 0; for (;;) { usleep(50000); uint64_t h = heart; if (h != last) { last = h; same = 0; } else if (++same > 200) fail("hang", "no progress for 10 s"); } }
static std::string show(const Op &o) { std::string t = ON[o.o]; t += strf(" [%d,%d,%d]", o.a, o.b, o.c); if (o.fault) t += strf(" while call %d of %s fails", o.fat, FN[o.fault]); if (o.dl) t += o.dl == 1 ? " deadline in an hour" : o.dl == 2 ? " deadline in the past" : " deadline in 15 ms"; if (o.cancel) t += strf(" %scanceled after %d", o.cancel == 2 ? "async-" : "", o.cwhen); return t; }
PROP(c20, "at least 3 operations that got past argument checking, one of them against a live server") {
    bool close0 = src.chance(20); int nb = src.range(1, 8), nsrv = src.range(0, 5); batches.clear(); std::string t = close0 ? "descriptor 0 is closed\n" : "";
    auto gen = [&](bool par, int forced) { Op o; o.o = forced >= 0 ? forced : src.weighted({22, 8, 5, 3, 3, 3, 6, 4, 20, 5, 4, 6, 8, 5, 8, 6, 5}); o.a = src.range(0, 40); o.b = src.range(0, 40); o.c = src.range(0, 40); o.fault = !par && src.chance(40) ? src.range(1, NF - 1) : 0; o.fat = src.pick({1, 1, 1, 2, 2, 3, 4, 5}); o.dl = src.weighted({60, 10, 10, 20}); o.cancel = src.weighted({60, 25, 15}); o.cwhen = src.range(0, 24); return o; };
    { std::vector<Op> b; for (int i = 0; i < nsrv; i++) b.push_back(gen(true, O_SERVE)); for (auto &o : b) o.dl = 0; for (auto &o : b) batches.push_back({o}); }
    for (int i = 0; i < nb; i++) { int m = src.chance(30) ? src.range(2, 6) : 1; std::vector<Op> b; for (int j = 0; j < m; j++) { Op o = gen(m > 1, -1); if (m > 1 && (o.o == O_SERVE || o.o == O_INUSE || o.o == O_RESERVE || (o.o == O_NAME && o.a % 10 == 9))) o.o = O_DIAL; b.push_back(o); } batches.push_back(b); }
    int slow = src.pick({5, 25, 40}); for (auto &b : batches) { for (auto &o : b) t += (b.size() > 1 ? "  || " : "") + show(o) + "\n"; } t += strf("slow names take %d ms\n", slow); kit_begin(t);
    S.clear(); names.clear(); dir = scratch_dir(); maintid = (pid_t)syscall(SYS_gettid);
    names["one.test"] = {{ip(1)}}; names["slow.test"] = {{ip(1)}, 0, 0, slow}; names["six.test"] = {{"::1"}}; names["both.test"] = {{"::1", ip(1)}}; names["both2.test"] = {{"::1", "::1", ip(1)}}; names["multi.test"] = {{ip(13), ip(2), ip(12)}}; names["stuck.test"] = {{ip(14), ip(2)}}; names["none.test"] = {{}, EAI_NONAME}; names["again.test"] = {{}, EAI_AGAIN}; names["mem.test"] = {{}, EAI_MEMORY}; names["sys.test"] = {{}, EAI_SYSTEM, EIO}; names["empty.test"] = {}; names["slownone.test"] = {{}, EAI_NONAME, 0, 60};
    if (slow < 25) names["slow.test"].delay_ms = 30; 
    pthread_t w; __real_pthread_create(&w, nullptr, watchdog, nullptr); alloc_install(); if (close0) close(0); int f0 = count_fds(), th0 = count_threads(); long a0 = alloc_live(); static bool stop; stop = false;
    run_rt([&] {
        go([] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); while (!stop) { ticks++; neco_sleep(2 * NECO_MILLISECOND); } });
        for (auto &b : batches) { if (b.size() == 1) run_op(b[0]); else { static int left; left = (int)b.size(); static std::vector<Op> cur; cur = b; for (size_t i = 0; i < b.size(); i++) go([i] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); run_op(cur[i]); left--; }); while (left) { neco_sleep(200000); } label("side by side"); } }
        for (auto &s : S) end_srv(s); for (int fd : raw) close(fd); raw.clear(); stop = true;
    }, false);
    int64_t end = real_now() + 6000000000; for (;;) { bool ok = alloc_live() == a0 && count_fds() == f0 && nchains() == 0 && count_threads() == th0; if (ok) break; if (real_now() > end) { CHECK(nchains() == 0, "leak", "%d results of getaddrinfo were not freed", nchains()); CHECK(count_fds() == f0, "fdleak", "%d file descriptors before, %d after", f0, count_fds()); CHECK(alloc_live() == a0, "leak", "%ld allocated blocks were not freed", alloc_live() - a0); fail("threadleak", "%d threads are left", count_threads() - th0); } usleep(1000); heart++; }
    nontrivial(ntrivial >= 3 && naccepted > 0); count("operations", (uint64_t)ntrivial); count("connections", (uint64_t)naccepted); count("lookups", (uint64_t)nlookups); if (close0) label("descriptor 0 closed");
}
