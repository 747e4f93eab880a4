// C13: reads, writes, waits, accepts and connects over pipes and socket pairs,
// with short transfers, spurious would-block results, interruptions and errors
// injected at the system call boundary (ld --wrap).
#include <set>
#include "kit.h"
#include <memory>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <pthread.h>
extern "C" { ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_accept(int, struct sockaddr *, socklen_t *); int __real_connect(int, const struct sockaddr *, socklen_t); }
struct Ch { int rfd = -1, wfd = -1; bool pipe = false, wclosed = false, rclosed = false; std::string stream; size_t rpos = 0; };
enum { O_READ, O_WRITE, O_WAITR, O_WAITW, O_YIELD, O_SLEEP, O_CLOSEW, O_CLOSER, O_CANCEL, O_ACCEPT, O_CONNECT };
static const char *ON[] = {"read", "write", "wait-read", "wait-write", "yield", "sleep", "close-write-end", "close-read-end", "cancel", "accept", "connect"};
struct St { int o; int ch = 0; int n = 0; int64_t dl = 0; int arg = 0; };
struct Op { int co = -1, o = 0, ch = 0, fd = -1; char *base = nullptr; size_t n = 0, done = 0, off = 0; int err = 0; bool eof = false; int64_t dl = INT64_MAX; bool active = false; uint64_t ver = 0; int due = 0, late = 0; int64_t duereal = 0, latereal = 0; bool fresh = true; };
struct Co { std::vector<St> plan; bool inl = true; int64_t id = 0; bool started = false, ended = false, pend = false; Op op; std::vector<char> buf; size_t ip = 0; int fd = -1; };
struct Lst { int fd = -1; bool tcp = false; struct sockaddr_storage ad; socklen_t al = 0; int nconn = 0, nacc = 0; uint64_t ver = 0; };
static std::vector<Ch> C; static std::vector<Co> K; static std::vector<Lst> LS; static uint64_t ver_, nsys, ninj, nshort; static std::vector<uint8_t> tape; static size_t tpos; static std::vector<uint8_t> etape; static size_t etpos; static bool finishing; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static bool armed;
static std::vector<uint64_t> fdver; static bool workers;
static uint64_t &fv(int fd) { if ((size_t)fd >= fdver.size()) fdver.resize((size_t)fd + 64); return fdver[(size_t)fd]; }
static Op *opof(const void *p) { for (auto &k : K) if (k.op.active && k.op.base && (const char *)p >= k.op.base && (const char *)p <= k.op.base + k.op.n) return &k.op; return nullptr; }
static int chr(int fd) { for (size_t i = 0; i < C.size(); i++) if (C[i].rfd == fd && !C[i].rclosed) return (int)i; return -1; }
static int chw(int fd) { for (size_t i = 0; i < C.size(); i++) if (C[i].wfd == fd && !C[i].wclosed) return (int)i; return -1; }
// 0 pass, 1 EINTR, 2 EAGAIN, 3 short, 4 error
static int next(int *k) { int v = 0; if (tpos < tape.size()) { uint8_t b = tape[tpos++]; v = b & 7; *k = (b >> 3) + 1; } if (v > 4) v = 0; if (v) ninj++; return v; }
extern "C" ssize_t __wrap_read(int fd, void *buf, size_t n) {
    if (!armed) return __real_read(fd, buf, n);
    pthread_mutex_lock(&mx); int c = chr(fd); Op *op = c >= 0 ? opof(buf) : nullptr; ssize_t r;
    if (!op) { pthread_mutex_unlock(&mx); return __real_read(fd, buf, n); }
    int k = 0, a = next(&k); nsys++;
    if (buf != op->base || n > op->n) fail("read-args", "read of c%d passes another buffer to the system", op->co);
    if (op->done) fail("read-twice", "read of c%d goes on reading after it got %zu bytes", op->co, op->done);
    fv(fd)++;
    if (a == 1 || a == 2) { pthread_mutex_unlock(&mx); errno = a == 1 ? EINTR : EAGAIN; return -1; }
    if (a == 4) { op->err = k & 1 ? EIO : ECONNRESET; pthread_mutex_unlock(&mx); errno = op->err; return -1; }
    if (a == 3 && n > (size_t)k) { n = (size_t)k; nshort++; }
    r = __real_read(fd, buf, n); int e = errno;
    if (r > 0) { Ch &x = C[(size_t)c]; if (x.rpos + (size_t)r > x.stream.size() || memcmp(x.stream.data() + x.rpos, buf, (size_t)r)) fail("harness", "stream of channel %d is off", c); op->off = x.rpos; op->done = (size_t)r; x.rpos += (size_t)r; ver_++; }
    else if (r == 0 && n) op->eof = true; else if (r == -1 && e != EAGAIN && e != EINTR) op->err = e;
    pthread_mutex_unlock(&mx); errno = e; return r;
}
extern "C" ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    if (!armed) return __real_write(fd, buf, n);
    pthread_mutex_lock(&mx); int c = chw(fd); Op *op = c >= 0 ? opof(buf) : nullptr;
    if (!op) { pthread_mutex_unlock(&mx); return __real_write(fd, buf, n); }
    int k = 0, a = next(&k); nsys++; fv(fd)++;
    if ((const char *)buf != op->base + op->done) fail("write-args", "write of c%d continues at byte %zd although %zu bytes were written", op->co, (const char *)buf - op->base, op->done);
    if (n > op->n - op->done) fail("write-args", "write of c%d passes %zu bytes to the system, %zu are left", op->co, n, op->n - op->done);
    if (op->err) fail("write-after-error", "write of c%d goes on after error %d", op->co, op->err);
    if (a == 1 || a == 2) { pthread_mutex_unlock(&mx); errno = a == 1 ? EINTR : EAGAIN; return -1; }
    if (a == 4) { op->err = k & 1 ? EIO : ENOSPC; pthread_mutex_unlock(&mx); errno = op->err; return -1; }
    if (a == 3 && n > (size_t)k) { n = (size_t)k; nshort++; }
    ssize_t r = __real_write(fd, buf, n); int e = errno;
    if (r > 0) { C[(size_t)c].stream.append((const char *)buf, (size_t)r); op->done += (size_t)r; ver_++; } else if (r == -1 && e != EAGAIN && e != EINTR) op->err = e;
    pthread_mutex_unlock(&mx); errno = e; return r;
}
extern "C" int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    if (!armed) return __real_accept(fd, a, l);
    int k = 0, x = next(&k); nsys++; fv(fd)++;
    if (x == 1 || x == 2) { errno = x == 1 ? EINTR : EAGAIN; return -1; }
    return __real_accept(fd, a, l);
}
extern "C" int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (!armed) return __real_connect(fd, a, l);
    int k = 0, x = next(&k); nsys++;
    if (x == 1) { errno = EINTR; return -1; }
    static std::set<int> inprog;
    int r = __real_connect(fd, a, l), e = errno;
    if (r == -1 && e == EINPROGRESS) inprog.insert(fd);
    else if (inprog.erase(fd) && r == 0 && x == 2) { errno = EISCONN; return -1; } // what other kernels say, and this one to a third call
    errno = e; return r;
}
static int inject(int *n) { if (!armed || etpos >= etape.size()) return 0; int v = etape[etpos++]; if (v == 1) return -1; if (v > 1 && *n > 1) *n = 1; return 0; }
static void mkop(int i, const St &s, int fd) { Op &p = K[(size_t)i].op; pthread_mutex_lock(&mx); p = Op(); p.co = i; p.o = s.o; p.ch = s.ch; p.fd = fd; p.dl = s.dl == INT64_MAX ? INT64_MAX : vc_now() + s.dl; p.active = true; p.ver = fv(fd); pthread_mutex_unlock(&mx); }
static bool chkerr(int i, const char *what, int e, bool pend0) {
    Co &k = K[(size_t)i]; Op &p = k.op;
    if (e == ECANCELED) { CHECK(k.pend, "spurious-cancel", "%s of c%d reports canceled but nobody canceled it", what, i); return true; }
    CHECK(!pend0, "cancel-ignored", "%s of c%d reports error %d although it was canceled before", what, i, e);
    if (e == ETIMEDOUT) { CHECK(p.dl != INT64_MAX && vc_now() > p.dl, "early-timeout", "%s of c%d timed out at %lld, deadline %lld", what, i, (long long)vc_now(), (long long)p.dl); return true; }
    CHECK(e == p.err && e, "error", "%s of c%d reports errno %d (%s) but the system reported %d", what, i, e, strerror(e), p.err); return true;
}
static void closew(int c) { Ch &x = C[(size_t)c]; if (x.wclosed) return;
    for (auto &k : K) if (k.op.active && k.op.fd == x.wfd && (x.pipe || k.op.o == O_WRITE)) return;
    pthread_mutex_lock(&mx); x.wclosed = true; if (x.pipe) close(x.wfd); else shutdown(x.wfd, SHUT_WR); ver_++; pthread_mutex_unlock(&mx); tr("write end of channel %d closed", c); }
static void closer(int c) { Ch &x = C[(size_t)c]; if (x.rclosed || !x.pipe) return;
    for (auto &k : K) if (k.op.active && k.op.fd == x.rfd) return;
    pthread_mutex_lock(&mx); x.rclosed = true; close(x.rfd); ver_++; pthread_mutex_unlock(&mx); tr("read end of channel %d closed", c); }
static int toerr(int e) { return e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : 1; }
static void runco(int i) {
    Co &k = K[(size_t)i]; static int seq;
    for (k.ip = 0; k.ip < k.plan.size() && !finishing; k.ip++) {
        St s = k.plan[k.ip]; Ch &c = C[(size_t)s.ch]; Op &p = k.op; bool pend0 = k.pend && k.inl; int r; ssize_t z; int e;
        switch (s.o) {
        case O_YIELD: neco_yield(); break;
        case O_SLEEP: r = neco_sleep(s.dl == INT64_MAX ? 1000000 : s.dl < 0 ? 0 : s.dl); if (r == NECO_CANCELED) { CHECK(k.pend, "spurious-cancel", "sleep of c%d", i); k.pend = false; } break;
        case O_CLOSEW: closew(s.ch); break;
        case O_CLOSER: closer(s.ch); break;
        case O_CANCEL: { int t = s.arg % (int)K.size(); Co &x = K[(size_t)t]; if (t == i || !x.started || x.ended) break; bool was = x.pend; if (!(k.pend && !k.inl)) x.pend = true; /* an async coroutine canceled before ends here, without effect */ tr("c%d cancels c%d", i, t); r = neco_cancel(x.id); if (r == NECO_CANCELED) { if (k.pend) x.pend = was; CHECK(k.pend, "spurious-cancel", "cancel of c%d", i); k.pend = false; } break; }
        case O_READ:
            if (c.rclosed) break;
            k.buf.assign((size_t)s.n + 16, (char)0xEE); mkop(i, s, c.rfd); p.base = k.buf.data(); p.n = (size_t)s.n; p.ver = fv(c.rfd);
            tr("%lld c%d read(ch%d,%d,%s)", (long long)vc_now() % 1000000000000, i, s.ch, s.n, p.dl == INT64_MAX ? "-" : strf("+%lld", (long long)s.dl).c_str());
            errno = 0; z = p.dl == INT64_MAX && s.arg % 2 ? neco_read(c.rfd, p.base, p.n) : neco_read_dl(c.rfd, p.base, p.n, p.dl); e = errno; r = neco_lasterr();
            p.active = false; tr("%lld c%d read -> %zd%s%s", (long long)vc_now() % 1000000000000, i, z, z < 0 ? " errno " : "", z < 0 ? strerror(e) : "");
            if (z < 0) { chkerr(i, "read", e, pend0); CHECK(p.done == 0, "read-lost", "read of c%d reports errno %d but took %zu bytes", i, e, p.done); if (e == ECANCELED) k.pend = false;
                CHECK(r == toerr(e) || (toerr(e) == 1 && r != NECO_OK), "lasterr", "read of c%d failed with errno %d but neco_lasterr() is %d", i, e, r); }
            else { CHECK(!pend0, "cancel-ignored", "read of c%d returned %zd although it was canceled before", i, z); CHECK(r == NECO_OK, "lasterr", "read of c%d returned %zd but neco_lasterr() is %d", i, z, r);
                CHECK((size_t)z == p.done, "read-count", "read of c%d returned %zd but the system transferred %zu bytes", i, z, p.done);
                CHECK(!memcmp(p.base, c.stream.data() + p.off, (size_t)z), "read-data", "read of c%d changed the data", i);
                for (size_t q = (size_t)z; q < k.buf.size(); q++) CHECK(k.buf[q] == (char)0xEE, "read-overrun", "read of c%d wrote behind the %zd bytes it reported", i, z);
                if (z == 0 && s.n) CHECK(p.eof, "eof", "read of c%d reports end of file but the write end is open", i); }
            break;
        case O_WRITE:
            if (c.wclosed) break;
            k.buf.resize((size_t)s.n + 1); for (int q = 0; q < s.n; q++) k.buf[(size_t)q] = (char)mix64((uint64_t)(seq * 70001 + q)); seq++;
            mkop(i, s, c.wfd); p.base = k.buf.data(); p.n = (size_t)s.n; p.ver = fv(c.wfd);
            tr("%lld c%d write(ch%d,%d,%s)", (long long)vc_now() % 1000000000000, i, s.ch, s.n, p.dl == INT64_MAX ? "-" : strf("+%lld", (long long)s.dl).c_str());
            errno = 0; z = p.dl == INT64_MAX && s.arg % 2 ? neco_write(c.wfd, p.base, p.n) : neco_write_dl(c.wfd, p.base, p.n, p.dl); e = errno; r = neco_lasterr();
            p.active = false; tr("%lld c%d write -> %zd%s%s", (long long)vc_now() % 1000000000000, i, z, z < s.n ? " errno " : "", z < s.n ? strerror(e) : "");
            CHECK(z <= s.n, "write-count", "write of %d bytes returned %zd", s.n, z);
            if (z < 0) { CHECK(p.done == 0, "write-count", "write of c%d returned -1 but %zu bytes were written", i, p.done); chkerr(i, "write", e, pend0); if (e == ECANCELED) k.pend = false;
                CHECK(r == toerr(e) || (toerr(e) == 1 && r != NECO_OK), "lasterr", "write of c%d failed with errno %d but neco_lasterr() is %d", i, e, r); }
            else { CHECK(!pend0 || !s.n, "cancel-ignored", "write of c%d returned %zd although it was canceled before", i, z);
                CHECK((size_t)z == p.done, "write-count", "write of c%d returned %zd but %zu bytes were written", i, z, p.done);
                if (z < s.n) { chkerr(i, "write", e, false); CHECK(r == NECO_PARTIALWRITE, "lasterr", "partial write of c%d but neco_lasterr() is %d", i, r); label("partial-write"); }
                else CHECK(r == NECO_OK, "lasterr", "write of c%d is complete but neco_lasterr() is %d", i, r); }
            break;
        case O_WAITR: case O_WAITW: {
            int fd = s.o == O_WAITR ? c.rfd : c.wfd; if (s.o == O_WAITR ? c.rclosed : c.wclosed) break;
            mkop(i, s, fd); uint64_t v0 = ver_; tr("%lld c%d %s(ch%d,%s)", (long long)vc_now() % 1000000000000, i, ON[s.o], s.ch, p.dl == INT64_MAX ? "-" : strf("+%lld", (long long)s.dl).c_str());
            r = neco_wait_dl(fd, s.o == O_WAITR ? NECO_WAIT_READ : NECO_WAIT_WRITE, p.dl); p.active = false; tr("%lld c%d wait -> %d", (long long)vc_now() % 1000000000000, i, r);
            if (r == NECO_CANCELED) { chkerr(i, "wait", ECANCELED, pend0); k.pend = false; } else if (r == NECO_TIMEDOUT) chkerr(i, "wait", ETIMEDOUT, pend0);
            else { CHECK(r == NECO_OK && !pend0, "wait", "wait of c%d returned %d", i, r);
                pthread_mutex_lock(&mx); if (v0 == ver_) { struct pollfd pf = {fd, (short)(s.o == O_WAITR ? POLLIN : POLLOUT), 0}; CHECK(poll(&pf, 1, 0) == 1, "wait-spurious", "wait of c%d returned but channel %d is not ready", i, s.ch); } pthread_mutex_unlock(&mx); }
            break; }
        case O_ACCEPT: case O_CONNECT: {
            if (LS.empty()) break; Lst &l = LS[(size_t)s.ch % LS.size()]; int fd;
            if (s.o == O_ACCEPT) {
                mkop(i, s, l.fd); struct sockaddr_storage sa; socklen_t sl = sizeof sa; tr("c%d accept", i);
                fd = neco_accept_dl(l.fd, (struct sockaddr *)&sa, &sl, p.dl); e = errno; r = neco_lasterr(); p.active = false; tr("c%d accept -> %s", i, fd < 0 ? strerror(e) : "connection");
                if (fd < 0) { chkerr(i, "accept", e, pend0); CHECK(r == toerr(e), "lasterr", "accept: errno %d, lasterr %d", e, r); if (e == ECANCELED) k.pend = false; }
                else { CHECK(!pend0, "cancel-ignored", "accept"); CHECK(fcntl(fd, F_GETFL) & O_NONBLOCK, "accept-blocking", "the accepted descriptor is blocking"); l.nacc++; ver_++; fv(l.fd)++; close(fd); label("accepted"); }
            } else {
                fd = socket(l.tcp ? AF_INET : AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); if (fd < 0) break; k.fd = fd;
                mkop(i, s, fd); tr("c%d connect", i); r = neco_connect_dl(fd, (struct sockaddr *)&l.ad, l.al, p.dl); e = errno; int le = neco_lasterr(); p.active = false; tr("c%d connect -> %d %s", i, r, r < 0 ? strerror(e) : "");
                if (r == -1) { if (e != ECONNREFUSED || l.tcp) chkerr(i, "connect", e, pend0); if (e == ECANCELED) k.pend = false; CHECK(le != NECO_OK, "lasterr", "connect failed but neco_lasterr() is OK"); }
                else { CHECK(!pend0, "cancel-ignored", "connect"); l.nconn++; ver_++; int se = -1; socklen_t sl = sizeof se; getsockopt(fd, SOL_SOCKET, SO_ERROR, &se, &sl); CHECK(se == 0, "connect", "connect succeeded but the socket has error %d", se);
                    struct sockaddr_storage pn; sl = sizeof pn; CHECK(getpeername(fd, (struct sockaddr *)&pn, &sl) == 0, "connect", "connect succeeded but the socket is not connected"); label("connected"); }
                close(fd); k.fd = -1;
            }
            break; }
        }
    }
    k.ended = true; tr("c%d ends", i);
}
static void gone(void *a) { Co &k = K[(size_t)(intptr_t)a]; if (!k.ended) { CHECK(k.pend && !k.inl, "spurious-exit", "c%zd is terminated but nobody canceled it", (intptr_t)a); pthread_mutex_lock(&mx); k.op.active = false; pthread_mutex_unlock(&mx); if (k.fd >= 0) close(k.fd); k.ended = true; tr("c%zd terminated", (intptr_t)a); } }
PROP(c13, "at least 3 operations that had to wait for readiness, and at least 3 injected short, would-block, interrupted or failing calls") {
    int nch = src.range(1, 3); std::string t; C.clear(); K.clear(); LS.clear(); int sizes[4]; bool kinds[4];
    bool lst = src.chance(25), tcp = src.chance(50);
    for (int i = 0; i < nch; i++) { kinds[i] = src.chance(50); sizes[i] = src.pick({0, 1, 2}); }
    int nco = src.range(2, 7); K.resize((size_t)nco); int tot = 0; for (int i = 0; i < nch; i++) tot += kinds[i] ? 2 : 1;
    for (int i = 0; i < nco; i++) {
        Co &k = K[(size_t)i]; k.inl = src.chance(80); int n = src.range(1, 8); int bias = (int)src.draw(3);
        for (int j = 0; j < n; j++) {
            St s; s.o = src.weighted({bias == 0 ? 40 : 15, bias == 1 ? 40 : 15, 8, 6, 8, 6, 4, 3, 6, lst ? 12 : 0, lst ? 12 : 0}); s.ch = (int)src.draw((uint32_t)tot); s.arg = (int)src.draw(16);
            s.n = src.weighted({30, 20, 20, 10, 3}); s.n = s.n == 0 ? src.range(1, 64) : s.n == 1 ? src.range(65, 5000) : s.n == 2 ? src.range(5000, 70000) : s.n == 3 ? src.range(70000, 300000) : 0;
            int d = src.weighted({50, 30, 6, 4}); s.dl = d == 0 ? INT64_MAX : d == 1 ? (int64_t)src.range(0, 40) * 500000 : d == 2 ? -(int64_t)src.range(1, 1000000) : (int64_t)src.range(1, 400) * 10000000;
            k.plan.push_back(s);
        }
    }
    tape.clear(); int nt = src.pick({0, 8, 40, 160}); for (int i = 0; i < nt; i++) tape.push_back((uint8_t)(src.weighted({30, 15, 20, 30, 2}) | (int)src.draw(32) << 3));
    etape.clear(); nt = src.pick({0, 0, 10, 60}); for (int i = 0; i < nt; i++) etape.push_back((uint8_t)src.weighted({30, 20, 20}));
    tpos = etpos = 0; ver_ = nsys = ninj = nshort = 0; finishing = false; fdver.clear(); armed = false;
    for (int i = 0; i < nch; i++) t += strf("%s with %s buffer\n", kinds[i] ? "socket pair" : "pipe", sizes[i] == 0 ? "default" : sizes[i] == 1 ? "small" : "smaller");
    if (lst) t += tcp ? "tcp listener\n" : "unix listener\n";
    for (int i = 0; i < nco; i++) { t += strf("c%d%s: ", i, K[(size_t)i].inl ? "" : " (async)"); for (auto &s : K[(size_t)i].plan) { t += ON[s.o]; if (s.o < 4) t += strf("(ch%d", s.ch); if (s.o < 2) t += strf(",%d", s.n); if (s.o < 4) t += s.dl == INT64_MAX ? ")" : strf(",%+lldns)", (long long)s.dl); if (s.o == O_CANCEL) t += strf("(c%d)", s.arg % nco); if (s.o == O_CLOSEW || s.o == O_CLOSER) t += strf("(ch%d)", s.ch); t += "; "; } t += "\n"; }
    t += "system calls: "; for (auto b : tape) t += strf("%s", (b & 7) == 0 ? "." : (b & 7) == 1 ? "I" : (b & 7) == 2 ? "A" : (b & 7) == 3 ? strf("s%d", (b >> 3) + 1).c_str() : "E"); t += strf("\npoll: "); for (auto b : etape) t += ".I1"[b]; 
    static bool close0; close0 = src.chance(12); if (close0) { t += "\ndescriptor 0 is closed"; label("descriptor 0 closed"); }
    kit_begin(t); vc_begin(1, 30000000); vc_epoll_inject = inject; static uint64_t waited; waited = 0; workers = false; static bool s_lst, s_tcp; s_lst = lst; s_tcp = tcp; static int s_nch; s_nch = nch;
    static int s_sizes[4]; static bool s_kinds[4]; for (int i = 0; i < nch; i++) s_sizes[i] = sizes[i], s_kinds[i] = kinds[i];
    static std::string dir; if (lst && !tcp) dir = scratch_dir();
    if (close0) { close(0); (void)!open("/dev/null", O_RDONLY); }
    run_rt([&] {
        for (int i = 0; i < s_nch; i++) {
            int p[2];
            if (!s_kinds[i]) { CHECK(pipe2(p, O_NONBLOCK) == 0, "harness", "pipe"); if (s_sizes[i]) fcntl(p[1], F_SETPIPE_SZ, 4096); Ch c; c.rfd = p[0]; c.wfd = p[1]; c.pipe = true; C.push_back(c); }
            else { CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair"); if (s_sizes[i]) for (int q = 0; q < 2; q++) { int v = s_sizes[i] == 1 ? 8192 : 2048; setsockopt(p[q], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
                Ch c; c.rfd = p[0]; c.wfd = p[1]; C.push_back(c); c.rfd = p[1]; c.wfd = p[0]; C.push_back(c); }
        }
        if (s_lst) { Lst l; l.tcp = s_tcp; memset(&l.ad, 0, sizeof l.ad); l.fd = socket(s_tcp ? AF_INET : AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
            if (s_tcp) { struct sockaddr_in *a = (struct sockaddr_in *)&l.ad; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); l.al = sizeof *a; }
            else { struct sockaddr_un *a = (struct sockaddr_un *)&l.ad; a->sun_family = AF_UNIX; snprintf(a->sun_path, sizeof a->sun_path, "%s/s", dir.c_str()); l.al = sizeof *a; }
            if (bind(l.fd, (struct sockaddr *)&l.ad, l.al) || listen(l.fd, 16)) inconclusive("listen"); l.al = sizeof l.ad; getsockname(l.fd, (struct sockaddr *)&l.ad, &l.al); LS.push_back(l); }
        if (close0) close(0);
        armed = true;
        for (int i = 0; i < (int)K.size(); i++) go([i] { Co &k = K[(size_t)i]; k.id = neco_getid(); k.started = true; neco_setcanceltype(k.inl ? NECO_CANCEL_INLINE : NECO_CANCEL_ASYNC, nullptr); neco_cleanup_push(gone, (void *)(intptr_t)i); runco(i); neco_cleanup_pop(0); });
        int quiet = 0; uint64_t lv = 0; 
        for (int pass = 0;; pass++) {
            neco_sleep(1000000); vc_progress();
            if (pass > 60000) inconclusive("monitor");
            bool any = false, due = false; int64_t rn = real_now();
            for (auto &k : K) {
                if (k.ended) continue; any = true; pthread_mutex_lock(&mx); Op p = k.op; uint64_t v = p.active ? fv(p.fd) : 0; pthread_mutex_unlock(&mx);
                if (!p.active) { due = true; continue; }
                if (k.op.fresh) { waited++; k.op.fresh = false; }
                struct pollfd pf = {p.fd, (short)(p.o == O_WRITE || p.o == O_WAITW || p.o == O_CONNECT ? POLLOUT : POLLIN), 0};
                bool ready = poll(&pf, 1, 0) == 1; bool slow = p.o == O_WRITE;
                if (ready) { due = true; if (k.op.ver != v || !k.op.due) { k.op.ver = v; k.op.due = 1; k.op.duereal = rn; } else k.op.due++;
                    if (k.op.due > 60 && (!slow || rn - k.op.duereal > 8000000000LL)) fail("not-woken", "%s of c%zd has been waiting for %d scheduler rounds although channel %d is ready (poll: %x)", ON[p.o], &k - &K[0], k.op.due, p.ch, pf.revents); }
                else k.op.due = 0;
                if (p.dl != INT64_MAX && vc_now() > p.dl + 3000000) { due = true; if (!k.op.late++) k.op.latereal = rn; if (k.op.late > 30 && (!slow || rn - k.op.latereal > 8000000000LL)) fail("late", "%s of c%zd is still waiting %lld ns after its deadline", ON[p.o], &k - &K[0], (long long)(vc_now() - p.dl)); }
                else if (p.dl != INT64_MAX) due = true;
            }
            if (!any) break;
            if (due || lv != ver_) { quiet = 0; lv = ver_; } else if (++quiet > 80) break;
        }
        finishing = true; label("finished");
        for (int r = 0; r < 4; r++) for (auto &k : K) if (!k.ended) { k.pend = true; neco_cancel_dl(k.id, neco_now() + 1000000000); neco_yield(); }
        for (size_t i = 0; i < K.size(); i++) { int r = neco_join_dl(K[i].id, neco_now() + 100000000000LL); CHECK(r == NECO_OK, "stuck", "c%zu does not end after it was canceled", i); }
        armed = false; if (close0) (void)!open("/dev/null", O_RDONLY);
        for (auto &c : C) { if (!(c.wclosed && c.pipe)) close(c.wfd); if (c.pipe && !c.rclosed) close(c.rfd); }
        for (auto &l : LS) { close(l.fd); CHECK(l.nacc <= l.nconn + (int)K.size() * 8, "accept", "x"); }
    });
    nontrivial(waited >= 3 && ninj >= 3); count("syscalls", nsys); count("injected", ninj); count("waits", waited); if (nshort) label("short"); 
}
// ---- many descriptors at once, reused numbers, waiters that left
struct Nw { int kind; int fate; bool done = false, started = false; int res = 0; int64_t id = 0, dl = INT64_MAX; };      // kind 0 read, 1 wait-read, 2 wait-write; fate 0 served, 1 times out, 2 canceled
struct Nf { bool sock; int a = -1, b = -1; std::vector<Nw> w; int arm = 0; bool armedr = false, armedw = false; };
struct Ph { std::vector<Nf> f; int groups; int64_t pause; bool hup; };
static std::vector<Ph> NP; static uint64_t nserved, nleft;
PROP(c13n, "at least 20 waiters on several descriptors are served, some after others on the same descriptor timed out or were canceled, or on a reused descriptor number") {
    NP.clear(); std::string t; int np = src.range(1, 4); static const char *KN2[] = {"read", "wait-read", "wait-write"}, *FN[] = {"", " times out", " is canceled"};
    for (int p = 0; p < np; p++) {
        Ph ph; int nf = src.chance(50) ? src.range(1, 6) : src.range(7, 70); ph.groups = src.range(1, 3); ph.pause = src.pick<int64_t>({0, 1000000, 120000000, 300000000}); ph.hup = src.chance(20); t += strf("phase %d: %d descriptors in %d groups%s, then pause %lld ns:", p, nf, ph.groups, ph.hup ? " (hang-up)" : "", (long long)ph.pause);
        for (int i = 0; i < nf; i++) { Nf f; f.sock = src.chance(40); f.arm = src.range(0, ph.groups - 1); int mode = (int)src.draw(4), nw = src.chance(8) && nf < 20 ? src.pick({8, 9, 15, 16, 17, 20, 31, 33, 64, 65}) : src.range(1, 4); t += strf(" %s{", f.sock ? "sock" : "pipe");
            for (int j = 0; j < nw; j++) { Nw w; w.kind = mode == 3 ? (f.sock ? (j & 1) + 1 : 1) : mode == 2 && !f.sock ? 1 : mode; w.fate = src.weighted({70, 15, 15}); t += strf("%s%s,", KN2[w.kind], FN[w.fate]); f.w.push_back(w); } t += "}"; ph.f.push_back(f); }
        NP.push_back(ph); t += "\n"; }
    kit_begin(t); case_hash_str(t); vc_begin(1, 30000000); armed = false; nserved = nleft = 0; static int reuse; reuse = 0; vc_epoll_inject = nullptr;
    run_rt([&] {
        std::set<int> seen;
        for (size_t p = 0; p < NP.size(); p++) { static Ph *ph; ph = &NP[p];
            for (auto &f : ph->f) { int q[2]; if (f.sock) CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, q) == 0, "harness", "socketpair"); else CHECK(pipe2(q, O_NONBLOCK) == 0, "harness", "pipe"); f.a = q[0]; f.b = q[1]; if (!seen.insert(f.a).second) reuse++; bool ww = false; for (auto &w : f.w) ww |= w.kind == 2; if (ww) { char z[4096] = {0}; while (write(f.a, z, sizeof z) > 0) {} } }
            int64_t maxdl = 0;
            for (size_t i = 0; i < ph->f.size(); i++) for (size_t j = 0; j < ph->f[i].w.size(); j++) { Nw &w = ph->f[i].w[j]; if (w.fate == 1) { w.dl = vc_now() + 1000000 + (int64_t)(i * 7 + j) * 1000; maxdl = std::max(maxdl, w.dl); }
                go([i, j] { Nf &f = ph->f[i]; Nw &w = f.w[j]; w.id = neco_getid(); w.started = true; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); char c = 0; int r = w.kind == 0 ? (int)neco_read_dl(f.a, &c, 1, w.dl) : neco_wait_dl(f.a, w.kind == 1 ? NECO_WAIT_READ : NECO_WAIT_WRITE, w.dl); if (w.kind == 0) r = r == 1 ? NECO_OK : neco_lasterr() ? neco_lasterr() : -99; w.res = r; w.done = true; vc_progress();
                    if (r == NECO_OK) CHECK(w.kind == 2 ? f.armedw : f.armedr, "spurious", "%s of descriptor %zu returned before it was ready", w.kind == 0 ? "read" : "wait", i);
                    if (w.kind == 0 && f.armedr && r == -99) r = NECO_OK; // end of file after a hang-up
                    nserved += r == NECO_OK; nleft += r != NECO_OK; }); }
            auto check = [&](Nw &w, size_t i, int want, const char *why) { CHECK(w.done, "not-woken", "descriptor %zu (%zu of this phase): a waiter was not woken although it was %s", i, ph->f.size(), why); CHECK(w.res == want, "result", "descriptor %zu: a waiter that was %s got %d", i, why, w.res); };
            for (auto &f : ph->f) for (auto &w : f.w) if (w.fate == 2) { int r = neco_cancel(w.id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); }
            for (int k = 0; k < 8; k++) neco_yield();
            for (size_t i = 0; i < ph->f.size(); i++) for (auto &w : ph->f[i].w) if (w.fate == 2) check(w, i, NECO_CANCELED, "canceled");
            if (maxdl) { neco_sleep_dl(maxdl + 1000); for (int k = 0; k < 4; k++) neco_yield(); for (size_t i = 0; i < ph->f.size(); i++) for (auto &w : ph->f[i].w) if (w.fate == 1) check(w, i, NECO_TIMEDOUT, "due to time out"); }
            for (int g = 0; g < ph->groups; g++) {
                for (auto &f : ph->f) if (f.arm == g) { int nr = 0, nwr = 0, nww = 0; for (auto &w : f.w) if (w.fate == 0) { nr += w.kind == 0; nwr += w.kind == 1; nww += w.kind == 2; }
                    if (nww) { f.armedw = true; char z[65536]; while (read(f.b, z, sizeof z) > 0) {} }
                    if (ph->hup && !nww) { f.armedr = true; close(f.b); f.b = -1; }
                    else if (nr || (nwr && !nww)) { f.armedr = true; for (int k = 0; k < std::max(nr, 1); k++) if (write(f.b, "x", 1) != 1) fail("harness", "write"); } }
                for (int k = 0; k < 60; k++) neco_yield();
                // a descriptor with waiters for both directions becomes writable first, readable later
                for (auto &f : ph->f) if (f.arm == g && f.armedw && !f.armedr) { bool rd = false; for (auto &w : f.w) if (w.fate == 0 && w.kind == 1) { rd = true; CHECK(!w.done, "spurious", "a wait to read returned for a descriptor that is only writable"); } if (rd) { f.armedr = true; if (write(f.b, "x", 1) != 1) fail("harness", "write"); } }
                for (int k = 0; k < 60; k++) neco_yield();
                for (size_t i = 0; i < ph->f.size(); i++) { Nf &f = ph->f[i]; for (auto &w : f.w) if (w.fate == 0) { if (f.arm == g) { if (w.kind == 0 && ph->hup) { CHECK(w.done, "not-woken", "descriptor %zu: a reader was not woken by a hang-up", i); CHECK(w.res == -99 || w.res == NECO_OK, "result", "read after a hang-up: %d", w.res); } else check(w, i, NECO_OK, "due"); } else if (f.arm > g) CHECK(!w.done, "spurious", "descriptor %zu: a waiter returned before it was ready", i); } }
            }
            for (auto &f : ph->f) { close(f.a); if (f.b >= 0) close(f.b); }
            if (ph->pause) neco_sleep(ph->pause);
        }
    });
    nontrivial(nserved >= 20 && (nleft > 0 || reuse > 0)); if (reuse) label("reused numbers"); if (nleft) label("waiters that left"); count("served", nserved); count("left", nleft);
}
// Datagram sockets: message boundaries, and errors that arrive without data.
#include <poll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
struct Dw { int fd = 0, kind = 0, cap = 0; int64_t id = 0, dl = INT64_MAX; bool done = false, canceled = false; int64_t res = 0; int err = 0; std::string data; };
struct Ds { int kind = 0, a = -1, b = -1; std::deque<std::string> q; int errs = 0; std::vector<std::shared_ptr<Dw>> w; };
static int udp4(int port, int *bound) { int s = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons((uint16_t)port); if (s < 0 || bind(s, (struct sockaddr *)&a, sizeof a)) inconclusive("udp socket"); socklen_t l = sizeof a; getsockname(s, (struct sockaddr *)&a, &l); *bound = ntohs(a.sin_port); return s; }
static void udpto(int s, int port) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons((uint16_t)port); if (connect(s, (struct sockaddr *)&a, sizeof a)) inconclusive("udp connect"); }
PROP(c13u, "at least 3 waiters on datagram sockets were woken, one of them by an error or one with a message that was not the first") {
    struct Ac { int o, s, k, n; }; static std::vector<Ac> pl; pl.clear(); static int kinds[3]; static int ns; ns = src.range(1, 3); std::string t; static const char *KN3[] = {"unix datagram pair", "udp pair", "udp without a receiver"}, *WN[] = {"read", "wait", "read with a deadline"};
    for (int i = 0; i < ns; i++) { kinds[i] = (int)src.draw(3); t += strf("socket %d: %s\n", i, KN3[kinds[i]]); }
    int n = src.range(2, 24); for (int i = 0; i < n; i++) { Ac a; a.o = src.weighted({40, 40, 10, 10}); a.s = (int)src.draw((uint32_t)ns); a.k = (int)src.draw(3); a.n = src.pick({0, 1, 5, 100, 1400}); pl.push_back(a); t += a.o == 0 ? strf("%s on socket %d\n", WN[a.k], a.s) : a.o == 1 ? strf("%s on socket %d\n", kinds[a.s] == 2 ? "error" : strf("message of %d bytes", a.n).c_str(), a.s) : a.o == 2 ? strf("cancel a waiter of socket %d\n", a.s) : "deadlines pass\n"; }
    kit_begin(t); case_hash_str(t); vc_begin(1, 30000000); armed = false; vc_epoll_inject = nullptr; static int nw, nerr, nlater; nw = nerr = nlater = 0;
    run_rt([&] {
        std::vector<Ds> S((size_t)ns); int seq = 0;
        for (int i = 0; i < ns; i++) { Ds &d = S[(size_t)i]; d.kind = kinds[i]; if (d.kind == 0) { int q[2]; CHECK(socketpair(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0, q) == 0, "harness", "socketpair"); d.a = q[0]; d.b = q[1]; } else { int pa, pb; d.a = udp4(0, &pa); d.b = udp4(0, &pb); udpto(d.a, pb); udpto(d.b, pa); if (d.kind == 2) { close(d.b); d.b = -1; } } }
        auto settle = [&] { for (int k = 0; k < 40; k++) neco_yield(); vc_progress(); };
        auto verify = [&] { for (int i = 0; i < ns; i++) { Ds &d = S[(size_t)i]; bool ready = !d.q.empty() || d.errs;
            for (size_t j = 0; j < d.w.size();) { auto &w = d.w[j]; if (w->done) {
                    nw++; if (w->res == NECO_CANCELED && w->err == ECANCELED) CHECK(w->canceled, "spurious-cancel", "socket %d: canceled", i);
                    d.w.erase(d.w.begin() + (long)j); } else j++; }
            if (ready && !d.w.empty()) fail("not-woken", "socket %d (%s): a coroutine in %s still waits although %s", i, KN3[d.kind], WN[d.w[0]->kind], d.errs ? "an error is pending" : "a message is there"); } };
        auto start = [&](int i, int kind) { Ds *d = &S[(size_t)i]; auto w = std::make_shared<Dw>(); w->kind = kind; w->fd = d->a; if (kind == 2) w->dl = vc_now() + 50000000; d->w.push_back(w);
            go([w, d, i] { w->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); char b[2048]; errno = 0; int64_t r = w->kind == 1 ? neco_wait_dl(w->fd, NECO_WAIT_READ, w->dl) : neco_read_dl(w->fd, b, sizeof b, w->dl); int e = errno, le = neco_lasterr(); w->res = r; w->err = e; w->done = true; vc_progress();
                if (w->kind == 1) { if (r == NECO_CANCELED) { w->err = ECANCELED; return; } CHECK(r == NECO_OK, "result", "neco_wait on socket %d returned %lld", i, (long long)r); return; }
                if (r >= 0) { CHECK(!d->q.empty(), "invented", "socket %d: a read returned %lld bytes but no message is there", i, (long long)r); std::string m = d->q.front(); d->q.pop_front(); CHECK((size_t)r == m.size() && !memcmp(b, m.data(), m.size()), "message", "socket %d: a read returned %lld bytes, the next message has %zu", i, (long long)r, m.size()); if (m.size() && m[0] != 1) nlater++; return; }
                if (e == ECANCELED) { w->res = NECO_CANCELED; CHECK(w->canceled, "spurious-cancel", "socket %d: a read reports canceled", i); return; }
                if (e == ETIMEDOUT) { CHECK(vc_now() > w->dl, "early", "socket %d: a read timed out too early", i); return; }
                CHECK(e == ECONNREFUSED && d->errs, "result", "socket %d: a read failed with errno %d", i, e); CHECK(le == NECO_ERROR, "lasterr", "neco_lasterr() is %d", le); d->errs = 0; nerr++; }); };
        for (auto &a : pl) { Ds &d = S[(size_t)a.s];
            if (a.o == 0) start(a.s, a.k);
            else if (a.o == 1 && d.kind < 2) { std::string m((size_t)a.n, (char)(seq % 100)); if (a.n) m[0] = (char)(1 + seq % 100); seq++; if (d.q.size() < 6) { ssize_t r = send(d.b, m.data(), m.size(), 0); if (r != (ssize_t)m.size()) inconclusive("send"); d.q.push_back(m); } struct pollfd p = {d.a, POLLIN, 0}; if (poll(&p, 1, 200) != 1) inconclusive("no delivery"); }
            else if (a.o == 1) { bool ok = false; for (int k = 0; k < 20 && !ok; k++) ok = send(d.a, "x", 1, 0) == 1; struct pollfd p = {d.a, 0, 0}; if (!ok || poll(&p, 1, 200) != 1 || !(p.revents & POLLERR)) inconclusive("no error"); d.errs = 1; }
            else if (a.o == 2) { for (auto &w : d.w) if (!w->done) { w->canceled = true; int r = neco_cancel(w->id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); break; } }
            else neco_sleep(60000000);
            settle(); verify(); }
        for (int i = 0; i < ns; i++) { for (auto &w : S[(size_t)i].w) if (!w->done) { w->canceled = true; neco_cancel(w->id); } } settle(); verify();
        for (auto &d : S) { CHECK(d.w.empty(), "stuck", "a canceled waiter is still waiting"); close(d.a); if (d.b >= 0) close(d.b); }
    });
    nontrivial(nw >= 3 && (nerr || nlater)); count("woken", (uint64_t)nw); if (nerr) label("errors without data");
}
