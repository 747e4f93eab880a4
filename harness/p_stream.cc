// C14: streams against a byte-sequence model. The stream sits on one end of a
// socket pair or on two pipes; the other end is driven directly. Short, would-
// block, interrupted and failing calls are injected at the system call boundary.
#include "kit.h"
#include <sys/socket.h>
#include <poll.h>
#include <pthread.h>
extern "C" { ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); }
enum { S_READ, S_FULL, S_BYTE, S_UNREAD, S_WRITE, S_FLUSH, S_SIZES, S_CLOSE, S_YIELD };
static const char *SN[] = {"read", "readfull", "read-byte", "unread-byte", "write", "flush", "sizes", "close", "yield"};
struct So { int o; int n; int64_t dl; };
enum { F_FEED, F_DRAIN, F_SHUT, F_CANCEL, F_BREAK };
static const char *FN[] = {"feed", "drain", "end-of-input", "cancel", "break"};
struct Fo { int o; int n; int64_t at; };
struct Sess {
    int fd = -1, peer = -1; bool buffered = false; size_t cap = 0;
    std::string in;         // bytes offered by the peer so far
    size_t Q = 0, P = 0;    // taken from the descriptor / handed to the user
    std::string acc;        // bytes accepted from the user
    size_t Z = 0, D = 0;    // passed to the descriptor / seen by the peer
    bool shut = false, broken = false;
};
static Sess S; static neco_stream *st; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static bool armed;
static std::vector<uint8_t> tape; static size_t tpos; static uint64_t ninj, nsysop, nsys, nshort; static int inj_err; static bool sawread, saweof; static std::vector<uint8_t> etape; static size_t etpos;
static bool in_op, pend, canceling, done_; static int64_t did; static const char *cur_user; static size_t cur_n;
static int next(int *k) { int v = 0; if (tpos < tape.size()) { uint8_t b = tape[tpos++]; v = b & 7; *k = (b >> 3) + 1; if (b >= 0xC0 && v == 3) *k = ((b >> 3) - 23) * 700; } if (v > 4) v = 0; if (v) ninj++; return v; }
static std::set<int> dxfd;   // descriptors of the duplex streams: short, would-block and interrupted calls only
static int dxinj(size_t *n) { int k = 0; pthread_mutex_lock(&mx); int a = next(&k); nsys++; if (a == 3 && *n > (size_t)k) { *n = (size_t)k; nshort++; } pthread_mutex_unlock(&mx); if (a == 1 || a == 2) { errno = a == 1 ? EINTR : EAGAIN; return -1; } return 0; }
extern "C" ssize_t __wrap_read(int fd, void *buf, size_t n) {
    if (!dxfd.empty() && dxfd.count(fd)) return dxinj(&n) ? -1 : __real_read(fd, buf, n);
    if (!armed || fd != S.fd) return __real_read(fd, buf, n);
    pthread_mutex_lock(&mx); nsys++; nsysop++; int k = 0, a = next(&k); ssize_t r; int e = 0;
    if (a == 1 || a == 2) { r = -1; e = a == 1 ? EINTR : EAGAIN; }
    else if (a == 4) { r = -1; e = inj_err = EIO; }
    else { if (a == 3 && n > (size_t)k) { n = (size_t)k; nshort++; }
        r = __real_read(fd, buf, n); e = errno;
        if (r > 0) { if (S.Q + (size_t)r > S.in.size() || memcmp(buf, S.in.data() + S.Q, (size_t)r)) fail("harness", "input is off"); S.Q += (size_t)r; }
        else if (r == 0 && n) saweof = true; else if (r == -1 && e != EAGAIN && e != EINTR) inj_err = e; }
    pthread_mutex_unlock(&mx); errno = e; return r;
}
extern "C" ssize_t __wrap_write(int fd, const void *buf, size_t n) {
    if (!dxfd.empty() && dxfd.count(fd)) return dxinj(&n) ? -1 : __real_write(fd, buf, n);
    if (!armed || fd != S.fd) return __real_write(fd, buf, n);
    pthread_mutex_lock(&mx); nsys++; nsysop++; int k = 0, a = next(&k); ssize_t r; int e = 0;
    if (a == 1 || a == 2) { r = -1; e = a == 1 ? EINTR : EAGAIN; }
    else if (a == 4 && n) { r = -1; e = inj_err = EIO; }
    else { if (a == 3 && n > (size_t)k) { n = (size_t)k; nshort++; }
        r = __real_write(fd, buf, n); e = errno;
        if (r > 0) {
            // what goes out must continue the accepted bytes, then the bytes of the write in progress
            std::string want = S.acc; if (cur_user) want.append(cur_user, cur_n);
            if (want.size() < S.Z + (size_t)r || memcmp(want.data() + S.Z, buf, (size_t)r)) fail("write-data", "byte %zu of the output is wrong: %zd bytes were passed to the descriptor, %zu accepted bytes are outstanding%s", S.Z, r, S.acc.size() > S.Z ? S.acc.size() - S.Z : 0, cur_user ? " and a write is in progress" : "");
            S.Z += (size_t)r;
        } else if (r == -1 && e != EAGAIN && e != EINTR) inj_err = e; }
    pthread_mutex_unlock(&mx); errno = e; return r;
}
static int inject(int *n) { if (!armed || etpos >= etape.size()) return 0; int v = etape[etpos++]; return v == 1 ? -1 : 0; }
static void feed(int n) { if (S.shut || S.broken) return; std::string b; for (int i = 0; i < n; i++) b += (char)mix64(0x51ull * (S.in.size() + (size_t)i + 1)); pthread_mutex_lock(&mx); ssize_t r = __real_write(S.peer, b.data(), b.size()); if (r > 0) S.in.append(b.data(), (size_t)r); pthread_mutex_unlock(&mx); tr("%lld peer sends %zd bytes", (long long)vc_now(), r); }
static void drain(int n) { if (S.broken) return; std::vector<char> b((size_t)n); size_t got = 0; while (got < (size_t)n) { pthread_mutex_lock(&mx); ssize_t r = __real_read(S.peer, b.data(), (size_t)n - got);
        if (r > 0) { std::string w = S.acc; if (cur_user) w.append(cur_user, cur_n); if (S.D + (size_t)r > w.size() || memcmp(b.data(), w.data() + S.D, (size_t)r)) fail("output", "the peer received bytes at %zu that were not written", S.D); S.D += (size_t)r; got += (size_t)r; } pthread_mutex_unlock(&mx); if (r <= 0) break; } tr("%lld peer receives %zu bytes", (long long)vc_now(), got); }
static size_t uacc0;  // for unbuffered writes: bytes of the current write already passed
PROP(c14, "at least 6 stream operations, 3 of which reached the descriptor, and at least 2 injected or natural short, blocked, interrupted or failed calls") {
    S = Sess(); bool buffered = src.chance(85); size_t cap = 0; if (buffered) { int c = src.weighted({40, 25, 25, 10}); cap = c == 0 ? 0 : c == 1 ? (size_t)src.range(1, 16) : c == 2 ? (size_t)src.range(17, 300) : (size_t)src.range(4090, 9000); }
    size_t ecap = buffered ? (cap ? cap : 4096) : 0; int sndbuf = src.pick({0, 1, 2}); bool inl = src.chance(85);
    std::vector<So> ops; int n = src.range(1, 24); int64_t h = 0; bool wr = src.chance(80), rd = src.chance(85); if (!wr && !rd) rd = true;
    for (int i = 0; i < n; i++) {
        So o; o.o = src.weighted({rd ? 20 : 0, rd ? 12 : 0, rd ? 14 : 0, rd ? 14 : 0, wr ? 26 : 0, wr ? 10 : 0, 4, 0, 3});
        int b = src.weighted({30, 20, 20, 10, 4}); int B = (int)(ecap ? ecap : 4096);
        o.n = b == 0 ? src.range(1, 40) : b == 1 ? std::max(0, B + src.range(-3, 3)) : b == 2 ? src.range(1, 3 * B + 5) : b == 3 ? src.range(1, B) : 0; if (o.n > 30000) o.n = 30000; if (sndbuf == 0 && src.chance(4)) o.n = 200000;
        int d = src.weighted({60, 25, 5, 5}); o.dl = d == 0 ? INT64_MAX : d == 1 ? (int64_t)src.range(0, 30) * 500000 : d == 2 ? -(int64_t)src.range(1, 5) : (int64_t)src.range(1, 100) * 3000000;
        ops.push_back(o);
    }
    ops.push_back({S_CLOSE, 0, src.chance(70) ? INT64_MAX : (int64_t)src.range(0, 20) * 500000});
    std::vector<Fo> fs; int nf = src.range(0, 14); int64_t at = 0;
    for (int i = 0; i < nf; i++) { Fo f; f.o = src.weighted({50, 25, 4, 12, 2}); int b = (int)src.draw(4); int B = (int)(ecap ? ecap : 4096); f.n = b < 2 ? src.range(1, 60) : b == 2 ? std::max(1, B + src.range(-3, 3)) : src.range(1, 3 * B); if (f.n > 60000) f.n = 60000; at += src.pick({0, 0, 1, 2, 7}) * 400000; f.at = at; fs.push_back(f); }
    tape.clear(); int nt = src.pick({0, 6, 24, 80}); for (int i = 0; i < nt; i++) tape.push_back((uint8_t)(src.weighted({34, 10, 16, 34, 3}) | (int)src.draw(32) << 3));
    etape.clear(); nt = src.pick({0, 0, 20}); for (int i = 0; i < nt; i++) etape.push_back((uint8_t)src.draw(2));
    int64_t endcancel = (int64_t)src.range(1, 3);
    std::string t = strf("%s stream%s, %s send buffer%s\n", buffered ? "buffered" : "unbuffered", cap ? strf(" (%zu bytes)", cap).c_str() : "", sndbuf == 0 ? "default" : sndbuf == 1 ? "small" : "smallest", inl ? "" : ", async cancelation");
    for (auto &o : ops) { t += SN[o.o]; if (o.o <= S_FULL || o.o == S_WRITE) t += strf("(%d)", o.n); if (o.dl != INT64_MAX && o.o != S_UNREAD && o.o != S_SIZES && o.o != S_YIELD) t += strf("[%+lld]", (long long)o.dl); t += "; "; }
    t += "\npeer:"; for (auto &f : fs) { t += strf(" @%lld %s", (long long)f.at, FN[f.o]); if (f.o <= F_DRAIN) t += strf("(%d)", f.n); }
    t += "\nsystem calls: "; for (auto b : tape) t += (b & 7) == 0 ? "." : (b & 7) == 1 ? "I" : (b & 7) == 2 ? "A" : (b & 7) == 3 ? "s" : "E";
    kit_begin(t); vc_begin(1, 30000000); vc_epoll_inject = inject; tpos = etpos = 0; ninj = nsys = nshort = nsysop = 0; armed = false; pend = in_op = done_ = canceling = false; st = nullptr; cur_user = nullptr;
    static uint64_t reached, nops, blocked; reached = nops = blocked = 0; static int s_snd; s_snd = sndbuf; static bool s_inl; s_inl = inl; S.buffered = buffered; S.cap = ecap; static size_t s_cap; s_cap = cap; static std::vector<So> s_ops; s_ops = ops; static std::vector<Fo> s_fs; s_fs = fs; static int64_t s_end; s_end = endcancel;
    static bool opening; static int cur; static int64_t opdl; static uint64_t opsys; static int late, due; static int64_t latereal, duereal; late = due = 0; opening = false;
    static int fds0; 
    run_rt([&] {
        int p[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair");
        if (s_snd) for (int q = 0; q < 2; q++) { int v = s_snd == 1 ? 16384 : 2304; setsockopt(p[q], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
        S.fd = p[0]; S.peer = p[1]; armed = true; fds0 = count_fds();
        go([&] {
            did = neco_getid(); neco_setcanceltype(s_inl ? NECO_CANCEL_INLINE : NECO_CANCEL_ASYNC, nullptr);
            struct Cl { static void f(void *) { if (!done_) { CHECK(pend && !s_inl, "spurious-exit", "the coroutine is terminated but nobody canceled it"); done_ = true; tr("terminated"); label("terminated");
                if (!s_inl && cur >= 0 && s_ops[(size_t)cur].o == S_CLOSE) { CHECK(fcntl(S.fd, F_GETFD) == -1, "close-leak", "close was canceled and left the descriptor open"); st = nullptr; } } } };
            neco_cleanup_push(Cl::f, nullptr); cur = -1;
            int r = S.buffered ? (s_cap ? neco_stream_make_buffered_size(&st, S.fd, s_cap) : neco_stream_make_buffered(&st, S.fd)) : neco_stream_make(&st, S.fd);
            CHECK(r == NECO_OK, "make", "making the stream failed: %d", r);
            bool can_unread = false; std::vector<char> buf; static int seq;
            for (cur = 0; cur < (int)s_ops.size(); cur++) {
                const So &o = s_ops[(size_t)cur]; nops++; int64_t dl = o.dl == INT64_MAX ? INT64_MAX : vc_now() + o.dl; bool pend0 = pend; nsysop = 0; inj_err = 0; saweof = false; ssize_t z = 0; int e, le; bool plain = o.dl == INT64_MAX;
                size_t P0 = S.P, Q0 = S.Q, Z0 = S.Z, A0 = S.acc.size(); const char *nm = SN[o.o]; opdl = dl; late = due = 0; opsys = nsys;
                tr("%lld %s(%d)", (long long)vc_now(), nm, o.n);
                switch (o.o) {
                case S_YIELD: neco_yield(); break;
                case S_READ: case S_FULL: case S_BYTE: {
                    size_t want = o.o == S_BYTE ? 1 : (size_t)o.n; if (want > 70000) want = 70000; buf.assign(want + 8, (char)0xEE); in_op = true; errno = 0;
                    if (o.o == S_READ) z = plain ? neco_stream_read(st, buf.data(), want) : neco_stream_read_dl(st, buf.data(), want, dl);
                    else if (o.o == S_FULL) z = plain ? neco_stream_readfull(st, buf.data(), want) : neco_stream_readfull_dl(st, buf.data(), want, dl);
                    else { z = plain ? neco_stream_read_byte(st) : neco_stream_read_byte_dl(st, dl); if (z >= 0) { CHECK(z < 256, "read-byte", "read-byte returned %zd", z); buf[0] = (char)z; z = 1; } }
                    e = errno; le = neco_lasterr(); in_op = false; tr("%lld -> %zd%s", (long long)vc_now(), z, z == -1 ? strerror(e) : "");
                    CHECK(z <= (ssize_t)want, "read-count", "%s of %zu bytes returned %zd", nm, want, z);
                    if (z > 0) {
                        CHECK(S.P + (size_t)z <= S.Q, "read-invented", "%s returned %zd bytes but only %zu of the bytes received so far were outstanding", nm, z, S.Q - S.P);
                        for (size_t i = 0; i < (size_t)z; i++) CHECK(buf[i] == S.in[S.P + i], "read-data", "%s: byte %zu of the input is wrong (%02x instead of %02x)", nm, S.P + i, (unsigned char)buf[i], (unsigned char)S.in[S.P + i]);
                        for (size_t i = (size_t)z; i < buf.size(); i++) CHECK(buf[i] == (char)0xEE, "read-overrun", "%s of %zu bytes returned %zd but changed byte %zu of the buffer", nm, want, z, i);
                        S.P += (size_t)z;
                    } 
                    CHECK(S.buffered || S.P == S.Q, "read-lost", "%s returned %zd but took %zu bytes from the descriptor", nm, z, S.Q - Q0);
                    bool to = dl != INT64_MAX && vc_now() > dl;
                    if (z < 0) {
                        int want_le = z == NECO_ERROR ? (e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR) : (int)z; CHECK(le == want_le, "lasterr", "%s returned %zd (errno %d) but neco_lasterr() is %d", nm, z, e, le);
                        if (want_le == NECO_CANCELED) { CHECK(pend, "spurious-cancel", "%s reports canceled but nobody canceled it", nm); pend = false; label("canceled"); }
                        else if (want_le == NECO_TIMEDOUT) { CHECK(to, "early-timeout", "%s timed out before its deadline", nm); label("timed-out"); }
                        else if (want_le == NECO_EOF) { CHECK(saweof && P0 == S.in.size(), "early-eof", "%s reports end of file after %zu of %zu bytes", nm, P0, S.in.size()); label("eof"); }
                        else CHECK(inj_err && z == NECO_ERROR && e == inj_err, "error", "%s returned %zd, errno %d; the system reported %d", nm, z, e, inj_err);
                    } else {
                        CHECK(le == NECO_OK, "lasterr", "%s returned %zd but neco_lasterr() is %d", nm, z, le);
                        if (z == 0 && want) fail("read-zero", "%s returned 0", nm);
                        if (o.o == S_FULL && (size_t)z < want) { CHECK(saweof || to || pend || inj_err, "readfull-short", "readfull of %zu bytes returned %zd without a reason", want, z); label("readfull-short"); }
                        if (pend0 && s_inl && (size_t)z == want && want && S.Q != Q0) { fail("cancel-ignored", "%s returned %zd although it was canceled before", nm, z); }
                        if (o.o == S_READ && Q0 > P0 && want) CHECK((size_t)z == std::min(want, Q0 - P0), "read-buffered", "read of %zu bytes returned %zd although %zu bytes were buffered", want, z, Q0 - P0);
                    }
                    if (z > 0) can_unread = S.buffered && !saweof; else if (nsysop || z == 0) can_unread = false; // a refill may drop what was before it
                    break; }
                case S_UNREAD: z = neco_stream_unread_byte(st); le = neco_lasterr(); tr("-> %zd", z); CHECK(le == z, "lasterr", "unread-byte returned %zd but neco_lasterr() is %d", z, le);
                    if (z == NECO_OK) { CHECK(S.buffered && S.P > 0, "unread", "unread-byte succeeded but no byte was read before"); S.P--; label("unread"); }
                    else { CHECK(z == NECO_UNREADFAIL, "unread", "unread-byte returned %zd", z); CHECK(!can_unread, "unread-refused", "unread-byte failed directly after a successful read"); }
                    can_unread = false; break;
                case S_WRITE: {
                    buf.resize((size_t)o.n + 1); for (int i = 0; i < o.n; i++) buf[(size_t)i] = (char)mix64((uint64_t)(seq * 77 + i) * 31 + 5); seq++;
                    pthread_mutex_lock(&mx); cur_user = buf.data(); cur_n = (size_t)o.n; pthread_mutex_unlock(&mx); in_op = true; errno = 0;
                    z = plain ? neco_stream_write(st, buf.data(), (size_t)o.n) : neco_stream_write_dl(st, buf.data(), (size_t)o.n, dl);
                    e = errno; le = neco_lasterr(); in_op = false; pthread_mutex_lock(&mx); cur_user = nullptr; if (z > 0) S.acc.append(buf.data(), (size_t)std::min<ssize_t>(z, o.n)); pthread_mutex_unlock(&mx); tr("%lld -> %zd%s", (long long)vc_now(), z, z == -1 ? strerror(e) : "");
                    CHECK(z <= o.n, "write-count", "write of %d bytes returned %zd", o.n, z);
                    CHECK(S.Z <= S.acc.size(), "write-count", "write of %d bytes returned %zd but %zu bytes of it reached the descriptor", o.n, z, S.Z - A0);
                    CHECK(S.buffered || S.Z == S.acc.size(), "write-lost", "unbuffered write returned %zd but %zu bytes were passed on", z, S.Z - Z0);
                    bool to = dl != INT64_MAX && vc_now() > dl; std::fill(buf.begin(), buf.end(), (char)0xDD);
                    if (z < 0) {
                        int want_le = z == NECO_ERROR ? (e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR) : (int)z; CHECK(le == want_le, "lasterr", "write returned %zd (errno %d) but neco_lasterr() is %d", z, e, le);
                        if (want_le == NECO_CANCELED) { CHECK(pend, "spurious-cancel", "write reports canceled but nobody canceled it"); pend = false; label("canceled"); }
                        else if (want_le == NECO_TIMEDOUT) { CHECK(to, "early-timeout", "write timed out before its deadline"); label("timed-out"); }
                        else if (want_le == NECO_PARTIALWRITE) { CHECK(S.buffered && S.Z > Z0 && S.Z < A0 && (to || pend || inj_err), "partial", "write reports a partial write without a reason"); label("partial"); }
                        else CHECK(inj_err, "error", "write returned %zd (errno %d) but the system reported no error", z, e);
                    } else if (z < o.n) { CHECK(to || pend || inj_err, "write-short", "write of %d bytes returned %zd without a reason", o.n, z); CHECK(le == NECO_PARTIALWRITE, "lasterr", "write of %d bytes returned %zd but neco_lasterr() is %d", o.n, z, le); label("write-short"); }
                    else { CHECK(le == NECO_OK, "lasterr", "write returned %zd but neco_lasterr() is %d", z, le); if (pend0 && s_inl && S.Z != Z0) fail("cancel-ignored", "write returned %zd although it was canceled before", z); }
                    break; }
                case S_FLUSH: case S_CLOSE: {
                    in_op = true; errno = 0; bool cl = o.o == S_CLOSE; 
                    z = cl ? (plain ? neco_stream_close(st) : neco_stream_close_dl(st, dl)) : plain ? neco_stream_flush(st) : neco_stream_flush_dl(st, dl); e = errno; le = neco_lasterr(); in_op = false; tr("%lld -> %zd%s", (long long)vc_now(), z, z == -1 ? strerror(e) : "");
                    bool to = dl != INT64_MAX && vc_now() > dl; 
                    if (cl) { st = nullptr; CHECK(fcntl(S.fd, F_GETFD) == -1 && errno == EBADF, "close-open", "close returned %zd but the descriptor is still open", z); S.fd = -1; }
                    if (z == NECO_OK) { CHECK(S.Z == S.acc.size(), "flush-lost", "%s succeeded but %zu accepted bytes were not passed to the descriptor", nm, S.acc.size() - S.Z); CHECK(le == NECO_OK, "lasterr", "%s: neco_lasterr() is %d", nm, le); if (pend0 && s_inl && S.Z != Z0) fail("cancel-ignored", "%s succeeded although it was canceled before", nm); }
                    else { int want_le = z == NECO_ERROR ? le : (int)z; CHECK(le == want_le, "lasterr", "%s returned %zd but neco_lasterr() is %d", nm, z, le);
                        if (z == NECO_CANCELED) { CHECK(pend, "spurious-cancel", "%s reports canceled but nobody canceled it", nm); pend = false; label("canceled"); }
                        else if (z == NECO_TIMEDOUT) { CHECK(to, "early-timeout", "%s timed out before its deadline", nm); label("timed-out"); }
                        else if (z == NECO_PARTIALWRITE) { CHECK(S.Z > Z0 && S.Z < S.acc.size() && (to || pend || inj_err), "partial", "%s reports a partial write without a reason", nm); label("partial"); }
                        else CHECK(inj_err && z == NECO_ERROR, "error", "%s returned %zd but the system reported no error", nm, z); }
                    break; }
                }
                if (nsysop) reached++; vc_progress();
                if (st && o.o != S_YIELD) { ssize_t rs = neco_stream_buffered_read_size(st), ws = neco_stream_buffered_write_size(st);
                    CHECK(rs == (ssize_t)(S.Q - S.P), "buffered-read-size", "after %s %zu received bytes are outstanding but the buffered read size is %zd", nm, S.Q - S.P, rs);
                    CHECK(ws == (ssize_t)(S.acc.size() - S.Z), "buffered-write-size", "after %s %zu accepted bytes are outstanding but the buffered write size is %zd", nm, S.acc.size() - S.Z, ws); }
                if (o.o != S_UNREAD) CHECK(P0 <= S.P, "harness", "x");
            }
            done_ = true; neco_cleanup_pop(0);
        });
        // the peer
        int64_t t0 = vc_now(); size_t fi = 0; int quiet = 0;
        for (int pass = 0; !done_; pass++) {
            if (pass > 60000) inconclusive("peer");
            while (fi < s_fs.size() && vc_now() - t0 >= s_fs[fi].at) { const Fo &f = s_fs[fi++];
                if (f.o == F_FEED) feed(f.n); else if (f.o == F_DRAIN) drain(f.n);
                else if (f.o == F_SHUT) { if (!S.shut && !S.broken) { S.shut = true; shutdown(S.peer, SHUT_WR); tr("%lld peer ends input", (long long)vc_now()); } }
                else if (f.o == F_BREAK) { if (!S.broken) { S.broken = true; S.shut = true; close(S.peer); tr("%lld peer closes", (long long)vc_now()); } }
                else if (f.o == F_CANCEL && !done_) { if (!pend) { pend = true; tr("%lld cancel", (long long)vc_now()); neco_cancel(did); } } if (done_) break; }
            if (done_) break;
            neco_sleep(200000); vc_progress(); if (done_) break;
            int64_t rn = real_now(); bool isdue = false;
            if (in_op) { blocked++; const So &o = s_ops[(size_t)cur]; bool w = o.o >= S_WRITE; struct pollfd pf = {S.fd, (short)(w ? POLLOUT : POLLIN), 0};
                if (opsys != nsys) { opsys = nsys; due = 0; }
                if (poll(&pf, 1, 0) == 1) { isdue = true; if (!due++) duereal = rn; if (due > 100 && (!w || rn - duereal > 8000000000LL)) fail("stuck", "%s does not go on although the descriptor is ready", SN[o.o]); } else due = 0;
                if (opdl != INT64_MAX && vc_now() > opdl + 3000000) { isdue = true; if (!late++) latereal = rn; if (late > 100 && (!w || rn - latereal > 8000000000LL)) fail("late", "%s is still waiting %lld ns after its deadline", SN[o.o], (long long)(vc_now() - opdl)); } else if (opdl != INT64_MAX) isdue = true;
                if (fi >= s_fs.size() && !isdue) { if (++quiet > 20) { quiet = 0; int q = (int)(s_end++ % 3); if (q == 0 && !pend) { pend = true; tr("%lld cancel", (long long)vc_now()); neco_cancel(did); } else if (q == 1) drain(100000); else if (w) drain(3000); else feed(50); } } else quiet = 0;
            }
        }
        armed = false;
        if (!S.broken && S.fd == -1) { drain(1 << 20); CHECK(S.D == S.Z, "output", "the peer received %zu of %zu bytes", S.D, S.Z); char c; CHECK(__real_read(S.peer, &c, 1) <= 0, "output", "extra output"); }
        if (st) { // terminated by an async cancelation
            neco_stream_release(st); close(S.fd); st = nullptr; } 
        if (!S.broken) close(S.peer);
        neco_sleep(1);
    });
    nontrivial(nops >= 6 && reached >= 3 && ninj + blocked >= 2); count("operations", nops); count("syscalls", nsys); count("injected", ninj); if (nshort) label("short"); label(buffered ? "buffered" : "unbuffered");
}

// ---- both directions at once: one coroutine reads, another writes, operations time out or are canceled and are continued
struct Dx { bool buffered; size_t cap; std::string in, out; std::vector<int> rops, wops, pops; int fd = -1, peer = -1; neco_stream *st = nullptr; size_t rpos = 0, wpos = 0, sent = 0, got = 0; bool rdone = false, wdone = false, flushed = false; int64_t rid = 0, wid = 0; };
static std::vector<Dx> DX; static uint64_t dxto, dxca, dxun, dxops;
PROP(c14d, "at least 200 bytes in each direction of one stream, with at least 20 operations and 3 that were short, blocked, timed out or canceled") {
    DX.clear(); int n = src.range(1, 3); std::string t; static bool cancels; cancels = src.chance(30);
    for (int i = 0; i < n; i++) { Dx d; d.buffered = src.chance(85); int c = src.weighted({30, 40, 30}); d.cap = !d.buffered ? 0 : c == 0 ? 0 : c == 1 ? (size_t)src.range(1, 40) : (size_t)src.range(41, 600); size_t B = d.cap ? d.cap : 300; size_t ni = (size_t)src.range(0, (int)(6 * B)), no = (size_t)src.range(0, (int)(6 * B)); if (src.chance(5)) no = 120000; if (src.chance(5)) ni = 120000;
        for (size_t k = 0; k < ni; k++) d.in += (char)mix64(0x9e37ull * (k + 1) + (uint64_t)i); for (size_t k = 0; k < no; k++) d.out += (char)mix64(0x7f4aull * (k + 1) + (uint64_t)i);
        for (auto *v : {&d.rops, &d.wops, &d.pops}) { int m = src.range(1, 10); for (int k = 0; k < m; k++) v->push_back((int)src.draw(1u << 20)); }
        t += strf("%s stream of %zu bytes: %zu bytes in, %zu bytes out; choices", d.buffered ? "buffered" : "unbuffered", d.cap, ni, no); for (auto *v : {&d.rops, &d.wops, &d.pops}) { for (int x : *v) t += strf(" %d", x); t += " /"; } t += "\n"; DX.push_back(d); }
    tape.clear(); int nt = src.pick({0, 6, 24, 200}); for (int i = 0; i < nt; i++) tape.push_back((uint8_t)(src.weighted({34, 10, 16, 34}) | (int)src.draw(32) << 3)); t += strf("%d injected results, %s", nt, cancels ? "cancels" : "no cancels");
    kit_begin(t); case_hash_str(t); vc_begin(1, 30000000); vc_epoll_inject = nullptr; armed = false; tpos = 0; ninj = nshort = nsys = 0; dxto = dxca = dxun = dxops = 0;
    run_rt([&] {
        static int left; left = 0; static const auto lasts = [](int r) { return r == -1 ? (errno == ECANCELED ? NECO_CANCELED : errno == ETIMEDOUT ? NECO_TIMEDOUT : -1) : r; };
        static const auto dlof = [](int c) { return c % 5 == 0 ? vc_now() + (c / 5 % 60) * 20000 : INT64_MAX; };
        for (auto &d : DX) { int p[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair"); if (d.out.size() < 100000) for (int q = 0; q < 2; q++) { int v = 2304; setsockopt(p[q], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); } d.fd = p[0]; d.peer = p[1]; dxfd.insert(p[0]);
            int r = d.buffered ? (d.cap ? neco_stream_make_buffered_size(&d.st, d.fd, d.cap) : neco_stream_make_buffered(&d.st, d.fd)) : neco_stream_make(&d.st, d.fd); CHECK(r == NECO_OK, "make", "%d", r); }
        for (size_t i = 0; i < DX.size(); i++) { left += 3;
            go([i] { Dx &d = DX[i]; d.rid = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
                for (size_t k = 0;; k++) { int c = (int)(mix64((uint64_t)d.rops[k % d.rops.size()] + k * 7919) & 0xfffff); size_t B = d.cap ? d.cap : 300; size_t want = (size_t)(c / 7) % (c & 1 ? 2 * B + 3 : 9) + 1; std::vector<char> b(want + 4, (char)0xEE); int64_t dl = dlof(c / 3); int o = c % 4; dxops++; ssize_t z; bool eof = false;
                    if (o == 0) z = neco_stream_read_dl(d.st, b.data(), want, dl); else if (o < 3) z = neco_stream_readfull_dl(d.st, b.data(), want, dl); else { z = neco_stream_read_byte_dl(d.st, dl); if (z >= 0) { b[0] = (char)z; z = 1; } }
                    if (z < 0) { int q = lasts((int)z); if (q == NECO_EOF) eof = true; else if (q == NECO_TIMEDOUT) { CHECK(dl != INT64_MAX && vc_now() > dl, "early-timeout", "a read timed out early"); dxto++; } else { CHECK(q == NECO_CANCELED && cancels, "error", "a read gave %zd (%s)", z, strerror(errno)); dxca++; } }
                    else { if (o == 1 || o == 2) CHECK((size_t)z <= want, "count", "readfull"); for (ssize_t x = 0; x < z; x++) CHECK(d.rpos + (size_t)x < d.in.size() && b[(size_t)x] == d.in[d.rpos + (size_t)x], "read-data", "byte %zu of the input is wrong", d.rpos + (size_t)x); for (size_t x = (size_t)z; x < b.size(); x++) CHECK(b[x] == (char)0xEE, "overrun", "a read wrote behind the bytes it reported"); d.rpos += (size_t)z;
                        if (z > 0 && c % 3 == 0 && d.buffered) { int u = neco_stream_unread_byte(d.st); if (u == NECO_OK) { d.rpos--; dxun++; } else CHECK(u == NECO_UNREADFAIL, "unread", "%d", u); } }
                    vc_progress(); if (eof) { CHECK(d.rpos == d.in.size(), "eof", "end of file after %zu of %zu bytes", d.rpos, d.in.size()); break; } if (c % 6 == 0) neco_yield(); }
                d.rid = 0; d.rdone = true; left--; });
            go([i] { Dx &d = DX[i]; d.wid = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
                for (size_t k = 0; !d.flushed; k++) { int c = (int)(mix64((uint64_t)d.wops[k % d.wops.size()] + k * 7919) & 0xfffff); size_t B = d.cap ? d.cap : 300; size_t want = std::min((size_t)(c / 7) % (c & 1 ? 3 * B + 3 : 9) + 1, d.out.size() - d.wpos); if (d.out.size() > 100000) want = std::min(want * 50, d.out.size() - d.wpos); int64_t dl = dlof(c / 3); dxops++; ssize_t z; bool fl = !want || c % 5 == 4; 
                    if (fl) { z = neco_stream_flush_dl(d.st, dl); if (z == NECO_OK && d.wpos == d.out.size()) d.flushed = true; if (z == NECO_OK) CHECK(neco_stream_buffered_write_size(d.st) == 0, "flush", "bytes are left after a flush"); } else { std::string b = d.out.substr(d.wpos, want); z = neco_stream_write_dl(d.st, b.data(), want, dl); CHECK(z <= (ssize_t)want, "count", "write of %zu returned %zd", want, z); std::fill(b.begin(), b.end(), '!'); if (z > 0) d.wpos += (size_t)z; }
                    if (z < 0) { int q = lasts((int)z); if (q == NECO_TIMEDOUT) dxto++; else if (q == NECO_CANCELED) { CHECK(cancels, "error", "nobody canceled the write"); dxca++; } else { CHECK(q == NECO_PARTIALWRITE && (dl != INT64_MAX || cancels), "error", "a write gave %zd (%s)", z, strerror(errno)); } }
                    vc_progress(); if (c % 6 == 0) neco_yield(); }
                d.wid = 0; d.wdone = true; left--; });
            go([i] { Dx &d = DX[i]; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); bool shut = false; std::vector<char> b(70000);
                for (size_t k = 0; !shut || d.got < d.out.size() || !d.flushed; k++) { int c = (int)(mix64((uint64_t)d.pops[k % d.pops.size()] + k * 7919) & 0xfffff); size_t B = d.cap ? d.cap : 300; size_t m = (size_t)(c / 11) % (2 * B) + 1; if (d.in.size() > 100000 || d.out.size() > 100000) m *= 60;
                    if (c & 1) { size_t q = std::min(m, d.in.size() - d.sent); ssize_t z = q ? __real_write(d.peer, d.in.data() + d.sent, q) : 0; if (z > 0) d.sent += (size_t)z; if (d.sent == d.in.size() && !shut) { shut = true; shutdown(d.peer, SHUT_WR); } }
                    else { ssize_t z = __real_read(d.peer, b.data(), std::min(m, b.size())); if (z > 0) { for (ssize_t x = 0; x < z; x++) CHECK(d.got + (size_t)x < d.out.size() && b[(size_t)x] == d.out[d.got + (size_t)x], "output", "byte %zu of the output is wrong", d.got + (size_t)x); d.got += (size_t)z; } }
                    if (cancels && c % 13 == 0) { int64_t id = c & 16 ? d.rid : d.wid; if (id) neco_cancel(id); }
                    if (c % 3) neco_yield(); else neco_sleep((c % 40) * 100000); if (k > 400000) fail("stuck", "%zu of %zu bytes were received, %zu of %zu written", d.rpos, d.in.size(), d.wpos, d.out.size()); }
                left--; }); }
        for (int k = 0; left && k < 4000000; k++) neco_sleep(1000000); CHECK(!left, "stuck", "the coroutines did not end");
        for (auto &d : DX) { CHECK(d.rpos == d.in.size() && d.got == d.out.size(), "lost", "%zu of %zu bytes came in, %zu of %zu out", d.rpos, d.in.size(), d.got, d.out.size()); CHECK(neco_stream_buffered_read_size(d.st) == 0 && neco_stream_buffered_write_size(d.st) == 0, "sizes", "buffered sizes are not zero at the end"); dxfd.erase(d.fd); CHECK(neco_stream_close(d.st) == NECO_OK, "close", "close failed"); char c; CHECK(__real_read(d.peer, &c, 1) == 0, "output", "extra output at close"); close(d.peer); }
    });
    bool big = false; for (auto &d : DX) big |= d.in.size() >= 200 && d.out.size() >= 200; nontrivial(big && dxops >= 20 && dxto + dxca + ninj >= 3); if (dxto) label("timed out and continued"); if (dxca) label("canceled and continued"); if (dxun) label("unread"); count("operations", dxops); count("injected", ninj);
}
