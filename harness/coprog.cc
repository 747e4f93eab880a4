#include "coprog.h"
#include <cstring>
#include <cstdlib>
#include <dirent.h>
#include <map>
#include <algorithm>
#include <unistd.h>

static const int CAPS[] = {0, 1, 2, 0, 3, 4, 0, 7, 16, 5, 33, 0, 300}, SIZES[] = {4, 8, 1, 4, 0, 3, 16, 8, 100, 1000, 5000, 128, 129, 17, 300, 20000, 70000};
static const char *WARM[] = {"returns", "exits", "is canceled in suspend", "is canceled inline, disables cancelation", "times out in a receive", "is canceled in a select", "ends with a cancel pending", "exits with handlers", "times out in a lock", "is canceled while it waits for a group", "ends with a past deadline", "is terminated in a sleep", "is terminated in a condition wait"};
static const char *KN[NKIND] = {"yield","compute","sleep","spawn","join","send","recv","tryrecv","broadcast","close",
    "select","tryselect","lock","rdlock","trylock","tryrdlock","unlock","wg_add","wg_done","wg_wait","cond_wait",
    "cond_signal","cond_broadcast","suspend","resume","cancel","setcanceltype","setcancelstate","exit","stats","chan_ref","gen_drop","chan_renew"};

// ---------------------------------------------------------------- generator
Program gen_program(Src &s, const Profile &p) {
    Program g; g.loose = p.loose;
    bool big = s.chance(p.bigpct);
    if (p.maxchan) {
        int n = s.range(1, p.maxchan);
        for (int i = 0; i < n; i++) {
            ChanSpec c;
            c.cap = CAPS[s.draw(13)];
            c.msgsize = SIZES[s.chance(2) ? 15 + s.draw(2) : s.draw(15)];
            g.chans.push_back(c);
        }
    }
    int ngen = 0;
    if (p.maxgen) {
        ngen = s.range(1, p.maxgen);
        for (int i = 0; i < ngen; i++) { ChanSpec c; c.gen = true; c.cap = 0; c.msgsize = s.pick<int>({4, 8, 1, 0, 3, 16, 100, 1000, 129}); g.chans.push_back(c); }
    }
    if (p.maxmu) g.nmu = s.range(1, p.maxmu);
    if (p.maxwg) g.nwg = s.range(1, p.maxwg);
    if (p.maxcond) g.ncond = s.range(1, p.maxcond);
    if (s.chance(25)) g.churn = s.chance(8) ? s.range(200, 300) : s.range(1, 20);
    if (s.chance(35)) { int n = s.range(1, 8); for (int i = 0; i < n; i++) g.warm.push_back((int)s.draw(13)); }
    bool longrun = !big && s.chance(6);
    bool herd = big && s.chance(60);              // most coroutines start with the same operations on the same objects
    int maxco = herd && s.chance(25) ? 300 : big ? 60 : p.maxco;
    int moreco = maxco == 300 ? 99 : herd ? 98 : big ? 97 : p.moreco;
    std::vector<Op> proto;
    int maxops = big ? 5 : p.maxops;
    std::vector<int> w(p.w, p.w + NKIND);
    // swarm: drop a random subset of op kinds in half of the programs
    if (s.chance(50)) for (int k = 0; k < NKIND; k++) if (w[k] && s.chance(20)) w[k] = 0;
    int tot = 0; for (int x : w) tot += x;
    if (!tot) w = std::vector<int>(p.w, p.w + NKIND);
    int uni = s.draw(4) == 3 ? 1 : 0; // uniform op kind favoured: long queues of one kind
    do {
        Script c;
        c.ctype = s.chance(p.asyncpct) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
        c.tidy = !s.chance(100 - p.cleanpct);
        if ((int)g.cos.size() < ngen) c.gen = (int)g.cos.size();
        c.top = c.gen >= 0 || g.cos.empty() || !w[K_SPAWN] || !s.chance(20);
        c.nargs = s.pick<int>({1, 2, 4, 5, 9});
        int fav = uni ? s.weighted(w) : -1;
        bool copy = herd && c.gen < 0 && !proto.empty() && s.chance(90);
        if (copy) c.ops = proto;
        if (!copy) do {
            Op o; o.k = (Kind)(fav >= 0 && s.chance(40) ? fav : s.weighted(w));
            auto dl = [&](int pct) {
                if (s.chance(pct)) {
                    o.hasdl = true;
                    static const int64_t R[] = {2000000, 50000, 10000000, 2000000, 700000000, 0, -1000000, 1000000, 3000000000LL};
                    int64_t r = R[s.draw(9)];
                    o.rel = r <= 0 ? (r == 0 ? 5000 : r) : r + (int64_t)s.draw(7) * 1000000;
                }
            };
            switch (o.k) {
            case K_COMPUTE: { static const int64_t R[] = {1000000, 3000000, 20000000, 1000, 900000000}; o.rel = R[s.draw(5)]; break; }
            case K_SLEEP: { static const int64_t R[] = {1000000, 2000000, 500000, 10000000, 50000, 600000000, 3000000, -5}; o.rel = R[s.draw(8)]; if (o.rel > 0) o.rel += (int64_t)s.draw(5) * 1000000; o.arg = (int)s.draw(2); break; }
            case K_SPAWN: case K_JOIN: case K_RESUME: case K_CANCEL: o.obj = (int)s.draw(64); if (o.k == K_JOIN || o.k == K_CANCEL) dl(p.dlpct); break;
            case K_SEND: case K_RECV: o.obj = (int)s.draw((uint32_t)g.chans.size()); dl(p.dlpct); break;
            case K_TRYRECV: case K_BCAST: case K_CLOSE: case K_CHREF: case K_GDROP: o.obj = (int)s.draw((uint32_t)g.chans.size()); break;
            case K_SELECT: case K_TRYSELECT: {
                int nc = 1 + (int)s.draw(3); if (s.chance(6)) nc = 9 + (int)s.draw(4); if (s.chance(2) ) nc = 0; else if (s.chance(2)) nc = s.pick<int>({16, 17, 33, 70, 260});
                for (int i = 0; i < nc; i++) o.cases.push_back((int)s.draw((uint32_t)g.chans.size()));
                o.varargs = s.chance(30) && nc <= 3;
                if (o.k == K_SELECT) { if (nc == 0) { o.hasdl = true; o.rel = 1000000; } else dl(p.dlpct); } break; }
            case K_LOCK: case K_RDLOCK: o.obj = (int)s.draw((uint32_t)g.nmu); dl(p.dlpct); break;
            case K_TRYLOCK: case K_TRYRDLOCK: case K_UNLOCK: o.obj = (int)s.draw((uint32_t)g.nmu); break;
            case K_WGADD: o.obj = (int)s.draw((uint32_t)g.nwg); o.arg = s.pick<int>({1, 2, 1, 3, 5, -1, -2, 0}); if (s.chance(3)) o.arg = s.pick<int>({300, -300, 70000, -70000, 255, -255, 1000000, -1000000}); break;
            case K_WGDONE: o.obj = (int)s.draw((uint32_t)g.nwg); break;
            case K_WGWAIT: o.obj = (int)s.draw((uint32_t)g.nwg); dl(p.dlpct); break;
            case K_CWAIT: o.obj = (int)s.draw((uint32_t)g.ncond); o.arg = (int)s.draw((uint32_t)g.nmu); dl(p.dlpct); break;
            case K_CSIGNAL: case K_CBCAST: o.obj = (int)s.draw((uint32_t)g.ncond); break;
            case K_SUSPEND: dl(p.dlpct); break;
            case K_SETTYPE: o.arg = 1 + (int)s.draw(2); break;
            case K_SETSTATE: o.arg = 3 + (int)s.draw(2); break;
            case K_RENEW: o.obj = (int)s.draw((uint32_t)g.chans.size()); o.arg = (int)s.draw(13); o.rel = (int64_t)s.draw(15); break;
            default: break;
            }
            if (longrun && s.chance(30) && (o.k == K_SEND || o.k == K_RECV || o.k == K_YIELD || o.k == K_TRYRECV || o.k == K_BCAST || o.k == K_SELECT || o.k == K_SUSPEND || o.k == K_RESUME || o.k == K_WGWAIT || o.k == K_CSIGNAL || o.k == K_SLEEP)) o.rep = s.pick<int>({3, 10, 40, 300});
            c.ops.push_back(o);
        } while ((int)c.ops.size() < maxops && s.more(p.moreops));
        if (herd && c.gen < 0 && proto.empty()) { size_t k = 1 + s.draw(2); proto.assign(c.ops.begin(), c.ops.begin() + (long)std::min(k, c.ops.size())); }
        if (c.gen >= 0) for (auto &o : c.ops) if (o.k == K_SEND) o.obj = c.gen;
        g.cos.push_back(c);
    } while ((int)g.cos.size() < ngen || ((int)g.cos.size() < maxco && s.more(moreco)));
    int n = (int)g.cos.size();
    for (auto &c : g.cos) for (auto &o : c.ops)
        if (o.k == K_SPAWN || o.k == K_JOIN || o.k == K_RESUME || o.k == K_CANCEL) o.obj %= (n + (o.k == K_SPAWN ? 0 : 1));
    return g;
}
static std::string rop(const Op &o) {
    std::string r = KN[o.k]; if (o.rep > 1) r = strf("%d x ", o.rep) + r;
    switch (o.k) {
    case K_YIELD: case K_SUSPEND: case K_EXIT: case K_STATS: break;
    case K_COMPUTE: case K_SLEEP: r += strf("(%lld ns%s)", (long long)o.rel, o.k == K_SLEEP && o.arg ? ", as deadline" : ""); return r;
    case K_SELECT: case K_TRYSELECT: r += "("; for (int c : o.cases) r += strf("ch%d ", c); r += ")"; break;
    case K_WGADD: r += strf("(wg%d,%d)", o.obj, o.arg); break;
    case K_CWAIT: r += strf("(cv%d,mu%d)", o.obj, o.arg); break;
    case K_SETTYPE: r += o.arg == 1 ? "(async)" : "(inline)"; break;
    case K_SETSTATE: r += o.arg == 3 ? "(enable)" : "(disable)"; break;
    case K_SPAWN: case K_JOIN: case K_RESUME: case K_CANCEL: r += strf("(c%d)", o.obj); break;
    case K_RENEW: r += strf("(ch%d, msgsize=%d capacity=%d)", o.obj, SIZES[o.rel], CAPS[o.arg]); return r;
    case K_SEND: case K_RECV: case K_TRYRECV: case K_BCAST: case K_CLOSE: case K_CHREF: case K_GDROP: r += strf("(ch%d)", o.obj); break;
    case K_LOCK: case K_RDLOCK: case K_TRYLOCK: case K_TRYRDLOCK: case K_UNLOCK: r += strf("(mu%d)", o.obj); break;
    case K_WGDONE: case K_WGWAIT: r += strf("(wg%d)", o.obj); break;
    default: r += strf("(cv%d)", o.obj);
    }
    if (o.hasdl) r += strf("[deadline now%+lld ns]", (long long)o.rel);
    return r;
}
std::string render_program(const Program &p) {
    std::string r;
    for (size_t i = 0; i < p.chans.size(); i++) r += strf("ch%zu: msgsize=%d %s\n", i, p.chans[i].msgsize, p.chans[i].gen ? "generator (send = gen_yield, recv = gen_next, close = gen_close)" : strf("capacity=%d", p.chans[i].cap).c_str());
    if (p.churn) r += strf("before: %d channels made, used and released\n", p.churn);
    for (int w : p.warm) r += strf("before: a coroutine that %s\n", WARM[w]);
    r += strf("mutexes=%d waitgroups=%d conds=%d\n", p.nmu, p.nwg, p.ncond);
    for (size_t i = 0; i < p.cos.size(); i++) {
        const Script &c = p.cos[i];
        r += strf("c%zu (%s, %s%s): ", i, c.top ? "started by main" : "started by spawn", c.ctype == 1 ? "async cancel" : "inline cancel", c.tidy ? "" : ", keeps its locks");
        if (c.gen >= 0) r += strf("[generator of ch%d] ", c.gen);
        for (auto &o : c.ops) r += rop(o) + "; ";
        r += "\n";
    }
    return r;
}

// ---------------------------------------------------------------- model + execution
typedef std::string Bytes;
enum St { IDLE, DONE, BLK };
struct Cur {
    St st = IDLE; const Op *op = nullptr; Kind k = K_YIELD; int expect = 0; int alt = 0; bool hasalt = false;
    bool hasdl = false; int64_t dl = INT64_MAX; Bytes msg; bool hasmsg = false; bool closed = false; int target = -1;
    bool granted = false; bool maybe = false; bool unlockedRelock = false; bool maysig = false; int seen = 0; int selidx = -1;
};
struct MCo {
    int idx; int64_t id = 0; bool started = false, ended = false; int pc = -1; Cur cur; bool cancel = false; int ctype = 2; bool dis = false;
    std::vector<int> joinw, cancw, maybec; std::map<int, int> holds; int64_t starter = 0; int64_t lastid = 0; bool exiting = false; bool inclean = false; bool soft = false; int consumed = 0;
};
struct MChan { ChanSpec sp; bool dropped = false; std::deque<Bytes> buf; std::deque<int> snd; std::deque<std::pair<int,int>> rcv; bool sclosed = false, rclosed = false; neco_chan *c = nullptr; int refs = 0; };
struct MMu { int writer = -1; std::set<int> rd; std::deque<std::pair<int,bool>> q; neco_mutex m; int realw = 0, realr = 0; };
struct MWg { int count = 0; std::deque<int> q; neco_waitgroup w; };
struct MCv { std::deque<int> q; neco_cond c; int fz_must = 0, fz_max = 0, fz_ok = 0; };

static const Program *P; static RunOpts RO; static RunInfo *RI;
static std::vector<MCo> C; static std::vector<MChan> CH; static std::vector<MMu> MU; static std::vector<MWg> WG; static std::vector<MCv> CV;
static bool draining; static int64_t t_start; static std::vector<std::string> TR; static uint32_t serial;
static int SUP; static std::set<int64_t> ids; static int live_model;

static std::string render_run() {
    std::string r = render_program(*P);
    r += "-- trace (time since start in ns, coroutine, operation, result) --\n";
    size_t n = TR.size(), st = n > 160 ? n - 160 : 0;
    if (st) r += strf("... %zu earlier events\n", st);
    for (size_t i = st; i < n; i++) r += TR[i] + "\n";
    return r;
}
static std::string cn(int i) { return i == SUP ? "main" : strf("c%d", i); }
static void ev(int co, const char *ph, const Op *op, int rc) {
    vc_progress();
    RI->events++;
    RI->loghash = mix64(RI->loghash ^ mix64((uint64_t)co * 131 + (uint64_t)(uintptr_t)(ph[0]) * 7 + (op ? (uint64_t)op->k * 1009 : 0) + (uint64_t)(int64_t)rc * 65537));
    if (TR.size() < 20000) TR.push_back(strf("%12lld %s %s %s%s", (long long)(vc_now() - t_start), cn(co).c_str(), ph, op ? rop(*op).c_str() : "", ph[0] == 'r' ? strf(" -> %d", rc).c_str() : ""));
}
#define F(kind, ...) fail(kind, "%s: %s", (draining ? "[drain] " : ""), strf(__VA_ARGS__).c_str())

static void grant(int ci, int rc) {
    Cur &c = C[(size_t)ci].cur;
    if (c.st != BLK) F("model", "internal: grant to non-blocked c%d", ci);
    c.st = DONE; c.granted = true; c.expect = rc; RI->grants++; RI->gk[c.k]++;
    if (c.hasdl && vc_now() > c.dl) RI->ngranted_past_deadline++;
}
template <class T, class V> static void erase_all(T &q, V pred) { q.erase(std::remove_if(q.begin(), q.end(), pred), q.end()); }
static void unqueue(int ci) {
    for (auto &h : CH) { erase_all(h.snd, [&](int x) { return x == ci; }); erase_all(h.rcv, [&](const std::pair<int,int> &x) { return x.first == ci; });
        if (h.sclosed && h.buf.empty() && h.snd.empty()) h.rclosed = true; }
    for (auto &m : MU) erase_all(m.q, [&](const std::pair<int,bool> &x) { return x.first == ci; });
    for (auto &w : WG) erase_all(w.q, [&](int x) { return x == ci; });
    for (auto &v : CV) erase_all(v.q, [&](int x) { return x == ci; });
    for (auto &c : C) { erase_all(c.joinw, [&](int x) { return x == ci; }); erase_all(c.cancw, [&](int x) { return x == ci; }); erase_all(c.maybec, [&](int x) { return x == ci; }); }
}
static void done(MCo &c, int rc) { c.cur.st = DONE; c.cur.expect = rc; }
static void block(MCo &c, const Op &o) {
    c.cur.st = BLK; RI->blocked_ops++;
    if (o.hasdl) { c.cur.hasdl = true; }
}
static bool canceled(MCo &c) { if (c.cancel) { c.cancel = false; c.consumed++; done(c, NECO_CANCELED); return true; } return false; }
static Bytes payload(int sz) { serial++; Bytes b((size_t)sz, 0); for (int i = 0; i < sz; i++) b[(size_t)i] = (char)(mix64((uint64_t)serial * 65599 + (uint64_t)i / 8) >> (8 * (i % 8))); return b; }
// hand message to first waiting receiver
static void give(MChan &h, int hi, const Bytes &b) {
    auto r = h.rcv.front(); h.rcv.pop_front();
    Cur &c = C[(size_t)r.first].cur; int rc = NECO_OK;
    if (r.second >= 0) { rc = r.second; int ci = r.first; for (auto &x : CH) erase_all(x.rcv, [&](const std::pair<int,int> &y) { return y.first == ci; }); }
    (void)hi; c.msg = b; c.hasmsg = true; grant(r.first, rc);
}
static bool mrecv(MChan &h, Bytes &out) { // immediately available message
    if (!h.buf.empty()) {
        out = h.buf.front(); h.buf.pop_front();
        if (!h.snd.empty()) { int s = h.snd.front(); h.snd.pop_front(); h.buf.push_back(C[(size_t)s].cur.msg); grant(s, NECO_OK); }
        if (h.sclosed && h.buf.empty() && h.snd.empty()) h.rclosed = true;
        return true;
    }
    if (!h.snd.empty()) {
        int s = h.snd.front(); h.snd.pop_front(); out = C[(size_t)s].cur.msg; grant(s, NECO_OK);
        if (h.sclosed && h.buf.empty() && h.snd.empty()) h.rclosed = true;
        return true;
    }
    return false;
}
static void mu_handoff(MMu &m) {
    while (!m.q.empty()) {
        auto x = m.q.front(); m.q.pop_front();
        if (x.second) m.rd.insert(x.first); else m.writer = x.first;
        C[(size_t)x.first].holds[(int)(&m - &MU[0])] = x.second ? 1 : 2;
        grant(x.first, NECO_OK);
        if (x.second && !m.q.empty() && m.q.front().second) continue;
        break;
    }
}
static void mclose(MChan &h) {
    h.sclosed = true;
    if (!h.buf.empty() || !h.snd.empty()) return;
    h.rclosed = true;
    while (!h.rcv.empty()) {
        auto r = h.rcv.front(); h.rcv.pop_front(); Cur &x = C[(size_t)r.first].cur; x.closed = true;
        if (r.second >= 0) { int q = r.first; for (auto &y : CH) erase_all(y.rcv, [&](const std::pair<int,int> &z) { return z.first == q; }); grant(r.first, r.second); }
        else grant(r.first, NECO_CLOSED);
    }
}
static bool past(MCo &c) { return c.cur.dl < vc_now(); }
static bool alive(int t) { return t >= 0 && t < SUP && C[(size_t)t].started && !C[(size_t)t].ended; }

static void invoke(int ci, const Op &o) {
    MCo &c = C[(size_t)ci]; c.cur = Cur(); c.cur.op = &o; c.cur.k = o.k; c.cur.hasdl = o.hasdl;
    c.cur.dl = o.hasdl ? vc_now() + o.rel : INT64_MAX;
    ev(ci, "call", &o, 0);
    switch (o.k) {
    case K_YIELD: case K_COMPUTE: case K_SETTYPE: case K_EXIT: case K_STATS: case K_CHREF: case K_GDROP: case K_RENEW: done(c, NECO_OK); break;
    case K_SLEEP:
        c.cur.dl = vc_now() + o.rel; 
        if (o.rel < 0) { done(c, NECO_TIMEDOUT); break; }
        if (canceled(c)) break;
        c.cur.hasdl = true; c.cur.st = BLK; break;
    case K_SPAWN: done(c, NECO_OK); break;
    case K_JOIN: {
        int t = o.obj; c.cur.target = t;
        if (!alive(t)) { done(c, NECO_OK); break; }
        if (canceled(c)) break;
        if (o.hasdl && past(c)) { done(c, NECO_TIMEDOUT); break; }
        if (t == ci) { done(c, NECO_PERM); break; }
        block(c, o); C[(size_t)t].joinw.push_back(ci); break; }
    case K_SEND: {
        MChan &h = CH[(size_t)o.obj];
        if (h.sp.gen && P->cos[(size_t)ci].gen != o.obj) { done(c, NECO_NOTGENERATOR); break; }
        if (h.sclosed) { c.cur.msg = payload(h.sp.msgsize); done(c, NECO_CLOSED); break; }
        c.cur.msg = payload(h.sp.msgsize);
        if (canceled(c)) break;
        if (!h.rcv.empty()) { give(h, o.obj, c.cur.msg); done(c, NECO_OK); break; }
        if ((int)h.buf.size() < h.sp.cap) { h.buf.push_back(c.cur.msg); done(c, NECO_OK); break; }
        h.snd.push_back(ci); block(c, o); RI->maxqueue = std::max(RI->maxqueue, (int)h.snd.size()); break; }
    case K_RECV: case K_TRYRECV: {
        MChan &h = CH[(size_t)o.obj];
        if (h.rclosed) { done(c, NECO_CLOSED); break; }
        if (canceled(c)) break;
        if (mrecv(h, c.cur.msg)) { c.cur.hasmsg = true; done(c, NECO_OK); break; }
        if (o.k == K_TRYRECV) { done(c, NECO_EMPTY); break; }
        h.rcv.push_back({ci, -1}); block(c, o); RI->maxqueue = std::max(RI->maxqueue, (int)h.rcv.size()); break; }
    case K_BCAST: {
        MChan &h = CH[(size_t)o.obj]; c.cur.msg = payload(h.sp.msgsize);
        if (h.sclosed) { done(c, NECO_CLOSED); break; }
        int n = 0; while (!h.rcv.empty()) { give(h, o.obj, c.cur.msg); n++; }
        done(c, n); break; }
    case K_CLOSE: {
        MChan &h = CH[(size_t)o.obj];
        if (h.sclosed) { done(c, NECO_CLOSED); break; }
        done(c, NECO_OK); mclose(h); break; }
    case K_SELECT: case K_TRYSELECT: {
        if (canceled(c)) break;
        bool fin = false;
        for (size_t i = 0; i < o.cases.size() && !fin; i++) {
            MChan &h = CH[(size_t)o.cases[i]];
            if (h.rclosed) { c.cur.closed = true; done(c, (int)i); fin = true; }
            else if (mrecv(h, c.cur.msg)) { c.cur.hasmsg = true; done(c, (int)i); fin = true; }
        }
        if (fin) break;
        if (o.k == K_TRYSELECT) { done(c, NECO_EMPTY); break; }
        for (size_t i = 0; i < o.cases.size(); i++) CH[(size_t)o.cases[i]].rcv.push_back({ci, (int)i});
        block(c, o); break; }
    case K_LOCK: case K_RDLOCK: case K_TRYLOCK: case K_TRYRDLOCK: {
        MMu &m = MU[(size_t)o.obj]; bool rd = o.k == K_RDLOCK || o.k == K_TRYRDLOCK, tr = o.k == K_TRYLOCK || o.k == K_TRYRDLOCK;
        if (!tr) { if (canceled(c)) break; if (o.hasdl && past(c)) { done(c, NECO_TIMEDOUT); break; } }
        if (P->loose) { // resolved at return
            c.cur.st = BLK; if (!tr) m.q.push_back({ci, rd}); break; }
        bool busy = rd ? (m.writer >= 0 || !m.q.empty()) : (m.writer >= 0 || !m.rd.empty());
        if (!busy) { if (rd) m.rd.insert(ci); else m.writer = ci; c.holds[o.obj] = rd ? 1 : 2; done(c, NECO_OK); break; }
        if (tr) { done(c, NECO_BUSY); break; }
        m.q.push_back({ci, rd}); block(c, o); RI->maxqueue = std::max(RI->maxqueue, (int)m.q.size()); break; }
    case K_UNLOCK: {
        MMu &m = MU[(size_t)o.obj]; done(c, NECO_OK); c.holds.erase(o.obj);
        if (m.writer == ci) m.writer = -1; else { m.rd.erase(ci); if (!m.rd.empty()) break; }
        if (!P->loose) mu_handoff(m);
        break; }
    case K_WGADD: case K_WGDONE: {
        MWg &w = WG[(size_t)o.obj]; int n = w.count + (o.k == K_WGADD ? o.arg : -1);
        if (n < 0) { done(c, NECO_NEGWAITGRP); break; }
        bool z = n == 0 && (w.count > 0); w.count = n; done(c, NECO_OK);
        if (z) while (!w.q.empty()) { int x = w.q.front(); w.q.pop_front(); grant(x, NECO_OK); }
        break; }
    case K_WGWAIT: {
        MWg &w = WG[(size_t)o.obj];
        if (canceled(c)) break;
        if (o.hasdl && past(c)) { done(c, NECO_TIMEDOUT); break; }
        if (w.count == 0) { done(c, NECO_OK); break; }
        w.q.push_back(ci); block(c, o); break; }
    case K_CWAIT: {
        MMu &m = MU[(size_t)o.arg];
        if (canceled(c)) break;
        if (m.writer == ci) m.writer = -1; else m.rd.erase(ci);
        c.holds.erase(o.arg); c.cur.unlockedRelock = true;
        CV[(size_t)o.obj].q.push_back(ci); block(c, o); RI->maxqueue = std::max(RI->maxqueue, (int)CV[(size_t)o.obj].q.size()); break; }
    case K_CSIGNAL: case K_CBCAST: {
        MCv &v = CV[(size_t)o.obj]; done(c, NECO_OK);
        // A waiter that was canceled or timed out may or may not have left the
        // queue already (it may be waiting for the mutex): such a waiter may,
        // but need not, be the one that is signaled.
        auto doubt = [&](int x) { MCo &y = C[(size_t)x]; return y.cancel || (y.cur.hasdl && y.cur.dl < vc_now()); };
        if (o.k == K_CBCAST) {
            std::deque<int> q; q.swap(v.q);
            for (int x : q) {
                bool d = doubt(x); Cur &y = C[(size_t)x].cur;
                if (d || y.maysig) v.fz_max++;
                if (d) { y.maysig = true; v.q.push_back(x); } else grant(x, NECO_OK);
            }
            break;
        }
        if (v.q.empty()) break;
        if (!doubt(v.q.front()) && !C[(size_t)v.q.front()].cur.maysig) { int x = v.q.front(); v.q.pop_front(); grant(x, NECO_OK); break; }
        v.fz_max++;
        for (int x : v.q) { bool first = !doubt(x) && !C[(size_t)x].cur.maysig; C[(size_t)x].cur.maysig = true; if (first) { v.fz_must++; break; } }
        break; }
    case K_SUSPEND: if (canceled(c)) break; block(c, o); break;
    case K_RESUME: {
        int t = o.obj;
        if (!alive(t)) { done(c, NECO_NOTFOUND); break; }
        Cur &x = C[(size_t)t].cur;
        if (x.st == BLK && x.k == K_SUSPEND) { grant(t, NECO_OK); done(c, NECO_OK); }
        else if (x.st == DONE && x.k == K_SUSPEND && x.granted) { done(c, NECO_OK); c.cur.alt = NECO_NOTSUSPENDED; c.cur.hasalt = true; }
        else done(c, NECO_NOTSUSPENDED);
        break; }
    case K_CANCEL: {
        int t = o.obj; c.cur.target = t;
        if (!alive(t)) { done(c, NECO_NOTFOUND); break; }
        if (canceled(c)) break;
        if (o.hasdl && past(c)) { done(c, NECO_TIMEDOUT); break; }
        MCo &x = C[(size_t)t];
        if (!x.dis) { x.cancel = true; done(c, NECO_OK); break; }
        x.cancw.push_back(ci); block(c, o); break; }
    case K_SETSTATE: {
        done(c, NECO_OK); bool d = o.arg == NECO_CANCEL_DISABLE; c.dis = d;
        if (!d) { for (int x : c.cancw) { C[(size_t)x].cur.maybe = true; C[(size_t)x].cur.seen = c.consumed; c.maybec.push_back(x); } c.cancw.clear(); }
        break; }
    default: break;
    }
}
static void loose_acquire(int ci, int mi, bool rd, const char *what) {
    MMu &m = MU[(size_t)mi];
    if (m.writer >= 0 || (!rd && !m.rd.empty()))
        F("exclusion", "%s returned holding mu%d in %s while %s holds it", what, mi, cn(ci).c_str(), m.writer >= 0 ? cn(m.writer).c_str() : "a reader");
    if (rd) m.rd.insert(ci); else m.writer = ci;
    C[(size_t)ci].holds[mi] = rd ? 1 : 2;
    erase_all(m.q, [&](const std::pair<int,bool> &x) { return x.first == ci; });
}
static void real_cs(int ci, int mi, bool rd) { // independent exclusion counters
    (void)ci; MMu &m = MU[(size_t)mi];
    if (rd) { m.realr++; CHECK(m.realw == 0, "exclusion", "reader entered mu%d while a writer is inside", mi); }
    else { m.realw++; CHECK(m.realw == 1 && m.realr == 0, "exclusion", "writer entered mu%d with %d writers and %d readers inside", mi, m.realw, m.realr); }
}
static void real_leave(int mi, bool rd) { if (rd) MU[(size_t)mi].realr--; else MU[(size_t)mi].realw--; }

static bool take_cancel(MCo &c) {
    c.consumed++;
    if (c.cancel) { c.cancel = false; return true; }
    if (!c.maybec.empty()) {
        int x = c.maybec.front(); c.maybec.erase(c.maybec.begin());
        Cur &k = C[(size_t)x].cur; k.maybe = false; k.st = DONE; k.granted = true; k.expect = NECO_OK; k.target = -2; return true;
    }
    if (c.soft) { c.soft = false; return true; } // two cancelers may be answered by one cancelation
    return false;
}
static void fz_ok(MCv &v, const Op &o) {
    v.fz_ok++; CHECK(v.fz_ok <= v.fz_max, "unexplained", "%s returned OK more often than it was signaled", rop(o).c_str());
}
static void returned(int ci, int rc, int le) {
    MCo &c = C[(size_t)ci]; Cur &u = c.cur; const Op &o = *u.op; int64_t now = vc_now();
    ev(ci, "ret ", &o, rc);
    if (rc == NECO_CLOSED || (u.closed && rc >= 0)) RI->closed_results++;
    if (rc < 0 && rc != -1) CHECK(le == rc, "lasterr", "%s returned %d but neco_lasterr() is %d", rop(o).c_str(), rc, le);
    else if (rc >= 0 && o.k != K_COMPUTE && o.k != K_STATS && o.k != K_CHREF && o.k != K_GDROP && o.k != K_RENEW) CHECK(le == 0, "lasterr", "%s returned %d but neco_lasterr() is %d", rop(o).c_str(), rc, le);
    if (o.k == K_YIELD && c.cancel && !c.dis && c.ctype == NECO_CANCEL_ASYNC) F("cancel-ignored", "%s was canceled and has async cancelation, but went on after a yield", cn(ci).c_str());
    if (u.st == DONE) {
        if (rc != u.expect && !(u.hasalt && rc == u.alt)) {
            // no message, lock or signal is lost when these report the (real) timeout or cancelation instead
            bool harmless = u.k == K_WGWAIT || u.k == K_JOIN || u.k == K_SUSPEND || u.k == K_CANCEL || u.expect == NECO_CLOSED || (u.k == K_SELECT && u.closed);
            if (u.granted && harmless && rc == NECO_TIMEDOUT && u.hasdl && now >= u.dl) { RI->timeouts++; return; }
            if (u.granted && harmless && rc == NECO_CANCELED && take_cancel(c)) { RI->cancels++; return; }
            if (u.granted && (rc == NECO_TIMEDOUT || rc == NECO_CANCELED))
                F("lost-completion", "%s in %s returned %d although it had already been completed (result %d) by another coroutine", rop(o).c_str(), cn(ci).c_str(), rc, u.expect);
            F(rc == NECO_TIMEDOUT ? "early-timeout" : u.expect == NECO_TIMEDOUT ? "late" : rc == NECO_CANCELED ? "spurious-cancel" : u.expect == NECO_CANCELED ? "cancel-ignored" : "result", "%s in %s returned %d, expected %d", rop(o).c_str(), cn(ci).c_str(), rc, u.expect);
        }
        if (u.k == K_CWAIT && u.unlockedRelock) { loose_acquire(ci, o.arg, false, "cond_wait"); if (u.maysig) fz_ok(CV[(size_t)o.obj], o); }
    } else { // BLK, not granted
        bool ok = false;
        if (u.k == K_SLEEP && rc == NECO_OK) { CHECK(now >= u.dl, "early", "sleep in %s returned %lld ns before its deadline", cn(ci).c_str(), (long long)(u.dl - now)); ok = true; }
        else if ((u.k == K_LOCK || u.k == K_RDLOCK || u.k == K_TRYLOCK || u.k == K_TRYRDLOCK) && P->loose) {
            bool rd = u.k == K_RDLOCK || u.k == K_TRYRDLOCK;
            if (rc == NECO_OK) { loose_acquire(ci, o.obj, rd, KN[u.k]); ok = true; }
            else if (rc == NECO_BUSY && (u.k == K_TRYLOCK || u.k == K_TRYRDLOCK)) {
                MMu &m = MU[(size_t)o.obj]; bool held = m.writer >= 0 || !m.rd.empty(), inflight = !m.q.empty();
                for (auto &x : C) if (x.cur.st != IDLE && x.cur.k == K_CWAIT && x.cur.op->arg == o.obj) inflight = true;
                CHECK(held || inflight, "busy", "%s in %s returned BUSY on a free mutex nobody waits for", KN[u.k], cn(ci).c_str()); ok = true;
            }
        } else if (u.k == K_CWAIT && u.maysig && rc == NECO_OK) { fz_ok(CV[(size_t)o.obj], o); ok = true;
        } else if (u.k == K_CANCEL && u.maybe) {
            int t = u.target;
            if (rc == NECO_OK) { if (alive(t)) { if (C[(size_t)t].consumed > u.seen) C[(size_t)t].soft = true; else C[(size_t)t].cancel = true; } ok = true; }
        }
        if (!ok && rc == NECO_TIMEDOUT) {
            CHECK(u.hasdl && u.k != K_SLEEP, "early-timeout", "%s in %s returned TIMEDOUT without a deadline", rop(o).c_str(), cn(ci).c_str());
            CHECK(now >= u.dl, "early", "%s in %s timed out %lld ns before its deadline", rop(o).c_str(), cn(ci).c_str(), (long long)(u.dl - now));
            RI->timeouts++; ok = true;
        }
        if (!ok && rc == NECO_CANCELED) {
            CHECK(take_cancel(c), "spurious-cancel", "%s in %s returned CANCELED but nobody canceled it", rop(o).c_str(), cn(ci).c_str());
            RI->cancels++; ok = true;
        }
        if (!ok) F("unexplained", "%s in %s returned %d but nothing completed, canceled or timed out this operation", rop(o).c_str(), cn(ci).c_str(), rc);
        unqueue(ci);
        if (u.k == K_CWAIT && u.unlockedRelock) loose_acquire(ci, o.arg, false, "cond_wait");
    }
    if (rc == NECO_CANCELED) RI->cancels += u.st == DONE;
}
static void mark_end(int ci, bool async) {
    MCo &c = C[(size_t)ci];
    if (c.ended) F("double-exit", "coroutine %s terminated twice", cn(ci).c_str());
    if (async) {
        Cur &u = c.cur; bool expl = u.st != IDLE && u.k == K_EXIT;
        if (!expl) {
            RI->async_exits++;
            if (u.st == DONE && u.expect == NECO_CANCELED) {}
            else if (u.st == BLK) {
                CHECK(take_cancel(c), "spurious-cancel", "%s was terminated in %s but nobody canceled it", cn(ci).c_str(), u.op ? rop(*u.op).c_str() : "?");
                unqueue(ci);
            } else {
                CHECK(take_cancel(c), "spurious-cancel", "%s was terminated but nobody canceled it", cn(ci).c_str());
                if (u.granted && (u.k == K_SEND || u.k == K_RECV || u.k == K_SELECT || u.k == K_LOCK || u.k == K_RDLOCK || u.k == K_CWAIT))
                    F("lost-completion", "%s was terminated inside %s although that operation had already been completed by another coroutine", cn(ci).c_str(), rop(*u.op).c_str());
            }
            CHECK(c.ctype == NECO_CANCEL_ASYNC, "result", "%s has inline cancelation but was terminated", cn(ci).c_str());
            if (u.k == K_CWAIT && u.unlockedRelock && u.st != IDLE) loose_acquire(ci, u.op->arg, false, "cond_wait (canceled)"), real_cs(ci, u.op->arg, false);
        }
        c.cur.st = IDLE;
    }
    c.dis = true; c.cancel = false;
    ev(ci, async ? "exit (async)" : "end", nullptr, 0);
}
static void set_ended(int ci) {
    MCo &c = C[(size_t)ci]; c.ended = true; live_model--; c.cancel = false; c.cur.st = IDLE;
    for (int x : c.cancw) grant(x, NECO_NOTFOUND);
    for (int x : c.maybec) { Cur &k = C[(size_t)x].cur; k.maybe = false; k.st = DONE; k.granted = true; k.expect = NECO_NOTFOUND; k.hasalt = true; k.alt = NECO_OK; }
    c.cancw.clear(); c.maybec.clear();
    for (int x : c.joinw) grant(x, NECO_OK);
    c.joinw.clear();
    int g = ci < SUP ? P->cos[(size_t)ci].gen : -1;
    if (g >= 0 && !CH[(size_t)g].sclosed) mclose(CH[(size_t)g]);
}
static void check_stats(int ci) {
    RI->nstats++;
    neco_stats st; CHECK(neco_getstats(&st) == NECO_OK, "stats", "neco_getstats failed");
    struct R { size_t lo, hi; } snd = {0,0}, rcv = {0,0}, lk = {0,0}, wg = {0,0}, cv = {0,0}, sp = {0,0}, sl = {0,0};
    for (auto &c : C) {
        if (!c.started || c.ended || c.cur.st == IDLE || c.idx == ci) continue;
        bool b = c.cur.st == BLK && !c.cur.maybe, g = c.cur.st == DONE && c.cur.granted;
        auto add = [&](R &r) { if (b && !(c.cur.hasdl && vc_now() > c.cur.dl) && !c.cancel && !c.cur.maysig) r.lo++; if (b || g) r.hi++; };
        switch (c.cur.k) {
        case K_SEND: add(snd); break; case K_RECV: case K_SELECT: add(rcv); break;
        case K_LOCK: case K_RDLOCK: if (P->loose) lk.hi++; else add(lk); break;
        case K_WGWAIT: add(wg); break; case K_CWAIT: add(cv); lk.hi++; break; case K_SUSPEND: add(sp); break;
        case K_SLEEP: add(sl); break; default: break;
        }
    }
    auto in = [&](const char *n, size_t v, R r) { CHECK(v >= r.lo && v <= r.hi, "stats", "neco_getstats %s = %zu, model allows %zu..%zu", n, v, r.lo, r.hi); };
    in("senders", st.senders, snd); in("receivers", st.receivers, rcv); in("locked", st.locked, lk); in("waitgroupers", st.waitgroupers, wg);
    in("condwaiters", st.condwaiters, cv); in("suspended", st.suspended, sp); in("sleepers", st.sleepers, sl);
    CHECK(st.coroutines == (size_t)live_model, "stats", "neco_getstats coroutines = %zu, %d are alive", st.coroutines, live_model);
    CHECK(st.evwaiters == 0 && st.sigwaiters == 0, "stats", "evwaiters or sigwaiters nonzero");
}

struct Guarded { std::string b; size_t n; Guarded(size_t n_) : b(n_ + 16, (char)0xA5), n(n_) {} char *p() { return &b[8]; }
    void chk(const char *w) { for (int i = 0; i < 8; i++) if ((unsigned char)b[(size_t)i] != 0xA5 || (unsigned char)b[n + 8 + (size_t)i] != 0xA5) fail("overrun", "%s wrote outside the %zu byte message buffer", w, n); } };

static void co_main(int argc, void *argv[]);
static int spawn(int parent, int k) {
    const Script &sc = P->cos[(size_t)k]; int n = sc.nargs;
    void *av[16]; for (int i = 0; i < n; i++) av[i] = (void *)(intptr_t)(k * 100 + i + 1);
    C[(size_t)k].starter = C[(size_t)parent].id;
    neco_gen **G = sc.gen >= 0 ? (neco_gen **)&CH[(size_t)sc.gen].c : nullptr; size_t gs = G ? (size_t)CH[(size_t)sc.gen].sp.msgsize : 0;
    int rc = G ? (k & 1 ? neco_gen_startv(G, gs, co_main, n, av) : n == 1 ? neco_gen_start(G, gs, co_main, 1, av[0]) : n == 5 ? neco_gen_start(G, gs, co_main, 5, av[0], av[1], av[2], av[3], av[4]) : neco_gen_startv(G, gs, co_main, n, av))
        : k & 1 ? neco_startv(co_main, n, av)
        : n == 1 ? neco_start(co_main, 1, av[0]) : n == 2 ? neco_start(co_main, 2, av[0], av[1]) : n == 4 ? neco_start(co_main, 4, av[0], av[1], av[2], av[3])
        : n == 5 ? neco_start(co_main, 5, av[0], av[1], av[2], av[3], av[4]) : neco_start(co_main, 9, av[0], av[1], av[2], av[3], av[4], av[5], av[6], av[7], av[8]);
    CHECK(rc == NECO_OK, "start", "neco_start returned %d", rc);
    CHECK(C[(size_t)k].started, "start", "coroutine c%d had not begun to run when neco_start returned", k);
    CHECK(neco_lastid() == C[(size_t)k].id, "ids", "neco_lastid() = %lld after starting coroutine with id %lld", (long long)neco_lastid(), (long long)C[(size_t)k].id);
    C[(size_t)parent].lastid = C[(size_t)k].id;
    return rc;
}
static void release_all(int ci) {
    MCo &c = C[(size_t)ci];
    while (!c.holds.empty()) {
        int mi = c.holds.begin()->first; bool rd = c.holds.begin()->second == 1;
        static std::deque<Op> ops; ops.push_back(Op()); Op &o = ops.back(); o.k = K_UNLOCK; o.obj = mi;
        real_leave(mi, rd);
        invoke(ci, o); int rc = neco_mutex_unlock(&MU[(size_t)mi].m); returned(ci, rc, neco_lasterr()); c.cur.st = IDLE;
    }
}
static void on_async(void *arg) {
    int ci = (int)(intptr_t)arg;
    mark_end(ci, true);
    C[(size_t)ci].inclean = true;
    if (P->cos[(size_t)ci].tidy) release_all(ci);
    set_ended(ci);
}
static void exec_op(int ci, const Op &o);
static void co_main(int argc, void *argv[]) {
    int k = ((int)(intptr_t)argv[0] - 1) / 100; MCo &c = C[(size_t)k];
    CHECK(!c.started, "start", "coroutine c%d started twice", k);
    CHECK(argc == P->cos[(size_t)k].nargs, "args", "argc=%d expected %d", argc, P->cos[(size_t)k].nargs);
    for (int i = 0; i < argc; i++) CHECK((intptr_t)argv[i] == k * 100 + i + 1, "args", "argv[%d] of c%d is %ld, expected %d", i, k, (long)(intptr_t)argv[i], k * 100 + i + 1);
    c.id = neco_getid(); c.started = true; live_model++;
    CHECK(c.id > 0 && ids.insert(c.id).second, "ids", "coroutine id %lld is not unique", (long long)c.id);
    CHECK(neco_starterid() == c.starter, "ids", "neco_starterid()=%lld expected %lld", (long long)neco_starterid(), (long long)c.starter);
    CHECK(neco_lastid() == 0, "fresh-state", "neco_lastid()=%lld in a coroutine that started none", (long long)neco_lastid());
    int old = -1, olds = -1;
    CHECK(neco_setcanceltype(P->cos[(size_t)k].ctype, &old) == NECO_OK && old == NECO_CANCEL_ASYNC, "fresh-state", "initial cancel type is %d", old);
    CHECK(neco_setcancelstate(NECO_CANCEL_ENABLE, &olds) == NECO_OK && olds == NECO_CANCEL_ENABLE, "fresh-state", "initial cancel state is %d", olds);
    c.ctype = P->cos[(size_t)k].ctype; c.dis = false;
    ev(k, "begin", nullptr, 0);
    neco_cleanup_push(on_async, (void *)(intptr_t)k);
    const auto &ops = P->cos[(size_t)k].ops;
    for (size_t i = 0; i < ops.size() && !draining; i++) {
        c.pc = (int)i;
        CHECK(neco_getid() == c.id && neco_starterid() == c.starter && neco_lastid() == c.lastid, "ids", "identity of c%d changed during its life", k);
        for (int r = 0; r < ops[i].rep && !draining; r++) { exec_op(k, ops[i]); c.cur.st = IDLE; }
        for (int j = 0; j < argc; j++) CHECK((intptr_t)argv[j] == k * 100 + j + 1, "args", "argv[%d] of c%d changed during its life", j, k);
    }
    if (P->cos[(size_t)k].tidy || draining) release_all(k);
    neco_cleanup_pop(0);
    mark_end(k, false);
    set_ended(k);
}
static void exec_op(int ci, const Op &o) {
    MCo &c = C[(size_t)ci]; int rc = 0;
    int64_t D = INT64_MAX;
    // an operation may be inapplicable in the current dynamic state: skipped
    if (o.k == K_UNLOCK && !c.holds.count(o.obj)) return;
    if (o.k == K_RECV || o.k == K_TRYRECV || o.k == K_CLOSE || o.k == K_CHREF || o.k == K_GDROP) if (!CH[(size_t)o.obj].c || CH[(size_t)o.obj].dropped) return;
    if (o.k == K_RENEW) { MChan &h = CH[(size_t)o.obj]; if (h.sp.gen || !h.snd.empty() || !h.rcv.empty()) return;
        for (auto &x : C) if (x.idx != ci && x.cur.st != IDLE && x.cur.op) { if ((x.cur.k == K_SEND || x.cur.k == K_RECV || x.cur.k == K_BCAST || x.cur.k == K_CLOSE || x.cur.k == K_TRYRECV || x.cur.k == K_CHREF || x.cur.k == K_RENEW) && x.cur.op->obj == o.obj) return; if (x.cur.k == K_SELECT || x.cur.k == K_TRYSELECT) for (int q : x.cur.op->cases) if (q == o.obj) return; } }
    if (o.k == K_GDROP) { MChan &h = CH[(size_t)o.obj]; if (!h.sp.gen || h.refs > 0) return;
        for (auto &x : C) if (x.cur.st != IDLE && x.cur.op && x.cur.k == K_RECV && x.cur.op->obj == o.obj) return; }
    if (o.k == K_SPAWN && (o.obj >= (int)P->cos.size() || C[(size_t)o.obj].started || P->cos[(size_t)o.obj].top)) return;
    if (o.k == K_CANCEL && o.obj == ci && c.dis) return;
    if (o.k == K_CANCEL && o.obj < SUP) { MCo &x = C[(size_t)o.obj]; if (x.cancel && x.cur.st != IDLE && x.cur.k == K_CWAIT) return; } // which of the two is consumed is not observable
    if (!c.maybec.empty() || c.soft) switch (o.k) { // whether a canceler got through already is not observable here: nothing that a pending cancelation fails at once
    case K_CANCEL: case K_SEND: case K_RECV: case K_TRYRECV: case K_SELECT: case K_TRYSELECT: case K_LOCK: case K_RDLOCK: case K_JOIN: case K_WGWAIT: case K_CWAIT: return;
    default: break; }
    if (o.k == K_EXIT && c.inclean) return;
    if ((o.k == K_LOCK || o.k == K_RDLOCK || o.k == K_TRYRDLOCK) && c.holds.count(o.obj)) { // no recursive read locks, no certain self-deadlock
        if (o.k == K_LOCK && !o.hasdl) return;
        if (o.k == K_RDLOCK && (c.holds[o.obj] == 1 || !o.hasdl)) return;
        if (o.k == K_TRYRDLOCK && c.holds[o.obj] == 1) return;
    }
    if (o.k == K_CWAIT) {
        if (c.holds.count(o.arg) && c.holds[o.arg] != 2) return;
        if (!c.holds.count(o.arg)) {
            static std::deque<Op> ops; ops.push_back(Op()); Op &l = ops.back(); l.k = K_LOCK; l.obj = o.arg;
            exec_op(ci, l); C[(size_t)ci].cur.st = IDLE;
            if (!c.holds.count(o.arg) || draining) return;
        }
    }
    int64_t tid = 0;
    if (o.k == K_JOIN || o.k == K_RESUME || o.k == K_CANCEL) tid = o.obj < (int)C.size() - 1 && C[(size_t)o.obj].started ? C[(size_t)o.obj].id : 987654321;
    if (o.k == K_UNLOCK) real_leave(o.obj, c.holds[o.obj] == 1);
    int le = 0; bool havele = false;
    invoke(ci, o); D = c.cur.hasdl && o.k != K_SLEEP ? c.cur.dl : INT64_MAX;
    bool dl = o.hasdl;
    switch (o.k) {
    case K_YIELD: rc = neco_yield(); break;
    case K_COMPUTE: vc_t += o.rel; rc = 0; break;
    case K_SLEEP: rc = o.arg ? neco_sleep_dl(c.cur.dl) : neco_sleep(o.rel); break;
    case K_SPAWN: rc = spawn(ci, o.obj); break;
    case K_JOIN: rc = dl ? neco_join_dl(tid, D) : neco_join(tid); break;
    case K_SEND: { Bytes b = c.cur.msg; if (CH[(size_t)o.obj].sp.gen) { rc = dl ? neco_gen_yield_dl((void *)b.data(), D) : neco_gen_yield((void *)b.data()); CHECK(b == c.cur.msg, "sender-data", "yield modified the data"); break; }
        rc = dl ? neco_chan_send_dl(CH[(size_t)o.obj].c, (void *)b.data(), D) : neco_chan_send(CH[(size_t)o.obj].c, (void *)b.data());
        CHECK(b == c.cur.msg, "sender-data", "send modified the sender's data"); break; }
    case K_BCAST: { Bytes b = c.cur.msg; rc = neco_chan_broadcast(CH[(size_t)o.obj].c, (void *)b.data()); break; }
    case K_RECV: case K_TRYRECV: {
        MChan &h = CH[(size_t)o.obj]; Guarded g((size_t)h.sp.msgsize);
        rc = o.k == K_TRYRECV ? neco_chan_tryrecv(h.c, g.p()) : h.sp.gen ? (dl ? neco_gen_next_dl((neco_gen *)h.c, g.p(), D) : neco_gen_next((neco_gen *)h.c, g.p())) : dl ? neco_chan_recv_dl(h.c, g.p(), D) : neco_chan_recv(h.c, g.p());
        g.chk("recv");
        if (rc == NECO_OK && c.cur.st == DONE && c.cur.expect == NECO_OK)
            if (Bytes(g.p(), g.n) != c.cur.msg) { ev(ci, "ret ", &o, rc); F("message", "%s in %s received a message that is not the one due (FIFO order / integrity)", rop(o).c_str(), cn(ci).c_str()); }
        if (rc != NECO_OK && rc != NECO_CLOSED) for (size_t i = 0; i < g.n; i++) if ((unsigned char)g.p()[i] != 0xA5) F("message", "%s returned %d but modified the buffer", rop(o).c_str(), rc);
        break; }
    case K_CLOSE: rc = CH[(size_t)o.obj].sp.gen ? neco_gen_close((neco_gen *)CH[(size_t)o.obj].c) : neco_chan_close(CH[(size_t)o.obj].c); break;
    case K_GDROP: CH[(size_t)o.obj].dropped = true; rc = neco_gen_release((neco_gen *)CH[(size_t)o.obj].c); break;
    case K_SELECT: case K_TRYSELECT: {
        std::vector<neco_chan *> v; for (int x : o.cases) v.push_back(CH[(size_t)x].c); int n = (int)v.size(); v.push_back(nullptr);
        if (o.k == K_TRYSELECT) {
            if (o.varargs) rc = n == 1 ? neco_chan_tryselect(1, v[0]) : n == 2 ? neco_chan_tryselect(2, v[0], v[1]) : n == 3 ? neco_chan_tryselect(3, v[0], v[1], v[2]) : neco_chan_tryselect(0);
            else rc = neco_chan_tryselectv(n, v.data());
        } else if (dl) {
            if (o.varargs) rc = n == 1 ? neco_chan_select_dl(D, 1, v[0]) : n == 2 ? neco_chan_select_dl(D, 2, v[0], v[1]) : n == 3 ? neco_chan_select_dl(D, 3, v[0], v[1], v[2]) : neco_chan_select_dl(D, 0);
            else rc = neco_chan_selectv_dl(n, v.data(), D);
        } else {
            if (o.varargs) rc = n == 1 ? neco_chan_select(1, v[0]) : n == 2 ? neco_chan_select(2, v[0], v[1]) : neco_chan_select(3, v[0], v[1], v[2]);
            else rc = neco_chan_selectv(n, v.data());
        }
        le = neco_lasterr(); havele = true;
        if (rc >= 0) {
            CHECK(rc < n, "select", "select returned index %d of %d", rc, n);
            MChan &h = CH[(size_t)o.cases[(size_t)rc]]; Guarded g((size_t)h.sp.msgsize);
            int r2 = neco_chan_case(h.c, g.p()); g.chk("case");
            bool cl = c.cur.closed; int ex = cl ? NECO_CLOSED : NECO_OK;
            if (c.cur.st == DONE && c.cur.expect == rc) {
                if (r2 != ex) { ev(ci, "ret ", &o, rc); F("select-case", "neco_chan_case after %s (index %d) returned %d, expected %d", rop(o).c_str(), rc, r2, ex); }
                if (!cl && Bytes(g.p(), g.n) != c.cur.msg) { ev(ci, "ret ", &o, rc); F("message", "neco_chan_case after %s in %s gave a message that is not the one due", rop(o).c_str(), cn(ci).c_str()); }
            }
        }
        break; }
    case K_LOCK: case K_RDLOCK: case K_TRYLOCK: case K_TRYRDLOCK: {
        neco_mutex *m = &MU[(size_t)o.obj].m;
        rc = o.k == K_TRYLOCK ? neco_mutex_trylock(m) : o.k == K_TRYRDLOCK ? neco_mutex_tryrdlock(m)
            : o.k == K_LOCK ? (dl ? neco_mutex_lock_dl(m, D) : neco_mutex_lock(m)) : (dl ? neco_mutex_rdlock_dl(m, D) : neco_mutex_rdlock(m));
        if (rc == NECO_OK) real_cs(ci, o.obj, o.k == K_RDLOCK || o.k == K_TRYRDLOCK);
        break; }
    case K_UNLOCK: rc = neco_mutex_unlock(&MU[(size_t)o.obj].m); break;
    case K_WGADD: rc = neco_waitgroup_add(&WG[(size_t)o.obj].w, o.arg); break;
    case K_WGDONE: rc = neco_waitgroup_done(&WG[(size_t)o.obj].w); break;
    case K_WGWAIT: rc = dl ? neco_waitgroup_wait_dl(&WG[(size_t)o.obj].w, D) : neco_waitgroup_wait(&WG[(size_t)o.obj].w); break;
    case K_CWAIT: {
        neco_mutex *m = &MU[(size_t)o.arg].m; bool rel = c.cur.unlockedRelock;
        if (rel) real_leave(o.arg, false);
        rc = dl ? neco_cond_wait_dl(&CV[(size_t)o.obj].c, m, D) : neco_cond_wait(&CV[(size_t)o.obj].c, m);
        le = neco_lasterr(); havele = true;
        int t = neco_mutex_trylock(m);
        CHECK(t == NECO_BUSY, "cond-mutex", "cond_wait returned %d but the mutex is not held (trylock -> %d)", rc, t);
        if (rel) real_cs(ci, o.arg, false);
        break; }
    case K_CSIGNAL: rc = neco_cond_signal(&CV[(size_t)o.obj].c); break;
    case K_CBCAST: rc = neco_cond_broadcast(&CV[(size_t)o.obj].c); break;
    case K_SUSPEND: rc = dl ? neco_suspend_dl(D) : neco_suspend(); break;
    case K_RESUME: rc = neco_resume(tid); break;
    case K_CANCEL: rc = dl ? neco_cancel_dl(tid, D) : neco_cancel(tid); break;
    case K_SETTYPE: { int old = 0; rc = neco_setcanceltype(o.arg, &old); CHECK(old == c.ctype, "result", "old cancel type %d expected %d", old, c.ctype); c.ctype = o.arg; break; }
    case K_SETSTATE: { int old = 0; rc = neco_setcancelstate(o.arg, &old); (void)old; break; }
    case K_EXIT: neco_exit(); F("exit", "neco_exit() returned"); break;
    case K_STATS: check_stats(ci); rc = 0; break;
    case K_CHREF: { MChan &h = CH[(size_t)o.obj]; if (h.refs > 0 && (c.pc & 1)) { h.refs--; rc = h.sp.gen ? neco_gen_release((neco_gen *)h.c) : neco_chan_release(h.c); } else { h.refs++; rc = h.sp.gen ? neco_gen_retain((neco_gen *)h.c) : neco_chan_retain(h.c); } break; }
    case K_RENEW: { MChan &h = CH[(size_t)o.obj]; neco_chan *old = h.c; int refs = h.refs; bool first = c.pc & 1; ChanSpec sp; sp.cap = CAPS[o.arg]; sp.msgsize = SIZES[o.rel]; neco_chan *fresh = nullptr;
        if (first) CHECK(neco_chan_make(&fresh, (size_t)sp.msgsize, (size_t)sp.cap) == NECO_OK, "make", "chan_make failed");
        for (int i = 0; i <= refs; i++) CHECK(neco_chan_release(old) == NECO_OK, "release", "chan_release failed");
        if (!first) CHECK(neco_chan_make(&fresh, (size_t)sp.msgsize, (size_t)sp.cap) == NECO_OK, "make", "chan_make failed");
        CHECK(fresh, "make", "chan_make gave no channel"); h = MChan(); h.sp = sp; h.c = fresh; break; }
    default: break;
    }
    if (!havele) le = neco_lasterr();
    returned(ci, rc, le);
}

void (*g_prog_done)(const RunInfo &);
[[noreturn]] static void pass_program() { if (g_prog_done) g_prog_done(*RI); label("ended-with-undrainable"); pass(); }
static void hang() { fail("hang", "the scheduler made no progress for %llu clock readings", (unsigned long long)vc_reads); }
static std::vector<ChanSpec> dummy;
// coroutines and channels that are gone before the program starts, so that it gets reused ones
static int w_left, w_kind; static neco_mutex w_mu, w_mu2; static neco_cond w_cv; static neco_waitgroup w_wg; static int64_t w_id;
static void w_end(void *) { w_left--; }
static void warm_co(int, void **) {
    int k = w_kind; w_id = neco_getid(); int x = 0; neco_chan *a = nullptr;
    if (k == 4 || k == 10) { neco_chan_make(&a, 4, 0); neco_chan_recv_dl(a, &x, k == 4 ? vc_now() + 1000 : 1); neco_chan_release(a); w_left--; return; }
    neco_cleanup_push(w_end, nullptr);
    switch (k) {
    case 1: neco_exit(); break;
    case 2: neco_suspend(); break;
    case 3: neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_suspend(); neco_setcancelstate(NECO_CANCEL_DISABLE, nullptr); break;
    case 5: { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_chan *b[3]; for (auto &q : b) neco_chan_make(&q, 4, 1); neco_chan_selectv(3, b); for (auto &q : b) neco_chan_release(q); break; }
    case 6: neco_cancel(neco_getid()); break;
    case 7: neco_cleanup_push(+[](void *) { neco_yield(); }, nullptr); neco_exit(); neco_cleanup_pop(0); break;
    case 8: neco_mutex_lock_dl(&w_mu, vc_now() + 1000); break;
    case 9: neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_waitgroup_wait(&w_wg); break;
    case 11: neco_sleep(NECO_HOUR); break;
    case 12: neco_mutex_lock(&w_mu2); neco_cleanup_push(+[](void *) { neco_mutex_unlock(&w_mu2); }, nullptr); neco_cond_wait(&w_cv, &w_mu2); neco_cleanup_pop(1); break;
    default: break;
    }
    neco_cleanup_pop(1);
}
static void warmup(MCo &me) {
    std::vector<neco_chan *> v;
    for (int i = 0; i < P->churn; i++) { neco_chan *c; int sz = SIZES[i % 8], cap = i % 3 == 2 ? CAPS[i % 9] : 0; CHECK(neco_chan_make(&c, (size_t)sz, (size_t)cap) == NECO_OK, "make", "chan_make failed"); char b[64] = {1}; if (cap) for (int k = 0; k < cap && k < i % 5; k++) neco_chan_send(c, b); if (i & 1) { if (i & 4) neco_chan_tryrecv(c, b); neco_chan_close(c); if (i & 2) neco_chan_tryrecv(c, b); } if (i % 7 == 3) { neco_chan_retain(c); neco_chan_release(c); } v.push_back(c); }
    for (size_t k = 0; k < 2; k++) for (size_t i = k; i < v.size(); i += 2) neco_chan_release(v[i]);
    if (P->warm.empty()) return;
    memset((void *)&w_mu, 0, sizeof w_mu); memset((void *)&w_mu2, 0, sizeof w_mu2); memset((void *)&w_cv, 0, sizeof w_cv); memset((void *)&w_wg, 0, sizeof w_wg);
    neco_mutex_lock(&w_mu); neco_waitgroup_add(&w_wg, 1); std::vector<int64_t> wids; w_left = 0;
    for (int k : P->warm) { w_kind = k; w_left++; CHECK(neco_start(warm_co, 0) == NECO_OK, "start", "neco_start failed"); CHECK(ids.insert(w_id).second, "ids", "coroutine id %lld is not unique", (long long)w_id); wids.push_back(w_id); }
    neco_yield();
    for (size_t i = 0; i < wids.size(); i++) { int k = P->warm[i]; if (k == 2 || k == 3 || k == 5 || k == 9 || k == 11 || k == 12) { int r = neco_cancel(wids[i]); CHECK(r == NECO_OK, "cancel", "canceling the coroutine that %s gave %d", WARM[k], r); } }
    for (size_t i = 0; i < wids.size(); i++) { int r = neco_join_dl(wids[i], vc_now() + NECO_SECOND * 100); CHECK(r == NECO_OK, "join", "the coroutine that %s did not end: %d", WARM[P->warm[i]], r); }
    neco_mutex_unlock(&w_mu); neco_waitgroup_done(&w_wg); CHECK(w_left == 0, "handlers", "%d coroutines ended without running their handlers", w_left); me.lastid = neco_lastid();
}
static void sup_main(int, void **) {
    MCo &me = C[(size_t)SUP]; me.id = neco_getid(); me.started = true; live_model++; ids.insert(me.id); me.ctype = NECO_CANCEL_INLINE;
    CHECK(neco_starterid() == 0 && neco_lastid() == 0, "ids", "first coroutine has starterid %lld lastid %lld", (long long)neco_starterid(), (long long)neco_lastid());
    neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
    warmup(me);
    for (auto &h : CH) if (!h.sp.gen) CHECK(neco_chan_make(&h.c, (size_t)h.sp.msgsize, (size_t)h.sp.cap) == NECO_OK, "make", "chan_make failed");
    for (size_t i = 0; i < MU.size(); i++) if (i & 1) neco_mutex_init(&MU[i].m);
    for (size_t i = 0; i < WG.size(); i++) if (i & 1) neco_waitgroup_init(&WG[i].w);
    for (size_t i = 0; i < CV.size(); i++) if (i & 1) neco_cond_init(&CV[i].c);
    int64_t T = 5000000000LL;
    for (auto &c : P->cos) for (auto &o : c.ops) if ((o.hasdl || o.k == K_SLEEP || o.k == K_COMPUTE) && o.rel > 0 && o.rel < INT64_MAX) T += o.rel * o.rep;
    for (size_t i = 0; i < P->cos.size(); i++) if (P->cos[i].top) spawn(SUP, (int)i);
    Op sl; sl.k = K_SLEEP; sl.rel = T; sl.arg = 1;
    exec_op(SUP, sl); me.cur.st = IDLE;
    while (me.cancel) { me.cancel = false; } // cannot happen: nobody targets main
    // ---- quiescent: nothing can run any more
    bool undrain = false; std::map<int, bool> fzskip;
    for (auto &c : C) {
        if (c.idx == SUP || !c.started || c.ended) { if (c.idx != SUP && !c.started && P->cos[(size_t)c.idx].top) F("start", "%s never ran", cn(c.idx).c_str()); continue; }
        Cur &u = c.cur; std::string w = cn(c.idx) + " in " + (u.op ? rop(*u.op) : std::string("?"));
        if (c.dis) undrain = true;
        if (u.k == K_CWAIT && u.unlockedRelock && u.st != IDLE) {
            MMu &m = MU[(size_t)u.op->arg]; bool due = u.st == DONE || u.hasdl || c.cancel; if (u.maysig) { if (m.writer >= 0 || !m.rd.empty()) fzskip[u.op->obj] = true; else if (u.st == DONE || u.hasdl || c.cancel) {} else { RI->stuck++; continue; } }
            if (due && m.writer < 0 && m.rd.empty()) F("lost-wakeup", "%s never returned although it was signaled, timed out or canceled and the mutex is free", w.c_str());
            if (due) { RI->stuck++; continue; }
        }
        if (u.st == DONE) F("lost-wakeup", "%s never returned although the operation was completed (result %d)", w.c_str(), u.expect);
        if (u.st == IDLE) F("lost-wakeup", "%s is neither running nor blocked", w.c_str());
        if (P->loose && (u.k == K_LOCK || u.k == K_RDLOCK)) { MMu &m = MU[(size_t)u.op->obj]; if (m.writer < 0 && m.rd.empty()) F("lost-wakeup", "%s waits for a mutex nobody holds", w.c_str()); }
        if (u.hasdl) F("stuck-deadline", "%s is still blocked %lld ns after its deadline", w.c_str(), (long long)(vc_now() - u.dl));
        if (c.cancel) F("stuck-cancel", "%s is still blocked although it was canceled", w.c_str());
        if (u.k == K_CANCEL && u.maybe && !C[(size_t)u.target].dis) F("stuck-cancel", "%s is still blocked although its target enabled cancelation", w.c_str());
        RI->stuck++;
    }
    for (size_t i = 0; i < CV.size(); i++) if (!fzskip[(int)i]) CHECK(CV[i].fz_ok >= CV[i].fz_must, "lost-wakeup", "cv%zu: %d signals had a waiter but only %d waiters returned", i, CV[i].fz_must, CV[i].fz_ok);
    check_stats(SUP);
    if (undrain || !RO.drain) pass_program();
    draining = true;
    static std::deque<Op> ops;
    for (int i = 0; i < SUP; i++) {
        if (!alive(i) || C[(size_t)i].dis) continue;
        ops.push_back(Op()); Op &o = ops.back(); o.k = K_CANCEL; o.obj = i; exec_op(SUP, o); me.cur.st = IDLE;
    }
    for (int i = 0; i < SUP; i++) {
        if (!C[(size_t)i].started) continue;
        ops.push_back(Op()); Op &o = ops.back(); o.k = K_JOIN; o.obj = i; exec_op(SUP, o); me.cur.st = IDLE;
        CHECK(C[(size_t)i].ended, "join", "join of %s returned before it ended", cn(i).c_str());
    }
    check_stats(SUP);
    for (auto &h : CH) { if (h.dropped || !h.c) continue; while (h.refs-- > 0) neco_chan_release(h.c); CHECK(neco_chan_release(h.c) == NECO_OK, "release", "chan_release failed"); }
    RI->drained = true;
    live_model--;
}
RunInfo run_program(const Program &p, const RunOpts &o) {
    RunInfo ri; P = &p; RO = o; RI = &ri;
    C.clear(); CH.clear(); MU.clear(); WG.clear(); CV.clear(); TR.clear(); ids.clear(); serial = 0; draining = false; live_model = 0;
    SUP = (int)p.cos.size();
    for (int i = 0; i <= SUP; i++) { C.emplace_back(); C.back().idx = i; }
    for (auto &c : p.chans) { CH.emplace_back(); CH.back().sp = c; }
    MU.resize((size_t)p.nmu); WG.resize((size_t)p.nwg); CV.resize((size_t)p.ncond);
    for (auto &m : MU) memset((void *)&m.m, 0, sizeof m.m);
    for (auto &m : WG) memset((void *)&m.w, 0, sizeof m.w);
    for (auto &m : CV) memset((void *)&m.c, 0, sizeof m.c);
    g_render = render_run;
    vc_on = 1; vc_budget = 3000000; vc_hang = hang; vc_progress(); t_start = vc_now();
    int f0 = count_fds(); long a0 = alloc_live();
    int rc = neco_start(sup_main, 0);
    CHECK(rc == NECO_OK, "runtime", "neco_start (runtime) returned %d", rc);
    CHECK(ri.drained, "runtime", "the runtime returned before the first coroutine finished");
    for (auto &c : C) CHECK(!c.started || c.ended || c.idx == SUP, "runtime", "the runtime returned while %s was still running", cn(c.idx).c_str());
    if (o.leakcheck) {
        CHECK(alloc_live() == a0, "leak", "%ld blocks allocated by the runtime were not freed", alloc_live() - a0);
        int f1 = count_fds(); CHECK(f1 == f0, "fdleak", "%d file descriptors before, %d after", f0, f1);
    }
    CHECK(neco_getid() == NECO_PERM, "runtime", "neco_getid() outside a coroutine is not PERM");
    return ri;
}

void program_labels(const RunInfo &r) {
    if (r.blocked_ops) label("has-blocked-op");
    if (r.grants) label("has-handoff");
    if (r.timeouts) label("has-timeout");
    if (r.cancels) label("has-cancel");
    if (r.async_exits) label("has-async-exit");
    if (r.stuck) label("ends-deadlocked");
    if (r.maxqueue >= 2) label("queue>=2");
    if (r.maxqueue >= 10) label("queue>=10");
    if (r.ngranted_past_deadline) label("completed-after-deadline");
    count("events", (uint64_t)r.events); count("handoffs", (uint64_t)r.grants);
}
