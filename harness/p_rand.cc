// C21: random bytes. A generated list of requests is run from the same seed
// several times in different surroundings (buffer contents and alignment,
// detours through other seeds, other coroutines and threads drawing bytes,
// deadlines); the seeded bytes must be the same every time, requests must fill
// exactly their bytes, and cryptographic bytes must not repeat.
#include "kit.h"
#include <atomic>
#include <pthread.h>
struct Rq { int n; bool crypto; bool detour; int64_t dseed; int dn; bool viaco; };
struct Env { int fill; int align; bool noise; bool thread; bool detours; bool deadlines; bool otherco; };
static std::vector<Rq> rq; static std::vector<std::vector<uint8_t>> out; static std::set<std::string> blocks; static std::vector<std::vector<int>> same; static int passes; static std::atomic<bool> tstop{false}; static uint64_t ndraw;
static const int G = 64;
static std::vector<uint8_t> draw(int n, bool crypto, const Env &e) {
    std::vector<uint8_t> b((size_t)(n + 2 * G + 8)); for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)(i * 7 + 3); uint8_t *p = b.data() + G + e.align; memset(p, e.fill, (size_t)n); ndraw++; vc_progress();
    int r = e.deadlines ? neco_rand_dl(p, (size_t)n, crypto ? NECO_CSPRNG : NECO_PRNG, neco_now() + 3600 * NECO_SECOND) : neco_rand(p, (size_t)n, crypto ? NECO_CSPRNG : NECO_PRNG); int le = neco_lasterr();
    CHECK(r == NECO_OK && le == NECO_OK, "result", "neco_rand of %d bytes returned %d, neco_lasterr() is %d", n, r, le);
    for (size_t i = 0; i < b.size(); i++) if (&b[i] < p || &b[i] >= p + n) CHECK(b[i] == (uint8_t)(i * 7 + 3), "overrun", "a request of %d bytes changed the byte at offset %ld", n, (long)(&b[i] - p));
    return std::vector<uint8_t>(p, p + n);
}
static void crypto_check(size_t idx, const std::vector<uint8_t> &v, int fill) {
    for (size_t i = 0; i + 16 <= v.size(); i += 16) CHECK(blocks.insert(std::string((const char *)&v[i], 16)).second, "repeats", "16 cryptographic bytes came out twice (byte %zu of a request of %zu)", i, v.size());
    auto &s = same[idx]; if (s.size() != v.size()) s.assign(v.size(), 0); for (size_t i = 0; i < v.size(); i++) s[i] += v[i] == (uint8_t)fill;
}
static void run_pass(int pass, int64_t seed, const Env &e) {
    static bool stop; stop = false; static int noisy; noisy = 0; if (e.noise) for (int k = 0; k < 2; k++) go([] { noisy++; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); while (!stop) { char b[300]; neco_rand(b, sizeof b, NECO_CSPRNG); neco_yield(); } noisy--; });
    int64_t old = 12345; CHECK(neco_rand_setseed(seed, &old) == NECO_OK, "result", "setseed failed");
    for (size_t i = 0; i < rq.size(); i++) {
        Rq &q = rq[i]; if (e.detours && q.detour) { int64_t cur = 0; int r = neco_rand_setseed(q.dseed, &cur); CHECK(r == NECO_OK && neco_lasterr() == NECO_OK, "result", "setseed returned %d", r); draw(q.dn, false, e); int64_t x = 0; r = neco_rand_setseed(cur, &x); CHECK(r == NECO_OK, "result", "setseed returned %d", r); }
        std::vector<uint8_t> v; if (e.otherco && q.viaco) { static std::vector<uint8_t> *vp; static bool fin; vp = &v; fin = false; static Env ee; ee = e; size_t k = i; go([k] { *vp = draw(rq[k].n, rq[k].crypto, ee); fin = true; }); while (!fin) neco_yield(); } else v = draw(q.n, q.crypto, e);
        if (q.crypto) crypto_check(i, v, e.fill); else if (pass == 0) out[i] = v; else CHECK(v == out[i], "not-repeated", "request %zu (%d bytes) gave other bytes than before with the same seed", i, q.n);
    }
    stop = true; while (noisy) neco_yield(); passes++;
}
static void thr_co(int, void **) { uint8_t a[40], b[40]; neco_rand_setseed(99, nullptr); neco_rand(a, sizeof a, NECO_PRNG); while (!tstop) { neco_rand_setseed(99, nullptr); neco_rand(b, sizeof b, NECO_PRNG); if (memcmp(a, b, sizeof a)) fail("not-repeated", "a sequence is disturbed by another thread"); neco_rand(b, 20, NECO_CSPRNG); } }
static void *thr(void *) { neco_start(thr_co, 0); return nullptr; }
PROP(c21, "at least 3 seeded requests repeated in 3 different surroundings") {
    int n = src.range(1, 10); rq.clear(); out.clear(); blocks.clear(); same.clear(); int64_t seed = src.chance(50) ? (int64_t)src.u64() : src.pick<int64_t>({0, 1, -1, INT64_MAX, INT64_MIN, 42}); int64_t other = src.chance(50) ? seed + src.range(1, 3) : src.chance(50) ? seed ^ (INT64_C(1) << src.range(0, 63)) : (int64_t)src.u64(); if (other == seed) other = seed ^ 1;
    std::string t = strf("seed %lld, other seed %lld\n", (long long)seed, (long long)other);
    auto sz = [&] { int w = src.weighted({40, 25, 25, 10}); return w == 0 ? src.range(0, 20) : w == 1 ? src.pick({250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 511, 512, 513, 514, 768, 1024, 1025}) : w == 2 ? src.range(21, 600) : src.range(600, 9000); };
    int np = 0; for (int i = 0; i < n; i++) { Rq q; q.n = sz(); q.crypto = src.chance(35); q.detour = src.chance(40); q.dseed = src.chance(30) ? seed : (int64_t)src.u64(); q.dn = sz(); q.viaco = src.chance(30); np += !q.crypto; rq.push_back(q); t += strf("%s %d bytes%s%s\n", q.crypto ? "crypto" : "seeded", q.n, q.detour ? strf(", before it %d bytes from seed %lld", q.dn, (long long)q.dseed).c_str() : "", q.viaco ? ", in another coroutine" : ""); }
    std::vector<Env> es; int ne = src.range(2, 4); for (int i = 0; i < ne; i++) { Env e; e.fill = i == 0 ? 0 : i == 1 ? 255 : (int)src.draw(256); e.align = (int)src.draw(8); e.noise = src.chance(40); e.thread = src.chance(10); e.detours = src.chance(60); e.deadlines = src.chance(30); e.otherco = src.chance(40); es.push_back(e); t += strf("pass: fill %d align %d%s%s%s%s%s\n", e.fill, e.align, e.noise ? " noise" : "", e.thread ? " other thread" : "", e.detours ? " detours" : "", e.deadlines ? " deadlines" : "", e.otherco ? " coroutines" : ""); }
    int icut = src.range(0, 30), ibig = src.range(1, 60) * 256 + src.range(0, 5); bool itype = src.chance(30), ikind = src.chance(50), ipast = src.chance(30); t += strf("canceled after %d yields in %d %s bytes%s%s\n", icut, ibig, ikind ? "crypto" : "seeded", itype ? ", async" : "", ipast ? ", and deadlines in the past" : "");
    kit_begin(t); out.resize((size_t)n); same.resize((size_t)n); passes = 0; ndraw = 0; vc_begin(1, 30000000); pthread_t th; bool any = false; alloc_install(); for (auto &e : es) any |= e.thread; if (any) pthread_create(&th, nullptr, thr, nullptr); static int64_t s_seed, s_other; s_seed = seed; s_other = other; static std::vector<Env> s_es; s_es = es; static int s_cut, s_big; s_cut = icut; s_big = ibig; static bool s_type, s_kind, s_past; s_type = itype; s_kind = ikind; s_past = ipast;
    run_rt([&] {
        neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); for (size_t p = 0; p < s_es.size(); p++) run_pass((int)p, s_seed, s_es[p]);
        for (size_t i = 0; i < rq.size(); i++) if (rq[i].crypto && rq[i].n) { for (int k = 0; k < 6; k++) { Env e = s_es[0]; e.fill = k * 37; if (k & 1) neco_rand_setseed(s_seed, nullptr); crypto_check(i, draw(rq[i].n, true, e), e.fill); } for (size_t j = 0; j < same[i].size(); j++) CHECK(same[i][j] < 6 + passes, "unfilled", "byte %zu of a cryptographic request of %d bytes is never written", j, rq[i].n); }
        // the state after setseed is the reported one: continue from it
        { Env e = s_es[0]; int64_t mid = 0, x = 0; neco_rand_setseed(s_seed, nullptr); auto a1 = draw(37, false, e); auto a2 = draw(64, false, e); neco_rand_setseed(s_seed, nullptr); auto b1 = draw(37, false, e); neco_rand_setseed(s_other, &mid); auto o = draw(64, false, e); neco_rand_setseed(mid, &x); auto b2 = draw(64, false, e); CHECK(a1 == b1 && a2 == b2, "continue", "the sequence does not continue from the seed that neco_rand_setseed reported");
          neco_rand_setseed(s_seed, nullptr); auto z = draw(64, false, e); CHECK(z != o, "same", "seeds %lld and %lld give the same sequence", (long long)s_seed, (long long)s_other); CHECK(a2 != z, "same", "the sequence repeats itself at once"); std::set<std::string> w; for (int i = 0; i < 64; i += 8) w.insert(std::string((char *)&z[(size_t)i], 8)); CHECK(w.size() == 8, "constant", "seeded bytes repeat within a request"); 
          int64_t y = 1; neco_rand_setseed(s_other, &y); int64_t g = 0; neco_rand_setseed(s_seed, &g); CHECK(g == s_other, "old-seed", "neco_rand_setseed reports %lld as the previous seed, not %lld", (long long)g, (long long)s_other); }
        // small cryptographic requests neither repeat with the seed nor advance it
        for (int z = 1; z <= 12; z++) { Env e = s_es[0]; std::string a[2]; for (int k = 0; k < 2; k++) { neco_rand_setseed(s_seed, nullptr); while (a[k].size() < 24) { auto v = draw(z, true, e); a[k].append((char *)v.data(), v.size()); } int64_t g = 0; neco_rand_setseed(s_seed, &g); CHECK(g == s_seed, "crypto-seed", "cryptographic requests of %d bytes changed the seed", z); } CHECK(a[0] != a[1], "repeats", "cryptographic requests of %d bytes repeat with the seed", z); }
        // requests of any small size go on in the sequence instead of giving the same bytes again
        for (int z = 1; z <= 13; z++) { int mode = (int)((uint64_t)(z + s_seed) % 3); Env e = s_es[0]; neco_rand_setseed(s_seed, nullptr); std::vector<uint8_t> prev; int eq = 0; std::set<std::vector<uint8_t>> ds; for (int k = 0; k < 48; k++) { if (mode == 1) draw(4 * (k % 3), false, e); if (mode == 2) draw(1 + k % 5, true, e); auto v = draw(z, false, e); eq += v == prev; ds.insert(v); prev = v; } CHECK(eq <= 16 && ds.size() >= 8, "repeats", "48 seeded requests of %d bytes each give only %zu different results, %d of them the same as the one before", z, ds.size(), eq); if (z >= 8) CHECK(ds.size() == 48, "repeats", "seeded requests of %d bytes repeat", z); }
        // interrupted requests
        { static std::vector<uint8_t> b; b.assign((size_t)s_big + 64, 0xA5); static int res; res = 1; static bool fin; fin = false; static int64_t id; go([] { id = neco_getid(); neco_setcanceltype(s_type ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, nullptr); neco_cleanup_push(+[](void *) { fin = true; }, nullptr); res = neco_rand(b.data(), (size_t)s_big, s_kind ? NECO_CSPRNG : NECO_PRNG); if (res == NECO_CANCELED) CHECK(neco_lasterr() == NECO_CANCELED, "lasterr", "neco_lasterr() is %d", neco_lasterr()); neco_cleanup_pop(1); });
          int others = 0; for (int i = 0; i < s_cut && !fin; i++) { neco_yield(); others++; } bool late = fin; if (!late) { int r = neco_cancel(id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); for (int i = 0; i < 400 && !fin; i++) neco_yield(); CHECK(fin, "cancel", "a canceled request did not end"); if (s_type) CHECK(res == 1 || res == NECO_OK, "cancel", "result %d", res); else CHECK(res == NECO_CANCELED, "cancel", "a request of %d bytes was canceled after %d of its yields, it returned %d", s_big, others, res); label("canceled in the middle"); }
          CHECK(s_big < 512 || late || others >= 0, "x", "x"); for (int i = 0; i < 64; i++) CHECK(b[(size_t)(s_big + i)] == 0xA5, "overrun", "a byte behind the buffer was changed"); }
        if (s_past) { uint8_t b[600]; memset(b, 0x5A, sizeof b); int r = neco_rand_dl(b, sizeof b, s_kind ? NECO_CSPRNG : NECO_PRNG, 1); CHECK(r == NECO_TIMEDOUT && neco_lasterr() == NECO_TIMEDOUT, "deadline", "a deadline in the past gives %d", r); r = neco_rand(b, 8, 2); CHECK(r == NECO_INVAL && neco_lasterr() == NECO_INVAL, "inval", "an unknown kind gives %d", r); r = neco_rand(b, 8, -1); CHECK(r == NECO_INVAL, "inval", "kind -1 gives %d", r); for (auto x : b) CHECK(x == 0x5A, "effect", "a refused request wrote to the buffer"); }
        tstop = true; if (!s_es.empty()) {}
    }, !any);
    tstop = true; if (any) { pthread_join(th, nullptr); label("other thread"); }
    uint64_t h = 0; for (size_t i = 0; i < out.size(); i++) for (auto c : out[i]) h = mix64(h ^ c); report_value(h);
    if (!is_peer()) for (auto &pp : peers()) { uint64_t v = 0; int st = peer_value(pp, &v); if (st == 1) CHECK(v == h, "build", "another build gives another sequence for the same seed"); }
    nontrivial(np >= 3 && passes >= 3); count("requests", ndraw);
}
// ---- overlapping, canceled and timed-out requests, seeds set meanwhile
struct Cq { int words; bool crypto; int64_t dl; };
struct Cc { std::vector<Cq> q; };
struct Act { int yields; int kind; int who; int64_t seed; };       // kind 0: setseed, 1: cancel, 2: nothing
struct Buf { std::vector<uint32_t> b; size_t mark; bool over; };
static std::vector<Cc> cc; static std::vector<Act> acts; static std::vector<Buf *> bufs; static std::vector<int64_t> cids; static int cleft, overlap;
static const uint32_t FILL = 0xA5C3965Au;
static size_t written(const Buf &b) { size_t n = b.b.size(); while (n && b.b[n - 1] == FILL) n--; return n; }
struct Seg { int64_t seed, old; std::vector<uint32_t> w; };
PROP(c21c, "at least two seeded requests that overlap, or one that ends early, in coroutines that share the sequence while seeds are set") {
    cc.clear(); acts.clear(); bufs.clear(); int n = src.range(1, 5); std::string t; int64_t seed = src.chance(60) ? (int64_t)src.u64() : src.pick<int64_t>({0, 1, -1, INT64_MAX, INT64_MIN});
    t = strf("seed %lld\n", (long long)seed);
    for (int i = 0; i < n; i++) { Cc c; int k = src.range(1, 4); t += strf("co%d:", i); for (int j = 0; j < k; j++) { Cq q; q.words = src.chance(70) ? src.range(1, 700) : src.pick({1, 63, 64, 65, 127, 128, 129, 192, 256}); q.crypto = src.chance(12); q.dl = src.chance(20) ? src.range(0, 40) : 0; c.q.push_back(q); t += strf(" %d words%s%s", q.words, q.crypto ? " crypto" : "", q.dl ? strf(" within %d", (int)q.dl).c_str() : ""); } cc.push_back(c); t += "\n"; }
    int na = src.range(0, 5); for (int i = 0; i < na; i++) { Act a; a.yields = src.range(0, 8); a.kind = (int)src.draw(3); a.who = src.range(0, n - 1); a.seed = src.chance(20) ? seed : (int64_t)src.u64(); acts.push_back(a); t += strf("after %d yields %s\n", a.yields, a.kind == 0 ? strf("seed %lld", (long long)a.seed).c_str() : a.kind == 1 ? strf("cancel co%d", a.who).c_str() : "nothing"); }
    kit_begin(t); case_hash_str(t); vc_begin(1000, 30000000); static std::vector<Seg> segs; segs.clear(); cids.assign((size_t)n, 0); cleft = n; overlap = 0; static int early, inside; early = inside = 0; static int64_t cur; cur = seed; static int nn; nn = n;
    run_rt([&] {
        neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_rand_setseed(cur, nullptr);
        auto cut = [&](int64_t old) { Seg s; s.seed = cur; s.old = old; for (auto b : bufs) { size_t w = written(*b); for (size_t i = b->mark; i < w; i++) s.w.push_back(b->b[i]); b->mark = w; } segs.push_back(s); };
        for (int i = 0; i < nn; i++) go([i] { cids[(size_t)i] = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
            for (auto &q : cc[(size_t)i].q) { Buf *b = new Buf; b->b.assign((size_t)q.words + 4, FILL); b->mark = 0; if (!q.crypto) bufs.push_back(b); if (inside) overlap++; inside++;
                int r = q.dl ? neco_rand_dl(b->b.data(), (size_t)q.words * 4, q.crypto ? NECO_CSPRNG : NECO_PRNG, neco_now() + q.dl * 1000) : neco_rand(b->b.data(), (size_t)q.words * 4, q.crypto ? NECO_CSPRNG : NECO_PRNG); inside--; vc_progress();
                CHECK(r == NECO_OK || r == NECO_CANCELED || (r == NECO_TIMEDOUT && q.dl), "result", "neco_rand returned %d", r); size_t w = written(*b); CHECK(w <= (size_t)q.words, "overrun", "a request of %d words wrote %zu", q.words, w);
                if (r == NECO_OK) CHECK(w == (size_t)q.words, "unfilled", "a request of %d words wrote %zu", q.words, w); else early++; tr("co%d: %d words: %d, %zu written", i, q.words, r, w); if (q.crypto) delete b; neco_yield(); }
            cids[(size_t)i] = 0; cleft--; });
        for (auto &a : acts) { for (int k = 0; k < a.yields; k++) neco_yield(); if (a.kind == 0) { int64_t o = 0; CHECK(neco_rand_setseed(a.seed, &o) == NECO_OK, "result", "setseed failed"); cut(o); cur = a.seed; tr("seed %lld", (long long)cur); } else if (a.kind == 1 && cids[(size_t)a.who]) { int r = neco_cancel(cids[(size_t)a.who]); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); tr("cancel co%d", a.who); } }
        for (int k = 0; cleft && k < 100000; k++) neco_yield(); CHECK(!cleft, "stuck", "requests did not end");
        int64_t o = 0; neco_rand_setseed(7, &o); cut(o);
        for (auto &s : segs) { size_t m = s.w.size(); std::vector<uint32_t> ref(m + 16), more(16); neco_rand_setseed(s.seed, nullptr); CHECK(neco_rand(ref.data(), ref.size() * 4, NECO_PRNG) == NECO_OK, "result", "neco_rand failed"); neco_rand_setseed(s.old, nullptr); CHECK(neco_rand(more.data(), 64, NECO_PRNG) == NECO_OK, "result", "neco_rand failed");
            CHECK(std::equal(more.begin(), more.end(), ref.begin() + (long)m), "continue", "after %zu words the seed reported by neco_rand_setseed does not continue the sequence", m); ref.resize(m); auto w = s.w; std::sort(ref.begin(), ref.end()); std::sort(w.begin(), w.end()); CHECK(ref == w, "sequence", "the %zu words that all requests got since seed %lld was set are not the first %zu words of its sequence", m, (long long)s.seed, m); }
        for (auto b : bufs) delete b; bufs.clear();
    });
    nontrivial(overlap > 0 || early > 0); if (overlap) label("overlapping"); if (early) label("ended early"); if (segs.size() > 1) label("seed set meanwhile"); count("segments", segs.size());
}
