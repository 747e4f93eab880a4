// Magnitudes: crowds of coroutines on one object, large messages, capacities,
// counts and depths. Each program is driven step by step and compared with a
// queue model after every step.
#include "kit.h"
#include <memory>
#include <array>
static int crowdn(Src &s) { switch (s.weighted({30, 20, 18, 14, 18})) { case 0: return s.range(1, 20); case 1: return s.range(31, 34); case 2: return s.range(62, 67); case 3: return s.range(126, 131); default: return s.pick({200, 255, 256, 257, 258, 300, 511, 513}); } }
static size_t msgn(Src &s) { return (size_t)s.pick({0, 1, 4, 8, 8, 24, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 200000}); }
static int capn(Src &s) { return s.pick({0, 0, 1, 2, 3, 7, 16, 31, 32, 33, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 1025, 3000, 33000, 66000}); }
static void fill(std::vector<char> &b, uint64_t seq) { size_t i = 0; for (; i + 8 <= b.size(); i += 8) { uint64_t w = mix64(seq * 1000003 + i); memcpy(&b[i], &w, 8); } for (; i < b.size(); i++) b[i] = (char)(mix64(seq) >> (i % 8 * 8)); }
static void settle() { for (int i = 0; i < 10; i++) neco_yield(); vc_progress(); }
struct Cx { bool done = false, sel = false, canceled = false; int res = 0, pos = 0, n = 0; int64_t id = 0; uint64_t seq = 0; int due = 0; /* 0 not yet, 1 message, 2 closed, 3 canceled */ uint64_t want = 0; std::vector<char> got; };
typedef std::shared_ptr<Cx> Cp;
struct St { int o, k, a; };
#define Z10(i) z[i], z[i + 1], z[i + 2], z[i + 3], z[i + 4], z[i + 5], z[i + 6], z[i + 7], z[i + 8], z[i + 9]
static int maxcrowd; static uint64_t nmsgs;
static void chan_crowd(Src &src, int mode) { // mode 1: C01, 2: C02, 3: C03
    static size_t size; static int cap; size = msgn(src); cap = capn(src); while (size * (size_t)(cap + 1) > 6000000) cap /= 2; std::vector<St> pl; std::string t = strf("channel of messages of %zu bytes, capacity %d\n", size, cap); int n = src.range(2, 9); static const char *ON[] = {"start %d senders", "start %d receivers", "broadcast", "send up to %d", "receive up to %d", "cancel %d waiters", "close"};
    for (int i = 0; i < n; i++) { St s; s.o = src.weighted({24, 24, 8, 16, 14, 8, mode == 2 ? 12 : 2}); s.k = s.o == 3 || s.o == 4 ? src.pick({1, 5, 40, 300, 1100, 4000, 70000}) : crowdn(src); while ((size_t)s.k * size > 12000000) s.k /= 2; s.a = (int)src.draw(100); pl.push_back(s); t += strf(ON[s.o], s.k); t += mode == 3 && s.o == 1 ? strf(" (select over %d)\n", 1 + s.a * 3 % 70) : "\n"; }
    kit_begin(t); case_hash_str(t); vc_begin(1, 60000000); maxcrowd = 0; nmsgs = 0;
    run_rt([&] {
        static neco_chan *ch; CHECK(neco_chan_make(&ch, size, (size_t)cap) == NECO_OK, "harness", "chan_make"); static std::vector<neco_chan *> dec; dec.assign(80, nullptr); for (auto &d : dec) CHECK(neco_chan_make(&d, src.chance(50) ? size % 500 : 0, 1) == NECO_OK, "harness", "chan_make");
        std::deque<Cp> q, w; std::vector<Cp> all; uint64_t seq = 0; bool closed = false; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); std::vector<char> buf(size + 1), exp(size);
        // q: messages in order, each with its sender (sent directly: done); w: waiting receivers
        auto accept = [&](Cp s) { if (!w.empty()) { Cp r = w.front(); w.pop_front(); r->due = 1; r->want = s->seq; s->due = 1; } else q.push_back(s); };
        auto mark = [&] { for (size_t i = 0; i < q.size() && i < (size_t)cap; i++) q[i]->due = 1; };
        auto verify = [&](const char *when) {
            settle(); mark(); size_t ns = q.size() > (size_t)cap ? q.size() - (size_t)cap : 0;
            for (auto &c : all) { const char *what = c->n ? "send" : c->sel ? "select" : "receive";
                CHECK(c->done == (c->due != 0), c->done ? (c->res < 0 ? "error" : "early") : "blocked", "%s: a %s %s (result %d)", when, what, c->done ? "returned although it had to wait" : "is still blocked although its counterpart was there", c->res);
                if (!c->done) continue; int wres = c->due == 2 ? NECO_CLOSED : c->due == 3 ? NECO_CANCELED : NECO_OK; CHECK(c->res == wres, "result", "%s: a %s returned %d instead of %d", when, what, c->res, wres);
                if (!c->n && c->due == 1) { exp.resize(size); fill(exp, c->want); CHECK(!memcmp(exp.data(), c->got.data(), size), "message", "%s: a %s got a message that is damaged or not the one due", when, what); } c->got.clear(); c->got.shrink_to_fit(); }
            all.erase(std::remove_if(all.begin(), all.end(), [](const Cp &c) { return c->done; }), all.end());
            neco_stats st; neco_getstats(&st); CHECK(st.senders == ns && st.receivers == w.size() && st.coroutines == 1 + ns + w.size(), "stats", "%s: %zu senders, %zu receivers and %zu coroutines are reported, there are %zu, %zu and %zu", when, st.senders, st.receivers, st.coroutines, ns, w.size(), 1 + ns + w.size()); maxcrowd = std::max(maxcrowd, (int)std::max(ns, w.size())); };
        auto taken = [&](uint64_t want, const char *by) { exp.resize(size); fill(exp, want); CHECK(!memcmp(exp.data(), buf.data(), size), "message", "%s got a message that is damaged or not the one due", by); nmsgs++; };
        for (auto &s : pl) {
            switch (s.o) {
            case 0: for (int i = 0; i < s.k; i++) { Cp c = std::make_shared<Cx>(); c->n = 1; c->seq = ++seq; all.push_back(c); if (closed) c->due = 2; else { accept(c); mark(); } neco_chan_retain(ch); go([c] { c->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); std::vector<char> m(size + 1); { std::vector<char> f(size); fill(f, c->seq); memcpy(m.data(), f.data(), size); } c->res = neco_chan_send(ch, m.data()); c->done = true; neco_chan_release(ch); }); } verify("after senders were started"); break;
            case 1: for (int i = 0; i < s.k; i++) { Cp c = std::make_shared<Cx>(); c->sel = mode == 3 ? true : s.a % 4 == 0; c->pos = s.a; c->got.resize(size + 1); all.push_back(c);
                    if (!q.empty()) { c->due = 1; c->want = q.front()->seq; q.front()->due = 1; q.pop_front(); mark(); } else if (closed) c->due = 2; else w.push_back(c); neco_chan_retain(ch);
                    go([c] { c->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); if (!c->sel) c->res = neco_chan_recv(ch, c->got.data()); else { int n = 1 + c->pos * 3 % 70, at = c->pos % 2 ? n - 1 : c->pos * 7 % n; std::vector<neco_chan *> v((size_t)n); for (int i = 0; i < n; i++) v[(size_t)i] = dec[(size_t)(i + c->pos) % 80]; v[(size_t)at] = ch; int r; v.resize(80); neco_chan **z = v.data(); if (c->pos % 3 == 0) r = neco_chan_selectv(n, z); else if (c->pos % 3 == 1) r = neco_chan_select(n, Z10(0), Z10(10), Z10(20), Z10(30), Z10(40), Z10(50), Z10(60)); else r = neco_chan_select_dl(INT64_MAX, n, Z10(0), Z10(10), Z10(20), Z10(30), Z10(40), Z10(50), Z10(60)); if (r >= 0) { CHECK(r == at, "index", "a select over %d channels returned index %d, the message was sent to %d", n, r, at); c->res = neco_chan_case(ch, c->got.data()); } else c->res = r; } c->done = true; neco_chan_release(ch); }); } verify("after receivers were started"); break;
            case 2: { if (closed) { int r = neco_chan_broadcast(ch, buf.data()); CHECK(r == NECO_CLOSED, "result", "broadcast on a closed channel returned %d", r); break; } uint64_t sq = ++seq; exp.resize(size); fill(exp, sq); memcpy(buf.data(), exp.data(), size); int want = (int)w.size(); while (!w.empty()) { w.front()->due = 1; w.front()->want = sq; w.pop_front(); } int r = neco_chan_broadcast(ch, buf.data()); CHECK(r == want, "broadcast", "broadcast returned %d, %d receivers were waiting", r, want); verify("after a broadcast"); break; }
            case 3: for (int i = 0; i < s.k && !closed && (!w.empty() || q.size() < (size_t)cap); i++) { Cp c = std::make_shared<Cx>(); c->n = 1; c->seq = ++seq; c->done = true; accept(c); exp.resize(size); fill(exp, c->seq); memcpy(buf.data(), exp.data(), size); int r = neco_chan_send(ch, buf.data()); CHECK(r == NECO_OK, "result", "send returned %d", r); if (i % 64 == 0) vc_progress(); } if (closed) { int r = neco_chan_send(ch, buf.data()); CHECK(r == NECO_CLOSED, "result", "send on a closed channel returned %d", r); } verify("after sends"); break;
            case 4: for (int i = 0; i < s.k && !q.empty(); i++) { uint64_t want = q.front()->seq; q.front()->due = 1; q.pop_front(); mark(); int r = s.a % 2 ? neco_chan_tryrecv(ch, buf.data()) : neco_chan_recv(ch, buf.data()); CHECK(r == NECO_OK, "result", "receive returned %d", r); taken(want, "a receive"); if (i % 64 == 0) vc_progress(); } if (q.empty()) { int r = neco_chan_tryrecv(ch, buf.data()); CHECK(r == (closed ? NECO_CLOSED : NECO_EMPTY), "result", "tryrecv of an empty channel returned %d", r); } verify("after receives"); break;
            case 5: { for (int i = 0; i < s.k; i++) { Cp c; if (!w.empty()) { size_t at = (size_t)(s.a + i * 13) % w.size(); c = w[at]; w.erase(w.begin() + (long)at); } else if (q.size() > (size_t)cap) { size_t at = (size_t)cap + (size_t)(s.a + i * 13) % (q.size() - (size_t)cap); c = q[at]; q.erase(q.begin() + (long)at); } else break; c->due = 3; int r = neco_cancel(c->id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); } verify("after cancelations"); break; }
            case 6: { int r = neco_chan_close(ch); CHECK(r == (closed ? NECO_CLOSED : NECO_OK), "result", "close returned %d", r); if (!closed) { closed = true; while (!w.empty()) { w.front()->due = 2; w.pop_front(); } } verify("after the close"); break; }
            } }
        if (!closed) { int r = neco_chan_close(ch); CHECK(r == NECO_OK, "result", "close returned %d", r); closed = true; while (!w.empty()) { w.front()->due = 2; w.pop_front(); } verify("after the close"); }
        while (!q.empty()) { uint64_t want = q.front()->seq; q.front()->due = 1; q.pop_front(); mark(); int r = neco_chan_recv(ch, buf.data()); CHECK(r == NECO_OK, "result", "a receive of the rest returned %d", r); taken(want, "a receive of the rest"); if (nmsgs % 64 == 0) vc_progress(); }
        int r = neco_chan_recv(ch, buf.data()); CHECK(r == NECO_CLOSED, "result", "a receive after the rest returned %d", r); verify("at the end"); neco_chan_release(ch); for (auto d : dec) neco_chan_release(d);
    });
    nontrivial(maxcrowd > 20 || size > 1000 || (cap > 100 && nmsgs > 100)); if (maxcrowd > 255) label("more than 255 waiting"); if (size > 65535) label("messages above 64K"); if (cap > 255) label("capacity above 255"); count("messages", nmsgs);
}
PROP(c01b, "more than 20 coroutines blocked on the channel at once, or messages above 1000 bytes, or a capacity above 100 with 100 messages in it") { chan_crowd(src, 1); }
PROP(c02b, "more than 20 coroutines blocked on the channel at once, or messages above 1000 bytes, or a capacity above 100 with 100 messages in it") { chan_crowd(src, 2); }
PROP(c03b, "more than 20 selects blocked on the channel at once, or messages above 1000 bytes, or a capacity above 100 with 100 messages in it") { chan_crowd(src, 3); }
// Mutexes
struct Mx { bool rd = false, has = false, done = false, go = false, canceled = false; int64_t id = 0; int res = 0; };
PROP(c04b, "more than 20 coroutines hold or wait for the mutex at once") {
    std::vector<St> pl; std::string t; int n = src.range(2, 14); static const char *ON[] = {"%d readers", "%d writers", "%d mixed", "%d leave", "cancel %d waiters"}; for (int i = 0; i < n; i++) { St s; s.o = src.weighted({26, 14, 14, 34, 12}); s.k = crowdn(src); if (s.o == 1) s.k = std::min(s.k, 40); s.a = (int)src.draw(100); pl.push_back(s); t += strf(ON[s.o], s.k) + "\n"; }
    kit_begin(t); case_hash_str(t); vc_begin(1, 60000000); maxcrowd = 0;
    run_rt([&] {
        static neco_mutex mu; mu = (neco_mutex)NECO_MUTEX_INITIALIZER; typedef std::shared_ptr<Mx> Mp; std::deque<Mp> hold, wait; static int nr, nw; nr = nw = 0; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
        auto grant = [&] { while (!wait.empty()) { Mp m = wait.front(); if (m->rd ? (hold.empty() || hold.front()->rd) : hold.empty()) { wait.pop_front(); hold.push_back(m); if (!m->rd) break; } else break; } };
        auto verify = [&](const char *when) { settle(); neco_stats st; neco_getstats(&st); CHECK(st.locked == wait.size(), "stats", "%s: %zu coroutines are reported to wait for mutexes, there are %zu", when, st.locked, wait.size()); maxcrowd = std::max(maxcrowd, (int)(wait.size() + hold.size())); for (auto &m : hold) CHECK(m->has, "blocked", "%s: a %s that can have the mutex waits for it (%zu hold it)", when, m->rd ? "reader" : "writer", hold.size()); for (auto &m : wait) CHECK(!m->has && !m->done, "exclusion", "%s: a %s got the mutex out of turn", when, m->rd ? "reader" : "writer");
            int r = neco_mutex_trylock(&mu); CHECK(r == (hold.empty() ? NECO_OK : NECO_BUSY), "trylock", "%s: trylock returned %d while %zu coroutines hold the mutex", when, r, hold.size()); if (r == NECO_OK) neco_mutex_unlock(&mu); bool rdok = wait.empty() && (hold.empty() || hold.front()->rd); r = neco_mutex_tryrdlock(&mu); CHECK(r == (rdok ? NECO_OK : NECO_BUSY), "trylock", "%s: tryrdlock returned %d with %zu holders and %zu waiting", when, r, hold.size(), wait.size()); if (r == NECO_OK) neco_mutex_unlock(&mu); };
        auto join = [&](bool rd) { Mp m = std::make_shared<Mx>(); m->rd = rd; bool now = wait.empty() && (hold.empty() || (rd && hold.front()->rd)); (now ? hold : wait).push_back(m);
            go([m] { m->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); m->res = m->rd ? neco_mutex_rdlock(&mu) : neco_mutex_lock(&mu); if (m->res != NECO_OK) { CHECK(m->res == NECO_CANCELED && m->canceled, "result", "lock returned %d", m->res); m->done = true; return; } m->has = true; (m->rd ? nr : nw)++; CHECK(nw <= 1 && !(nw && nr), "exclusion", "%d writers and %d readers hold the mutex", nw, nr); while (!m->go) neco_suspend(); (m->rd ? nr : nw)--; int r = neco_mutex_unlock(&mu); CHECK(r == NECO_OK, "result", "unlock returned %d", r); m->done = true; }); };
        auto leave = [&](size_t at) { Mp m = hold[at]; hold.erase(hold.begin() + (long)at); m->go = true; int r = neco_resume(m->id); CHECK(r == NECO_OK, "harness", "resume %d", r); if (hold.empty()) grant(); };
        for (auto &s : pl) { switch (s.o) {
            case 0: case 1: case 2: for (int i = 0; i < s.k; i++) join(s.o == 0 || (s.o == 2 && (s.a + i * 7) % 9 > 1)); verify("after more asked for it"); break;
            case 3: for (int i = 0; i < s.k && !hold.empty(); i++) { leave((size_t)(s.a + i) % hold.size()); settle(); } verify("after some left"); break;
            case 4: for (int i = 0; i < s.k && !wait.empty(); i++) { size_t at = (size_t)(s.a + i * 17) % wait.size(); if (at == 0) { if (wait.size() == 1) break; at = wait.size() - 1; } Mp m = wait[at]; wait.erase(wait.begin() + (long)at); m->canceled = true; int r = neco_cancel(m->id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); } verify("after some were canceled"); break; } }
        while (!hold.empty()) { leave(0); settle(); } verify("at the end"); CHECK(wait.empty() && !nr && !nw, "harness", "model");
    });
    nontrivial(maxcrowd > 20); if (maxcrowd > 255) label("more than 255"); 
}
// Conditions and waitgroups
PROP(c05b, "more than 20 coroutines waited on the condition at once") {
    std::vector<St> pl; std::string t; int n = src.range(2, 14); static const char *ON[] = {"%d wait", "%d signals", "broadcast (%d)", "cancel %d"}; for (int i = 0; i < n; i++) { St s; s.o = src.weighted({40, 25, 22, 13}); s.k = crowdn(src); s.a = (int)src.draw(100); pl.push_back(s); t += strf(ON[s.o], s.k) + "\n"; }
    kit_begin(t); case_hash_str(t); vc_begin(1, 60000000); maxcrowd = 0;
    run_rt([&] {
        static neco_mutex mu; mu = (neco_mutex)NECO_MUTEX_INITIALIZER; static neco_cond cv; cv = (neco_cond)NECO_COND_INITIALIZER; struct C { int64_t id = 0; bool done = false, canceled = false; int res = 0; }; typedef std::shared_ptr<C> P; std::deque<P> w; std::vector<P> woken; static int inside; inside = 0; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
        auto verify = [&](const char *when) { for (size_t i = 0; i < woken.size() + 4; i += 4) settle(); neco_stats st; neco_getstats(&st); CHECK(st.condwaiters == w.size() && st.locked == 0, "stats", "%s: %zu condwaiters and %zu locked, there are %zu", when, st.condwaiters, st.locked, w.size()); maxcrowd = std::max(maxcrowd, (int)w.size()); for (auto &c : w) CHECK(!c->done, "spurious", "%s: a wait returned %d without a signal", when, c->res); for (auto &c : woken) { CHECK(c->done, "blocked", "%s: a coroutine that was signaled or canceled still waits", when); CHECK(c->res == (c->canceled ? NECO_CANCELED : NECO_OK), "result", "%s: the wait returned %d", when, c->res); } woken.clear(); };
        for (auto &s : pl) { switch (s.o) {
            case 0: for (int i = 0; i < s.k; i++) { P c = std::make_shared<C>(); w.push_back(c); go([c] { c->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_mutex_lock(&mu); c->res = neco_cond_wait(&cv, &mu); CHECK(!inside, "exclusion", "two coroutines returned from their wait with the mutex"); inside = 1; CHECK(neco_mutex_trylock(&mu) == NECO_BUSY, "unlocked", "the wait returned without the mutex"); neco_yield(); inside = 0; int r = neco_mutex_unlock(&mu); CHECK(r == NECO_OK, "unlocked", "unlock after the wait returned %d", r); c->done = true; }); } verify("after more wait"); break;
            case 1: for (int i = 0; i < s.k; i++) { if (!w.empty()) { woken.push_back(w.front()); w.pop_front(); } int r = neco_cond_signal(&cv); CHECK(r == NECO_OK, "result", "signal returned %d", r); } verify("after signals"); break;
            case 2: for (auto &c : w) woken.push_back(c); w.clear(); CHECK(neco_cond_broadcast(&cv) == NECO_OK, "result", "broadcast"); verify("after a broadcast"); break;
            case 3: for (int i = 0; i < s.k && !w.empty(); i++) { size_t at = (size_t)(s.a + i * 17) % w.size(); P c = w[at]; w.erase(w.begin() + (long)at); c->canceled = true; woken.push_back(c); int r = neco_cancel(c->id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); } verify("after cancelations"); break; } }
        for (auto &c : w) woken.push_back(c); w.clear(); neco_cond_broadcast(&cv); verify("at the end");
    });
    nontrivial(maxcrowd > 20); if (maxcrowd > 255) label("more than 255");
}
PROP(c06b, "more than 20 coroutines waited at once, or the count was above 30000") {
    std::vector<St> pl; std::string t; int n = src.range(3, 24); static const char *ON[] = {"%d wait", "add %d", "done (%d times)", "add %d below zero", "to zero (%d)", "cancel %d"}; for (int i = 0; i < n; i++) { St s; s.o = src.weighted({30, 25, 12, 10, 15, 8}); s.k = s.o == 1 || s.o == 3 ? src.pick({1, 2, 100, 127, 128, 255, 256, 999, 1001, 32767, 32768, 65535, 65536, 65537, 1000000, 16777216, 500000000}) : crowdn(src); s.a = (int)src.draw(100); pl.push_back(s); t += strf(ON[s.o], s.k) + "\n"; }
    kit_begin(t); case_hash_str(t); vc_begin(1, 60000000); maxcrowd = 0; static int64_t peak; peak = 0;
    run_rt([&] {
        static neco_waitgroup wg; wg = (neco_waitgroup)NECO_WAITGROUP_INITIALIZER; int64_t cnt = 0; struct C { int64_t id = 0; bool done = false, canceled = false; int res = 0; }; typedef std::shared_ptr<C> P; std::deque<P> w; std::vector<P> woken; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr);
        auto zero = [&] { if (!cnt) { for (auto &c : w) woken.push_back(c); w.clear(); } };
        auto verify = [&](const char *when) { settle(); neco_stats st; neco_getstats(&st); CHECK(st.waitgroupers == w.size(), "stats", "%s: %zu waitgroupers, there are %zu", when, st.waitgroupers, w.size()); maxcrowd = std::max(maxcrowd, (int)w.size()); peak = std::max(peak, cnt); for (auto &c : w) CHECK(!c->done, "early", "%s: a wait returned %d while the count is %lld", when, c->res, (long long)cnt); for (auto &c : woken) { CHECK(c->done, "blocked", "%s: a wait does not return although the count reached zero", when); CHECK(c->res == (c->canceled ? NECO_CANCELED : NECO_OK), "result", "%s: the wait returned %d", when, c->res); } woken.clear(); };
        auto add = [&](int64_t d) { int r = neco_waitgroup_add(&wg, (int)d); int want = cnt + d < 0 ? NECO_NEGWAITGRP : NECO_OK; CHECK(r == want, "result", "add %lld to %lld returned %d", (long long)d, (long long)cnt, r); if (r == NECO_OK) { cnt += d; zero(); } };
        for (auto &s : pl) { switch (s.o) {
            case 0: for (int i = 0; i < s.k; i++) { P c = std::make_shared<C>(); if (cnt) w.push_back(c); else woken.push_back(c); go([c] { c->id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); c->res = neco_waitgroup_wait(&wg); c->done = true; }); } verify("after more wait"); break;
            case 1: if (cnt + s.k < INT32_MAX) add(s.k); verify("after an add"); break;
            case 2: for (int i = 0; i < s.k; i++) { int r = neco_waitgroup_done(&wg); CHECK(r == (cnt ? NECO_OK : NECO_NEGWAITGRP), "result", "done at %lld returned %d", (long long)cnt, r); if (r == NECO_OK) { cnt--; zero(); } } verify("after done"); break;
            case 3: if (cnt + s.k < INT32_MAX) add(-cnt - s.k); verify("after a refused add"); break;
            case 4: if (cnt > s.k) { add(-(cnt - s.k)); verify("after a negative add"); while (cnt) { CHECK(neco_waitgroup_done(&wg) == NECO_OK, "result", "done"); cnt--; zero(); } } else if (cnt) add(-cnt); verify("after the count reached zero"); break;
            case 5: for (int i = 0; i < s.k && !w.empty(); i++) { size_t at = (size_t)(s.a + i * 17) % w.size(); P c = w[at]; w.erase(w.begin() + (long)at); c->canceled = true; woken.push_back(c); int r = neco_cancel(c->id); CHECK(r == NECO_OK, "cancel", "neco_cancel returned %d", r); } verify("after cancelations"); break; } }
        if (cnt) add(-cnt); verify("at the end");
    });
    nontrivial(maxcrowd > 20 || peak > 30000); if (maxcrowd > 255) label("more than 255"); if (peak > 65535) label("count above 65535");
}
// Cleanup handlers nested deeply; many cancelers of one protected coroutine; many joiners; many suspended.
static std::vector<int> order; static int depth_, how_; static void h_push(void *v) { order.push_back((int)(intptr_t)v); }
static void nest(int i) { if (i == depth_) { if (how_ == 0) neco_exit(); else if (how_ == 1) neco_sleep(3600 * NECO_SECOND); return; } neco_cleanup_push(h_push, (void *)(intptr_t)i); nest(i + 1); neco_cleanup_pop(how_ == 2 || (how_ == 3 && i % 3 == 0)); }
PROP(c08b, "more than 20 nested handlers or more than 20 cancelers") {
    depth_ = crowdn(src); how_ = (int)src.draw(4); int nc = crowdn(src), gone = (int)src.draw(3); static const char *HN[] = {"exits", "is canceled (async)", "pops and runs them all", "pops them, running every third"};
    kit_begin(strf("%d nested handlers, then the coroutine %s; %d cancelers of a protected coroutine that then %s\n", depth_, HN[how_], nc, gone == 0 ? "ends" : gone == 1 ? "enables cancelation and waits" : "enables it and goes on")); vc_begin(1, 60000000);
    run_rt([&] {
        neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); order.clear(); go([] { neco_setcanceltype(NECO_CANCEL_ASYNC, nullptr); nest(0); }); int64_t id = neco_lastid(); if (how_ == 1) { CHECK(order.empty(), "early", "a handler ran before the coroutine was canceled"); int r = neco_cancel(id); CHECK(r == NECO_OK, "result", "neco_cancel returned %d", r); } settle();
        std::vector<int> want; for (int i = depth_ - 1; i >= 0; i--) if (how_ != 3 || i % 3 == 0) want.push_back(i); CHECK(order == want, "cleanup", "%zu of %zu handlers ran%s", order.size(), want.size(), order.size() == want.size() ? " in the wrong order" : ""); CHECK(neco_join(id) == NECO_OK, "join", "join");
        static int st, got, nf, ok; st = got = nf = ok = 0; static int g; g = gone; go([] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_setcancelstate(NECO_CANCEL_DISABLE, nullptr); neco_suspend(); if (g == 0) return; neco_setcancelstate(NECO_CANCEL_ENABLE, nullptr); if (g == 1) { for (int k = 0; k < 3; k++) { int r = neco_sleep(1000000); if (r == NECO_CANCELED) got++; } } st = 1; }); static int64_t t; t = neco_lastid();
        for (int i = 0; i < nc; i++) go([] { int r = neco_cancel(t); if (r == NECO_OK) ok++; else if (r == NECO_NOTFOUND) nf++; else fail("result", "neco_cancel returned %d", r); }); settle(); CHECK(!ok && !nf, "early", "%d cancelers went on while the target is protected", ok + nf);
        CHECK(neco_resume(t) == NECO_OK, "harness", "resume"); settle(); neco_sleep(10000000); settle(); CHECK(ok + nf == nc, "blocked", "%d of %d cancelers still wait although the target %s", nc - ok - nf, nc, gone ? "enabled cancelation" : "is gone"); if (gone == 0) CHECK(!ok, "result", "%d cancelers report success but the target ended", ok); if (gone == 1) CHECK(got >= 1 && ok >= got, "result", "%d cancelations succeeded but %d operations were canceled", ok, got);
        neco_join(t);
    });
    nontrivial(depth_ > 20 || nc > 20);
}
PROP(c09b, "more than 20 arguments, joiners or starts") {
    static int argc_, nj, ns; argc_ = src.pick({0, 1, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 70000}); nj = crowdn(src); ns = crowdn(src); static int how; how = (int)src.draw(3); static int gens; gens = src.chance(30);
    kit_begin(strf("%d arguments; %d joiners of a coroutine that %s; %d coroutines%s at once\n", argc_, nj, how == 0 ? "returns" : how == 1 ? "exits" : "is canceled", ns, gens ? " (generators)" : "")); vc_begin(1, 60000000);
    run_rt([&] {
        static std::vector<void *> av; av.resize((size_t)argc_ + 1); for (int i = 0; i < argc_; i++) av[(size_t)i] = (void *)(uintptr_t)mix64((uint64_t)i + 17); static bool ran; ran = false;
        auto f = [](int argc, void **argv) { CHECK(argc == argc_, "arguments", "the coroutine got %d arguments instead of %d", argc, argc_); for (int i = 0; i < argc; i++) CHECK(argv[i] == (void *)(uintptr_t)mix64((uint64_t)i + 17), "arguments", "argument %d of %d is wrong", i, argc); neco_yield(); for (int i = 0; i < argc; i++) CHECK(argv[i] == (void *)(uintptr_t)mix64((uint64_t)i + 17), "arguments", "argument %d of %d changed", i, argc); ran = true; };
        neco_gen *gg = nullptr; void **A = av.data(); av.resize(std::max<size_t>(av.size(), 40)); A = av.data(); bool va = argc_ <= 33 && ns % 2; int r = va && gens ? neco_gen_start(&gg, 8, f, argc_, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], A[11], A[12], A[13], A[14], A[15], A[16], A[17], A[18], A[19], A[20], A[21], A[22], A[23], A[24], A[25], A[26], A[27], A[28], A[29], A[30], A[31], A[32]) : va ? neco_start(f, argc_, A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9], A[10], A[11], A[12], A[13], A[14], A[15], A[16], A[17], A[18], A[19], A[20], A[21], A[22], A[23], A[24], A[25], A[26], A[27], A[28], A[29], A[30], A[31], A[32]) : gens ? neco_gen_startv(&gg, 8, f, argc_, av.data()) : neco_startv(f, argc_, av.data()); CHECK(r == NECO_OK, "result", "start returned %d", r); for (auto &a : av) a = nullptr; settle(); CHECK(ran, "start", "the coroutine did not run"); if (gg) neco_gen_release(gg);
        static int left; left = nj; go([] { neco_setcanceltype(NECO_CANCEL_ASYNC, nullptr); neco_suspend(); if (how == 1) neco_exit(); }); static int64_t t; t = neco_lastid(); for (int i = 0; i < nj; i++) go([] { int q = neco_join(t); CHECK(q == NECO_OK, "result", "join returned %d", q); left--; }); settle(); CHECK(left == nj, "early", "%d joins returned before the target ended", nj - left);
        r = how == 2 ? neco_cancel(t) : neco_resume(t); CHECK(r == NECO_OK, "result", "%d", r); settle(); CHECK(left == 0, "blocked", "%d of %d joins do not return although the target ended", left, nj); CHECK(neco_join(t) == NECO_OK, "result", "join of an ended coroutine");
        static std::set<int64_t> ids; ids.clear(); std::vector<int64_t> v; static int live; live = 0; for (int i = 0; i < ns; i++) { go([] { live++; neco_suspend(); live--; }); int64_t id = neco_lastid(); CHECK(ids.insert(id).second && id > 0, "identifier", "an identifier was given twice"); v.push_back(id); CHECK(live == i + 1, "start", "a started coroutine did not begin at once"); } neco_stats st; neco_getstats(&st); CHECK((int)st.coroutines == ns + 1 && (int)st.suspended == ns, "stats", "%zu coroutines and %zu suspended are reported, there are %d and %d", st.coroutines, st.suspended, ns + 1, ns);
        settle(); CHECK(live == ns, "resumed", "%d suspended coroutines went on by themselves", ns - live); for (size_t i = 0; i < v.size(); i++) { size_t at = (i * 7919) % v.size(); while (v[at] == 0) at = (at + 1) % v.size(); CHECK(neco_resume(v[at]) == NECO_OK, "resume", "resume of a suspended coroutine failed"); v[at] = 0; if (i % 16 == 0) { settle(); CHECK(live == ns - 1 - (int)i, "resumed", "%d coroutines are suspended, %d were resumed of %d", live, (int)i + 1, ns); } } settle(); CHECK(live == 0, "resumed", "%d resumed coroutines did not go on", live); neco_getstats(&st); CHECK(st.coroutines == 1 && st.suspended == 0, "stats", "%zu coroutines are reported at the end", st.coroutines);
    });
    nontrivial(argc_ > 20 || nj > 20 || ns > 20); if (ns > 255) label("more than 255 coroutines"); if (argc_ > 255) label("more than 255 arguments");
}
PROP(c12b, "values above 1000 bytes, or more than 20 consumers or generators at once") {
    static size_t size; static int ng, nv, ncon; size = std::max<size_t>(1, msgn(src)); ng = crowdn(src); nv = src.range(1, 40); ncon = src.chance(40) ? crowdn(src) : 1; while ((size_t)ng * size > 6000000) ng = ng / 2 + !(ng / 2); while ((size_t)ncon * size > 6000000) ncon = ncon / 2 + !(ncon / 2); while ((size_t)ng * (size_t)nv * size > 30000000 && nv > 1) nv /= 2;
    kit_begin(strf("%d generators of %d values of %zu bytes; then one generator with %d consumers waiting\n", ng, nv, size, ncon)); vc_begin(1, 60000000);
    run_rt([&] {
        std::vector<neco_gen *> g((size_t)ng); static int live; live = 0; auto body = [](int, void **a) { live++; uint64_t k = (uint64_t)(uintptr_t)a[0]; std::vector<char> b(size); for (int i = 0; i < nv; i++) { fill(b, k * 1000 + (uint64_t)i); int r = neco_gen_yield(b.data()); CHECK(r == NECO_OK, "result", "yield returned %d", r); } live--; };
        for (size_t i = 0; i < g.size(); i++) CHECK(neco_gen_start(&g[i], size, body, 1, (void *)(uintptr_t)(i + 1)) == NECO_OK, "result", "gen_start");
        std::vector<char> b(size), e(size); for (int j = 0; j < nv; j++) for (size_t i = 0; i < g.size(); i++) { int r = neco_gen_next(g[i], b.data()); CHECK(r == NECO_OK, "result", "next returned %d", r); fill(e, (i + 1) * 1000 + (uint64_t)j); CHECK(b == e, "value", "value %d of generator %zu is damaged or not the one due", j, i); vc_progress(); }
        for (auto x : g) { int r = neco_gen_next(x, b.data()); CHECK(r == NECO_CLOSED, "closed", "next after the last value returned %d", r); neco_gen_release(x); } settle(); CHECK(live == 0, "ended", "%d generators did not end", live);
        static neco_gen *w; static std::vector<int> got; got.assign((size_t)ncon, 0); static int closed; closed = 0; CHECK(neco_gen_start(&w, size, [](int, void **) { neco_sleep(1000000); std::vector<char> b(size); for (int i = 0; i < ncon / 2; i++) { fill(b, 7000 + (uint64_t)i); if (neco_gen_yield(b.data()) != NECO_OK) fail("result", "yield"); } }, 0) == NECO_OK, "result", "gen_start");
        for (int i = 0; i < ncon; i++) { neco_gen_retain(w); go([i] { std::vector<char> b(size), e(size); int r = neco_gen_next(w, b.data()); if (r == NECO_OK) { fill(e, 7000 + (uint64_t)i); CHECK(b == e, "value", "consumer %d of %d got a value that is damaged or not the one due", i, ncon); got[(size_t)i] = 1; } else { CHECK(r == NECO_CLOSED, "result", "next returned %d", r); closed++; } neco_gen_release(w); }); }
        neco_sleep(5000000); settle(); for (int i = 0; i < ncon; i++) CHECK(got[(size_t)i] == (i < ncon / 2), "blocked", "consumer %d of %d %s", i, ncon, got[(size_t)i] ? "got a value that was not there" : "got no value"); CHECK(closed == ncon - ncon / 2, "blocked", "%d consumers were told the end, %d wait for it", closed, ncon - ncon / 2); neco_gen_release(w);
    });
    nontrivial(size > 1000 || ng > 20 || ncon > 20);
}
// Bulk transfers, high descriptor numbers, many descriptors.
#include <sys/socket.h>
#include <signal.h>
static uint8_t pat(uint64_t key, uint64_t i) { return (uint8_t)(mix64(key + i / 8) >> (i % 8 * 8)); }
static int bulkn(Src &s) { return s.pick({1, 100, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 212992, 262143, 262144, 262145, 300001, 524289, 1048576, 1048577, 2500000, 5000001}); }
static int movefd(int fd, int to) { if (to <= 0) return fd; int f = fcntl(fd, F_DUPFD, to); if (f < 0) return fd; close(fd); return f; }
PROP(c13b, "a single write of more than 100000 bytes, or a descriptor above 255, or more than 20 descriptors waited on") {
    struct X { int kind, to, len, pipe; std::vector<int> rd; }; static std::vector<X> xs; xs.clear(); int n = src.range(1, 4); static int nf; nf = src.chance(50) ? crowdn(src) : 0; std::string t; bool nt = nf > 20;
    for (int i = 0; i < n; i++) { X x; x.pipe = src.chance(40); x.to = src.pick({0, 0, 60, 200, 250, 255, 256, 1000, 1020, 1023, 1024, 1025, 2047, 4095, 8000}); x.len = bulkn(src); int k = src.range(1, 4); for (int j = 0; j < k; j++) x.rd.push_back(bulkn(src)); nt |= x.len > 100000 || x.to > 254; xs.push_back(x); t += strf("%s at descriptors from %d: one write of %d bytes, read in pieces of", x.pipe ? "pipe" : "socket pair", x.to, x.len); for (auto r : x.rd) t += strf(" %d", r); t += "\n"; }
    t += strf("%d more descriptors with a waiter each\n", nf); kit_begin(t); vc_begin(1, 60000000);
    run_rt([&] {
        static int left; left = 0; static uint64_t moved; moved = 0; std::vector<int> fds; std::vector<int64_t> ids;
        for (size_t i = 0; i < xs.size(); i++) { int p[2]; if (xs[i].pipe) { CHECK(pipe2(p, O_NONBLOCK) == 0, "harness", "pipe"); } else { CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair"); } int r = movefd(p[0], xs[i].to), w = movefd(p[1], xs[i].to); fds.push_back(r); left += 2;
            go([i, w] { X &x = xs[i]; std::vector<char> b((size_t)x.len); for (size_t k = 0; k < b.size(); k++) b[k] = (char)pat(i * 1000003, k); ssize_t z = neco_write(w, b.data(), b.size()); CHECK(z == (ssize_t)b.size(), "write", "a write of %d bytes without a deadline returned %zd (%s)", x.len, z, z < 0 ? strerror(errno) : ""); close(w); left--; }); ids.push_back(neco_lastid());
            go([i, r] { X &x = xs[i]; size_t got = 0; std::vector<char> b; for (size_t k = 0;; k++) { size_t want = (size_t)x.rd[k % x.rd.size()]; b.assign(want + 8, (char)0xEE); ssize_t z = neco_read(r, b.data(), want); vc_progress(); if (z == 0) break; CHECK(z > 0 && z <= (ssize_t)want, "read", "a read of %zu bytes returned %zd (%s)", want, z, z < 0 ? strerror(errno) : ""); for (ssize_t j = 0; j < z; j++) CHECK((uint8_t)b[(size_t)j] == pat(i * 1000003, got + (size_t)j), "data", "byte %zu is wrong", got + (size_t)j); for (size_t j = (size_t)z; j < want + 8; j++) CHECK(b[j] == (char)0xEE, "overrun", "a read that returned %zd changed byte %zu", z, j); got += (size_t)z; } CHECK(got == (size_t)x.len, "lost", "%zu of %d bytes arrived", got, x.len); moved += got; left--; }); ids.push_back(neco_lastid()); }
        static std::vector<std::array<int, 2>> pp; pp.clear(); static std::vector<int> got; got.assign((size_t)nf, 0); for (int i = 0; i < nf; i++) { std::array<int, 2> q; int p[2]; if (pipe2(p, O_NONBLOCK)) inconclusive("pipes"); q[0] = p[0]; q[1] = p[1]; pp.push_back(q); go([i] { char c = 0; ssize_t z = neco_read(pp[(size_t)i][0], &c, 1); CHECK(z == 1 && c == (char)i, "data", "waiter %d read %zd", i, z); got[(size_t)i]++; }); }
        for (auto id : ids) neco_join(id); CHECK(!left, "stuck", "%d of the coroutines did not end", left); settle(); for (auto g : got) CHECK(!g, "early", "a waiter went on although its pipe is empty"); neco_stats st; neco_getstats(&st); CHECK((int)st.evwaiters == nf, "stats", "%zu evwaiters, there are %d", st.evwaiters, nf);
        for (int i = 0; i < nf; i++) { int at = (int)((i * 7919ll) % nf); while (got[(size_t)at] == 5) at = (at + 1) % nf; char c = (char)at; CHECK(write(pp[(size_t)at][1], &c, 1) == 1, "harness", "write"); if (i % 50 == 0 || i == nf - 1) { for (int k = 0; k < 30; k++) neco_sleep(1000000); CHECK(got[(size_t)at] == 1, "blocked", "waiter %d of %d is not woken", at, nf); } else { neco_sleep(1000); } if (got[(size_t)at] == 1) got[(size_t)at] = 5; else got[(size_t)at] = 5, (void)0; }
        for (int k = 0; k < 30; k++) neco_sleep(1000000); neco_getstats(&st); CHECK(st.evwaiters == 0, "blocked", "%zu coroutines still wait for descriptors that are ready", st.evwaiters);
        if (nf) { int p[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair"); static int sfd; sfd = p[0]; static int nrd, nwr; nrd = nwr = 0; char z[4096] = {0}; while (write(sfd, z, sizeof z) > 0) {} int wr = 0; for (int i = 0; i < nf; i++) { bool w = i % 5 == 3; wr += w; go([w] { int r = neco_wait(sfd, w ? NECO_WAIT_WRITE : NECO_WAIT_READ); CHECK(r == NECO_OK, "result", "wait returned %d", r); (w ? nwr : nrd)++; }); } settle(); CHECK(!nrd && !nwr, "early", "a waiter of a descriptor that is not ready went on"); neco_getstats(&st); CHECK((int)st.evwaiters == nf, "stats", "%zu evwaiters, there are %d", st.evwaiters, nf);
            auto rd = [&] { CHECK(write(p[1], "x", 1) == 1, "harness", "write"); for (int k = 0; k < 30; k++) neco_sleep(1000000); CHECK(nrd == nf - wr, "blocked", "%d of %d coroutines waiting to read one descriptor were woken", nrd, nf - wr); }; auto wt = [&] { while (read(p[1], z, sizeof z) > 0) {} for (int k = 0; k < 30; k++) neco_sleep(1000000); CHECK(nwr == wr, "blocked", "%d of %d coroutines waiting to write one descriptor were woken", nwr, wr); };
            if (nf % 2) { rd(); CHECK(!nwr, "early", "a waiter went on although the descriptor is full"); wt(); } else { wt(); CHECK(!nrd, "early", "a waiter went on although there is nothing to read"); rd(); } close(p[0]); close(p[1]); }
        for (auto f : fds) close(f); for (auto &q : pp) { close(q[0]); close(q[1]); } count("bytes", moved);
    });
    nontrivial(nt);
}
PROP(c14b, "more than 100000 bytes written through one stream") {
    struct X { int wcap, rcap, total; std::vector<int> w, r; bool full; }; static X x; static const std::vector<int> caps = {-1, 0, 1, 64, 4096, 8192, 65535, 65536, 65537, 200000, 1048576, 1500000}; x.w.clear(); x.r.clear(); x.wcap = caps[src.draw((uint32_t)caps.size())]; x.rcap = caps[src.draw((uint32_t)caps.size())]; x.full = src.chance(50); int k = src.range(1, 5); for (int i = 0; i < k; i++) x.w.push_back(bulkn(src)); k = src.range(1, 4); for (int i = 0; i < k; i++) x.r.push_back(bulkn(src)); for (;;) { x.total = 0; int64_t rs = 0; for (auto w : x.w) x.total += w; for (auto r : x.r) rs += r; rs /= (int64_t)x.r.size(); int64_t ops = x.total / (x.wcap > 0 ? x.wcap : 4096) + x.total / (rs + 1) + x.total / (x.rcap > 0 ? x.rcap : 4096); if (ops < 6000) break; for (auto &w : x.w) w = w / 2 + 1; } static int every; every = (int)src.draw(4);
    std::string t = strf("writer buffer %d, reader buffer %d (-1 none, 0 default)\nwrites:", x.wcap, x.rcap); for (auto w : x.w) t += strf(" %d", w); t += strf("%s\n%s:", every ? strf(", a flush every %d", every).c_str() : "", x.full ? "full reads" : "reads"); for (auto r : x.r) t += strf(" %d", r); kit_begin(t + "\n"); vc_begin(1, 60000000);
    run_rt([&] {
        static int left, p[2]; left = 2; CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair"); auto mk = [](int fd, int cap) { neco_stream *s = nullptr; int r = cap < 0 ? neco_stream_make(&s, fd) : cap == 0 ? neco_stream_make_buffered(&s, fd) : neco_stream_make_buffered_size(&s, fd, (size_t)cap); CHECK(r == NECO_OK, "make", "making a stream returned %d", r); return s; };
        std::vector<int64_t> ids; go([mk] { neco_stream *s = mk(p[1], x.wcap); size_t at = 0; int k = 0; for (auto w : x.w) { std::vector<char> b((size_t)w); for (size_t j = 0; j < b.size(); j++) b[j] = (char)pat(77, at + j); ssize_t z = neco_stream_write(s, b.data(), b.size()); CHECK(z == w, "write", "a write of %d bytes returned %zd", w, z); at += (size_t)w; size_t pend = 0, cap = x.wcap < 0 ? 0 : x.wcap == 0 ? 4096 : (size_t)x.wcap; pend = (size_t)neco_stream_buffered_write_size(s); if (x.wcap >= 0) CHECK(pend <= cap, "buffered", "%zu bytes are buffered by a stream of %zu", pend, cap); if (every && ++k % every == 0) { int r = neco_stream_flush(s); CHECK(r == NECO_OK, "flush", "flush returned %d", r); if (x.wcap >= 0) CHECK(neco_stream_buffered_write_size(s) == 0, "flush", "bytes are left after a flush"); } } int r = neco_stream_close(s); CHECK(r == NECO_OK, "close", "close returned %d", r); left--; }); ids.push_back(neco_lastid());
        go([mk] { neco_stream *s = mk(p[0], x.rcap); size_t got = 0; std::vector<char> b; for (size_t k = 0;; k++) { size_t want = (size_t)x.r[k % x.r.size()]; b.assign(want + 8, (char)0xEE); ssize_t z = x.full ? neco_stream_readfull(s, b.data(), want) : neco_stream_read(s, b.data(), want); vc_progress(); if (z == NECO_EOF || z == 0) break; CHECK(z > 0 && z <= (ssize_t)want, "read", "a read of %zu bytes returned %zd", want, z); if (x.full) CHECK((size_t)z == want || got + (size_t)z == (size_t)x.total, "short", "a full read of %zu bytes returned %zd with more to come", want, z); for (ssize_t j = 0; j < z; j++) CHECK((uint8_t)b[(size_t)j] == pat(77, got + (size_t)j), "data", "byte %zu is wrong", got + (size_t)j); for (size_t j = (size_t)z; j < want + 8; j++) CHECK(b[j] == (char)0xEE, "overrun", "a read that returned %zd changed byte %zu", z, j); got += (size_t)z; } CHECK(got == (size_t)x.total, "lost", "%zu of %d bytes arrived before the end", got, x.total); neco_stream_close(s); left--; }); ids.push_back(neco_lastid());
        for (auto id : ids) neco_join(id); CHECK(!left, "stuck", "%d of the coroutines did not end", left);
    });
    nontrivial(x.total > 100000); count("bytes", (uint64_t)x.total);
}
// Many occurrences pending, many waiters.
PROP(c17b, "more than 20 occurrences pending or coroutines waiting at once") {
    static const int SG[] = {SIGUSR1, SIGUSR2, SIGALRM, SIGTERM}; static int sg; static int k, nw, used; sg = SG[src.draw(4)]; k = src.pick({1, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000}); nw = crowdn(src); used = src.range(0, nw); kit_begin(strf("%d occurrences of %s pending; then %d coroutines wait and %d are raised\n", k, strsignal(sg), nw, used)); vc_begin(1, 60000000);
    run_rt([&] {
        CHECK(neco_signal_watch(sg) == NECO_OK, "result", "watch"); for (int i = 0; i < k; i++) raise(sg); settle(); for (int i = 0; i < k; i++) { int r = neco_signal_wait_dl(neco_now() + NECO_SECOND); CHECK(r == sg, "lost", "wait %d of %d returned %d", i + 1, k, r); } int r = neco_signal_wait_dl(neco_now() + 1000000); CHECK(r == NECO_TIMEDOUT, "invented", "a wait after the last occurrence returned %d", r); neco_signal_unwatch(sg);
        static int got; got = 0; std::vector<int64_t> ids; for (int i = 0; i < nw; i++) { go([] { neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); neco_signal_watch(sg); int q = neco_signal_wait(); if (q == sg) got++; else CHECK(q == NECO_CANCELED, "result", "signal_wait returned %d", q); neco_signal_unwatch(sg); }); ids.push_back(neco_lastid()); } settle(); neco_stats st; neco_getstats(&st); CHECK((int)st.sigwaiters == nw, "stats", "%zu sigwaiters, there are %d", st.sigwaiters, nw);
        for (int i = 0; i < used; i++) { raise(sg); if (i % 7 == 0) { for (int j = 0; j < 4; j++) neco_sleep(1000000); CHECK(got <= i + 1, "invented", "%d deliveries of %d occurrences", got, i + 1); } } for (int j = 0; j < 4; j++) neco_sleep(1000000); settle(); for (auto id : ids) neco_cancel(id); settle(); neco_getstats(&st); CHECK(st.sigwaiters == 0 && st.coroutines == 1, "stuck", "%zu coroutines still wait", st.sigwaiters); CHECK(got >= (used > 0) && (used == 0 || got <= std::max(nw, used)), "lost", "%d occurrences, %d deliveries", used, got);
    });
    nontrivial(k > 20 || nw > 20);
}
PROP(c21b, "a request of more than 20000 bytes") {
    static int n, kind; static int64_t seed; n = src.chance(50) ? bulkn(src) : src.range(9000, 3000000); kind = src.chance(50); seed = (int64_t)src.u64(); static int mid; mid = (int)src.draw(3); kit_begin(strf("%d %s bytes, seed %lld%s\n", n, kind ? "cryptographic" : "seeded", (long long)seed, mid == 1 ? ", another coroutine draws too" : "")); vc_begin(1, 60000000);
    run_rt([&] {
        std::vector<uint8_t> a[4]; static bool stop; for (int i = 0; i < 4; i++) { stop = false; if (mid == 1) go([] { while (!stop) { char b[100]; neco_rand(b, sizeof b, NECO_CSPRNG); neco_yield(); } }); a[i].assign((size_t)n + 128, (uint8_t)(i * 85)); neco_rand_setseed(seed, nullptr); int r = neco_rand(a[i].data() + 64, (size_t)n, kind ? NECO_CSPRNG : NECO_PRNG); CHECK(r == NECO_OK, "result", "neco_rand returned %d", r); stop = true; neco_yield(); vc_progress(); for (size_t j = 0; j < 64; j++) CHECK(a[i][j] == (uint8_t)(i * 85) && a[i][(size_t)n + 64 + j] == (uint8_t)(i * 85), "overrun", "a request of %d bytes changed a byte outside", n); }
        auto run = [&](int i) { int best = 0, cur = 0; for (int j = 64; j < n + 64; j++) { cur = a[i][(size_t)j] == (uint8_t)(i * 85) ? cur + 1 : 0; best = std::max(best, cur); } return best; };
        if (kind) { for (int i = 0; i < 4; i++) CHECK(run(i) < 16, "unfilled", "%d bytes in a row of a cryptographic request of %d bytes are as before", run(i), n); std::set<std::string> bl; for (int i = 0; i < 4; i++) for (int j = 64; j + 16 <= n + 64; j += 4096) CHECK(bl.insert(std::string((char *)&a[i][(size_t)j], 16)).second, "repeats", "16 cryptographic bytes came out twice"); }
        else { for (int i = 1; i < 4; i++) CHECK(!memcmp(&a[0][64], &a[i][64], (size_t)n), "not-repeated", "a request of %d bytes gave other bytes with the same seed", n); std::set<std::string> bl; for (int j = 64; j + 16 <= n + 64; j += 64) CHECK(bl.insert(std::string((char *)&a[0][(size_t)j], 16)).second, "repeats", "16 seeded bytes repeat within a request of %d bytes", n); }
    });
    nontrivial(n > 20000);
}
// Many sleepers.
PROP(c07b, "more than 20 coroutines slept or waited with a deadline at once") {
    struct X { int64_t d; int op; int64_t id = 0, at = -1; int res = 0; bool canceled = false; }; static std::vector<X> xs; xs.clear(); int n = crowdn(src), span = src.pick({1, 10, 1000, 100000}), cn = src.chance(40) ? src.range(0, n) : 0; static int nops; nops = src.range(1, 4); for (int i = 0; i < n; i++) { X x; x.d = (int64_t)src.range(0, span) * 100000; x.op = (int)src.draw((uint32_t)nops); xs.push_back(x); } std::string t = strf("%d coroutines, %d of them canceled later; deadlines (100 us):", n, cn); for (auto &x : xs) t += strf(" %lld", (long long)(x.d / 100000)); kit_begin(t + "\n"); case_hash_str(t); vc_begin(1, 60000000);
    run_rt([&] {
        static neco_chan *ch; CHECK(neco_chan_make(&ch, 0, 0) == NECO_OK, "harness", "chan"); static int64_t t0, mid; mid = neco_getid(); t0 = neco_now(); static std::vector<size_t> ord; ord.clear(); for (size_t i = 0; i < xs.size(); i++) { go([i] { X &x = xs[i]; neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); int64_t dl = t0 + 50000000 + x.d; x.res = x.op == 0 ? neco_sleep_dl(dl) : x.op == 1 ? neco_suspend_dl(dl) : x.op == 2 ? neco_chan_recv_dl(ch, nullptr, dl) : neco_join_dl(mid, dl); x.at = neco_now(); ord.push_back(i); }); xs[i].id = neco_lastid(); } CHECK(neco_now() < t0 + 50000000, "harness", "slow");
        settle(); neco_stats st; neco_getstats(&st); size_t sl = 0, su = 0, re = 0; for (auto &x : xs) if (x.op != 3) (x.op == 1 ? su : x.op == 2 ? re : sl)++; CHECK(st.sleepers == sl && st.suspended == su && st.receivers == re, "stats", "%zu sleepers, %zu suspended, %zu receivers; there are %zu, %zu, %zu", st.sleepers, st.suspended, st.receivers, sl, su, re);
        for (int i = 0; i < cn; i++) { X &x = xs[(size_t)(i * 31) % xs.size()]; if (x.canceled) continue; x.canceled = true; CHECK(neco_cancel(x.id) == NECO_OK, "cancel", "cancel"); } settle(); neco_sleep_dl(t0 + 50000000 + (int64_t)span * 100000 + 20000000); settle();
        int64_t prev = 0; for (auto i : ord) { X &x = xs[i]; int64_t dl = t0 + 50000000 + x.d; if (x.canceled) { CHECK(x.res == NECO_CANCELED, "result", "a canceled coroutine got %d", x.res); continue; } CHECK(x.res == (x.op == 0 ? NECO_OK : NECO_TIMEDOUT), "result", "a wait that ended at its deadline returned %d", x.res); CHECK(x.at >= dl, "early", "%lld ns before its deadline", (long long)(dl - x.at)); CHECK(x.at - dl < 10000000, "late", "%lld ns after its deadline", (long long)(x.at - dl)); CHECK(dl >= prev - 10000000, "order", "order"); prev = dl; } for (auto &x : xs) CHECK(x.at >= 0, "stuck", "a coroutine did not go on at its deadline"); neco_chan_release(ch);
    });
    nontrivial(n > 20);
}
// Marathons: one object or one runtime used many thousand times, so that a
// counter, an index or a pool that only lasts for a while is noticed.
static int longn(Src &s) { return s.pick({200, 300, 1000, 5000, 33000, 66000, 70000, 140000}); }
static int LN, LV, LW; static int64_t Lm;
static void lap(int i) { if (i % 64 == 0) vc_progress(); }
static void marathon(Src &src, const char *what, int scale, Fn f) { LN = longn(src) / scale + 1; LV = (int)src.draw(1000); LW = src.range(1, 4); kit_begin(strf("%s %d times (variant %d, %d others)\n", what, LN, LV, LW)); vc_begin(1, 60000000); run_rt(f); nontrivial(LN > 250); }
PROP(c01z, "the channel is used more than 250 times") { marathon(src, "send and receive", 1, [] { static neco_chan *ch; static int cap; cap = LV % 3 == 0 ? LN + LV % 2 : LV % 5 ? LV % 300 : 0; CHECK(neco_chan_make(&ch, 4, (size_t)cap) == NECO_OK, "harness", "chan"); go([] { for (int i = 0; i < LN; i++) { int r = neco_chan_send(ch, &i); CHECK(r == NECO_OK, "result", "send %d returned %d", i, r); } }); for (int i = 0; i < LN; i++) { int v = -1; int r = neco_chan_recv(ch, &v); CHECK(r == NECO_OK && v == i, "message", "receive %d gave %d (%d)", i, v, r); lap(i); } int v; int r = neco_chan_tryrecv(ch, &v); CHECK(r == NECO_EMPTY, "message", "a message too many"); for (int i = 0; i < LN; i++) { int b = neco_chan_broadcast(ch, &i); CHECK(b == 0, "broadcast", "broadcast to nobody returned %d", b); lap(i); } neco_chan_release(ch); }); }
PROP(c02z, "more than 250 references or channels") { marathon(src, "retain and release, close", 1, [] { static neco_chan *ch; CHECK(neco_chan_make(&ch, 4, 2) == NECO_OK, "harness", "chan"); for (int i = 0; i < LN; i++) { CHECK(neco_chan_retain(ch) == NECO_OK, "result", "retain"); lap(i); } int v = 77; CHECK(neco_chan_send(ch, &v) == NECO_OK, "result", "send"); for (int i = 0; i < LN; i++) { CHECK(neco_chan_release(ch) == NECO_OK, "result", "release"); lap(i); } v = 0; CHECK(neco_chan_close(ch) == NECO_OK, "result", "close"); int r = neco_chan_recv(ch, &v); CHECK(r == NECO_OK && v == 77, "message", "the message is gone (%d)", r); r = neco_chan_recv(ch, &v); CHECK(r == NECO_CLOSED, "closed", "%d", r); for (int i = 0; i < LN; i++) { r = neco_chan_send(ch, &v); CHECK(r == NECO_CLOSED, "closed", "send %d after the close returned %d", i, r); r = neco_chan_recv(ch, &v); CHECK(r == NECO_CLOSED, "closed", "receive %d after the close returned %d", i, r); lap(i); } neco_chan_release(ch);
    for (int i = 0; i < LN / 4; i++) { CHECK(neco_chan_make(&ch, (size_t)(i % 9), (size_t)(i % 3)) == NECO_OK, "result", "make"); char b[16] = {0}; if (i % 3) CHECK(neco_chan_send(ch, b) == NECO_OK, "result", "send"); CHECK(neco_chan_close(ch) == NECO_OK, "result", "close"); CHECK(neco_chan_recv(ch, b) == (i % 3 ? NECO_OK : NECO_CLOSED), "result", "recv"); neco_chan_release(ch); lap(i); } }); }
PROP(c03z, "more than 250 selects") { marathon(src, "select", 2, [] { static neco_chan *c[12]; static int n; n = 2 + LV % 11; for (int i = 0; i < n; i++) CHECK(neco_chan_make(&c[i], 4, (size_t)(LV / 11 % 3)) == NECO_OK, "harness", "chan"); go([] { for (int i = 0; i < LN; i++) { int r = neco_chan_send(c[i * 7 % n], &i); CHECK(r == NECO_OK, "result", "send returned %d", r); } }); std::vector<int> next((size_t)n, -1); for (int i = 0; i < LN; i++) { int v = -1, r = neco_chan_selectv(n, c); CHECK(r >= 0 && r < n, "index", "select %d returned %d", i, r); int q = neco_chan_case(c[r], &v); CHECK(q == NECO_OK && v > next[(size_t)r] && v * 7 % n == r, "message", "select %d got message %d from channel %d", i, v, r); next[(size_t)r] = v; lap(i); if (i % 5 == 0) { q = neco_chan_selectv_dl(n, c, 1); if (q != NECO_TIMEDOUT) { CHECK(q >= 0, "result", "select with a past deadline returned %d", q); q = neco_chan_case(c[q], &v); CHECK(q == NECO_OK, "message", "case returned %d", q); i++; } } } settle(); CHECK(neco_chan_tryselectv(n, c) == NECO_EMPTY, "message", "a message too many"); for (int i = 0; i < n; i++) neco_chan_release(c[i]); }); }
PROP(c04z, "the mutex is locked more than 250 times") { marathon(src, "lock and unlock", 4, [] { static neco_mutex mu; mu = (neco_mutex)NECO_MUTEX_INITIALIZER; static int w, r_, left; w = r_ = 0; left = LW; for (int k = 0; k < LW; k++) go([k] { for (int i = 0; i < LN; i++) { bool rd = (i * 31 + k * 7 + LV) % 5 < 2; int r = rd ? neco_mutex_rdlock(&mu) : neco_mutex_lock(&mu); CHECK(r == NECO_OK, "result", "lock returned %d", r); (rd ? r_ : w)++; CHECK(w <= 1 && !(w && r_), "exclusion", "%d writers and %d readers", w, r_); if (i % 3 == 0) neco_yield(); (rd ? r_ : w)--; r = neco_mutex_unlock(&mu); CHECK(r == NECO_OK, "result", "unlock returned %d", r); if (i % 7 == 0) neco_yield(); lap(i); } left--; }); while (left) neco_yield(); CHECK(neco_mutex_trylock(&mu) == NECO_OK, "trylock", "the mutex is not free at the end"); neco_mutex_unlock(&mu); }); }
PROP(c05z, "more than 250 signals") { marathon(src, "signal", 4, [] { static neco_mutex mu; static neco_cond cv; mu = (neco_mutex)NECO_MUTEX_INITIALIZER; cv = (neco_cond)NECO_COND_INITIALIZER; static int got, left; got = 0; left = LW; static bool stop; stop = false; for (int k = 0; k < LW; k++) go([] { neco_mutex_lock(&mu); for (;;) { int r = neco_cond_wait(&cv, &mu); CHECK(r == NECO_OK, "result", "wait returned %d", r); if (stop) break; got++; } neco_mutex_unlock(&mu); left--; }); settle(); for (int i = 0; i < LN; i++) { CHECK(neco_cond_signal(&cv) == NECO_OK, "result", "signal"); neco_yield(); if (i % 3 == 0) neco_yield(); settle(); CHECK(got == i + 1, "signal", "%d wakeups after %d signals", got, i + 1); lap(i); } stop = true; neco_cond_broadcast(&cv); settle(); CHECK(!left, "blocked", "%d still wait", left); }); }
PROP(c06z, "more than 250 cycles") { marathon(src, "add, done, wait", 2, [] { static neco_waitgroup wg; wg = (neco_waitgroup)NECO_WAITGROUP_INITIALIZER; for (int i = 0; i < LN; i++) { int k = 1 + i % 3; CHECK(neco_waitgroup_add(&wg, k) == NECO_OK, "result", "add"); static bool done; done = false; bool w = i % 4 == 0; if (w) go([] { CHECK(neco_waitgroup_wait(&wg) == NECO_OK, "result", "wait"); done = true; }); while (k--) { if (w) CHECK(!done, "early", "cycle %d", i); CHECK(neco_waitgroup_done(&wg) == NECO_OK, "result", "done"); } if (w) { neco_yield(); neco_yield(); CHECK(done, "blocked", "cycle %d", i); } else CHECK(neco_waitgroup_wait(&wg) == NECO_OK, "result", "wait"); CHECK(neco_waitgroup_done(&wg) == NECO_NEGWAITGRP, "result", "done at zero"); lap(i); } for (int i = 0; i < LN; i++) CHECK(neco_waitgroup_add(&wg, 1) == NECO_OK, "result", "add"); for (int i = 0; i < LN; i++) { CHECK(neco_waitgroup_wait_dl(&wg, 1) == NECO_TIMEDOUT, "early", "a wait returned at a count of %d", LN - i); CHECK(neco_waitgroup_done(&wg) == NECO_OK, "result", "done"); lap(i); } CHECK(neco_waitgroup_wait(&wg) == NECO_OK, "result", "wait"); }); }
PROP(c07z, "more than 250 waits with a deadline") { marathon(src, "sleep and time out", 4, [] { static neco_chan *ch; CHECK(neco_chan_make(&ch, 0, 0) == NECO_OK, "harness", "chan"); static bool stop; static int left; stop = false; left = LW; for (int k = 0; k < LW; k++) go([k] { for (int i = 0; !stop; i++) { int64_t t = neco_now(); int64_t d = (1 + (i * 13 + k) % 50) * 1000; CHECK(neco_sleep(d) == NECO_OK, "result", "sleep"); CHECK(neco_now() >= t + d, "early", "a sleep of %lld ended after %lld", (long long)d, (long long)(neco_now() - t)); } left--; }); for (int i = 0; i < LN; i++) { int64_t dl = neco_now() + (i * 17 + LV) % 60 * 1000; int r; switch (i % 3) { case 0: r = neco_chan_recv_dl(ch, nullptr, dl); break; case 1: r = neco_suspend_dl(dl); break; default: r = neco_sleep_dl(dl); if (r == NECO_OK) r = NECO_TIMEDOUT; } int64_t n = neco_now(); CHECK(r == NECO_TIMEDOUT, "result", "wait %d returned %d", i, r); CHECK(n >= dl, "early", "wait %d ended before its deadline", i); CHECK(n - dl < 1000000, "late", "wait %d ended %lld ns after its deadline", i, (long long)(n - dl)); lap(i); } stop = true; while (left) neco_sleep(1000); neco_chan_release(ch); }); }
PROP(c08z, "more than 250 cancelations") { marathon(src, "cancel", 4, [] { static int got, hnd; got = hnd = 0; static bool stop; stop = false; static int64_t id; go([] { id = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, nullptr); for (int i = 0; !stop; i++) { int r = i % 3 == 0 ? neco_suspend() : i % 3 == 1 ? neco_sleep(NECO_HOUR) : neco_yield() == NECO_CANCELED ? NECO_CANCELED : neco_suspend(); CHECK(r == NECO_CANCELED, "result", "operation %d returned %d", i, r); got++; } }); for (int i = 0; i < LN; i++) { if (i == LN - 1) stop = true; int r = neco_cancel(id); CHECK(r == NECO_OK, "result", "cancel %d returned %d", i, r); neco_yield(); neco_yield(); neco_yield(); CHECK(got == i + 1, "cancel", "%d operations were canceled by %d cancelations", got, i + 1); lap(i); } for (int i = 0; i < LN / 4; i++) { go([] { neco_setcanceltype(NECO_CANCEL_ASYNC, nullptr); neco_cleanup_push(+[](void *) { hnd++; }, nullptr); neco_suspend(); neco_cleanup_pop(1); }); CHECK(neco_cancel(neco_lastid()) == NECO_OK, "result", "cancel"); neco_yield(); neco_yield(); CHECK(hnd == i + 1, "cleanup", "%d handlers ran for %d coroutines", hnd, i + 1); lap(i); } }); }
PROP(c09z, "more than 250 coroutines one after the other") { marathon(src, "start a coroutine", 1, [] { static int64_t last, self; last = 0; self = neco_getid(); static int ran; ran = 0; static std::vector<int64_t> old_; static std::vector<int> woke; old_.clear(); woke.clear(); bool keep = LV % 3 == 0; auto live = [] { int k = (int)old_.size(); woke.push_back(0); CHECK(neco_start([](int, void **a) { int k = (int)(intptr_t)a[0]; CHECK(neco_suspend() == NECO_OK, "result", "suspend"); woke[(size_t)k]++; }, 1, (void *)(intptr_t)k) == NECO_OK, "result", "start"); last = neco_lastid(); old_.push_back(last); }; if (keep) for (int k = 0; k < 700; k++) live(); for (int i = 0; i < LN; i++) { if (keep && i > 40000 && last + 1 == old_[0] + 65536) for (int k = 0; k < 700; k++) live(); int r = neco_start([](int argc, void **argv) { CHECK(argc == 2 && argv[0] == &ran && argv[1] == (void *)(intptr_t)ran, "arguments", "coroutine %d got other arguments", ran); int64_t id = neco_getid(); CHECK(id > last && neco_starterid() == self, "identifier", "coroutine %d has identifier %lld, the one before %lld", ran, (long long)id, (long long)last); last = id; ran++; if (ran % 3 == 0) neco_yield(); }, 2, &ran, (void *)(intptr_t)i); CHECK(r == NECO_OK, "result", "start %d returned %d", i, r); CHECK(ran == i + 1, "start", "coroutine %d did not start at once", i); CHECK(neco_lastid() == last, "identifier", "the last identifier is %lld, not %lld", (long long)neco_lastid(), (long long)last); if (i % 5 == 0) { CHECK(neco_join(last) == NECO_OK, "result", "join"); } lap(i); if (i % 16 == 0) { neco_yield(); neco_yield(); } } if (keep) { while (LV % 2 && last + 1 < old_[0] + 65536 && LN > 60000) { go([] {}); last = neco_lastid(); neco_yield(); } for (int k = 0; k < 700; k++) live(); size_t m = old_.size(); for (size_t q = 0; q < m; q++) { size_t k = (q * 611 + (size_t)LV) % m; int r = neco_resume(old_[k]); CHECK(r == NECO_OK, "lookup", "resume of coroutine %lld of %zu living ones returned %d", (long long)old_[k], m - q, r); neco_yield(); neco_yield(); CHECK(woke[k] == 1, "lookup", "resume(%lld) did not resume that coroutine", (long long)old_[k]); CHECK(neco_resume(old_[k]) == NECO_NOTFOUND, "lookup", "coroutine %lld ended and is still found", (long long)old_[k]); lap((int)q); } } settle(); neco_stats st; neco_getstats(&st); CHECK(st.coroutines == 1, "ended", "%zu coroutines at the end", st.coroutines); }); }
PROP(c11z, "more than 250 resumes") { marathon(src, "suspend and resume", 2, [] { static int got; got = 0; static bool stop; stop = false; go([] { while (!stop) { CHECK(neco_suspend() == NECO_OK, "result", "suspend"); got++; } }); int64_t id = neco_lastid(); for (int i = 0; i < LN; i++) { if (i == LN - 1) stop = true; CHECK(neco_resume(id) == NECO_OK, "result", "resume %d", i); neco_yield(); neco_yield(); CHECK(got == i + 1, "resume", "%d returns from suspend after %d resumes", got, i + 1); lap(i); } CHECK(neco_resume(id) == NECO_NOTFOUND, "result", "resume of an ended coroutine"); }); }
PROP(c12z, "more than 250 values or generators") { marathon(src, "yield a value", 2, [] { neco_gen *g; CHECK(neco_gen_start(&g, 4, [](int, void **) { for (int i = 0; i < LN; i++) CHECK(neco_gen_yield(&i) == NECO_OK, "result", "yield"); }, 0) == NECO_OK, "result", "gen_start"); for (int i = 0; i < LN; i++) { int v = -1, r = neco_gen_next(g, &v); CHECK(r == NECO_OK && v == i, "value", "value %d is %d (%d)", i, v, r); lap(i); } int v; CHECK(neco_gen_next(g, &v) == NECO_CLOSED, "closed", "no end"); for (int i = 0; i < LN; i++) neco_gen_retain(g); for (int i = 0; i < LN; i++) neco_gen_release(g); CHECK(neco_gen_next(g, &v) == NECO_CLOSED, "closed", "no end"); neco_gen_release(g); for (int i = 0; i < LN / 4; i++) { CHECK(neco_gen_start(&g, 4, [](int, void **a) { int x = (int)(intptr_t)a[0]; neco_gen_yield(&x); x++; neco_gen_yield(&x); }, 1, (void *)(intptr_t)i) == NECO_OK, "result", "gen_start %d", i); for (int k = 0; k < 3; k++) { v = -1; int r = neco_gen_next(g, &v); CHECK(r == (k < 2 ? NECO_OK : NECO_CLOSED) && (k == 2 || v == i + k), "value", "value %d of generator %d is %d (%d)", k, i, v, r); } neco_gen_release(g); lap(i); } }); }
PROP(c13z, "more than 250 transfers") { marathon(src, "wait for, read and write a descriptor", 4, [] { static int p[2]; int rounds = 1 + LV % 40; for (int k = 0; k < rounds; k++) { CHECK((LV & 1 ? pipe2(p, O_NONBLOCK) : socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) == 0, "harness", "pipe"); static int m; m = LN / rounds; go([] { for (int i = 0; i < m; i++) { uint8_t c = (uint8_t)pat(5, (uint64_t)i); ssize_t z = i % 2 ? neco_write(p[1], &c, 1) : write(p[1], &c, 1); CHECK(z == 1, "write", "%zd", z); if (i % 3) neco_yield(); if (i % 50 == 0) neco_sleep(1000); } }); int64_t id = neco_lastid(); for (int i = 0; i < m; i++) { uint8_t c = 0; if (i % 4 == 0) CHECK(neco_wait(p[0], NECO_WAIT_READ) == NECO_OK, "result", "wait"); ssize_t z = neco_read(p[0], &c, 1); CHECK(z == 1 && c == pat(5, (uint64_t)i), "data", "byte %d", i); lap(i); } neco_join(id); close(p[0]); close(p[1]); } }); }
PROP(c14z, "more than 250 operations on a stream or streams") { marathon(src, "write and read a stream", 4, [] { static int p[2]; CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "harness", "socketpair"); static neco_stream *a, *b; size_t cap = (size_t)(1 + LV % 700); CHECK(neco_stream_make_buffered_size(&a, p[0], cap) == NECO_OK && neco_stream_make_buffered_size(&b, p[1], cap) == NECO_OK, "make", "make"); uint64_t w = 0, r = 0; for (int i = 0; i < LN; i++) { uint8_t c[40]; int k = 1 + (i * 7 + LV) % 40; for (int j = 0; j < k; j++) c[j] = pat(9, w + (uint64_t)j); ssize_t z = neco_stream_write(a, c, (size_t)k); CHECK(z == k, "write", "%zd", z); w += (uint64_t)k; if (i % 9 == 8 || i == LN - 1) { CHECK(neco_stream_flush(a) == NECO_OK, "flush", "flush"); while (r < w) { int n = neco_stream_read_byte(b); CHECK(n == pat(9, r), "data", "byte %llu is %d", (unsigned long long)r, n); r++; if (r % 11 == 0) { CHECK(neco_stream_unread_byte(b) == NECO_OK, "unread", "unread"); r--; uint8_t d[64]; size_t m = (size_t)std::min<uint64_t>(w - r, 30); z = neco_stream_readfull(b, d, m); CHECK(z == (ssize_t)m, "read", "%zd", z); for (size_t j = 0; j < m; j++) CHECK(d[j] == pat(9, r + j), "data", "byte %llu", (unsigned long long)(r + j)); r += m; } } } lap(i); } CHECK(neco_stream_close(a) == NECO_OK, "close", "close"); CHECK(neco_stream_read_byte(b) == NECO_EOF, "eof", "no end"); CHECK(neco_stream_close(b) == NECO_OK, "close", "close"); }); }
PROP(c17z, "more than 250 occurrences one after the other") { marathon(src, "raise and wait for a signal", 4, [] { int sg = LV & 1 ? SIGUSR1 : SIGALRM; for (int i = 0; i < LN; i++) { if (i % 100 == 0) CHECK(neco_signal_watch(sg) == NECO_OK, "result", "watch"); raise(sg); int r = neco_signal_wait_dl(neco_now() + NECO_SECOND); CHECK(r == sg, "lost", "occurrence %d: wait returned %d", i, r); if (i % 100 == 99) { CHECK(neco_signal_wait_dl(1) == NECO_TIMEDOUT, "invented", "a signal too many"); neco_signal_unwatch(sg); } lap(i); } }); }
PROP(c21z, "more than 250 requests") { marathon(src, "draw random bytes", 2, [] { std::vector<uint64_t> a; for (int k = 0; k < 2; k++) { neco_rand_setseed(LV, nullptr); for (int i = 0; i < LN; i++) { uint64_t v = 0; CHECK(neco_rand(&v, 8, NECO_PRNG) == NECO_OK, "result", "rand"); if (i % 7 == 0) { uint32_t c; CHECK(neco_rand(&c, 4, NECO_CSPRNG) == NECO_OK, "result", "rand"); } if (k == 0) a.push_back(v); else CHECK(v == a[(size_t)i], "not-repeated", "request %d gave other bytes with the same seed", i); lap(i); } } std::set<uint64_t> s(a.begin(), a.end()); CHECK(s.size() == a.size(), "repeats", "%zu of %zu requests of 8 bytes differ", s.size(), a.size()); std::set<std::pair<uint64_t, uint64_t>> d; for (int i = 0; i < LN / 2; i++) { uint64_t v[2]; CHECK(neco_rand(v, 16, NECO_CSPRNG) == NECO_OK, "result", "rand"); CHECK(d.insert({v[0], v[1]}).second, "repeats", "cryptographic request %d repeats", i); lap(i); } }); }
// Restarts: runtimes one after the other in one process, in the first thread or
// in fresh ones, each exercised in the same way; none may notice the ones before.
#include <pthread.h>
struct Rst { int k, how; bool thr; };
static std::vector<Rst> rs; static Rst cur; static Fn RF; static int rn; static int64_t rid;
static void fresh() {
    neco_stats st; neco_getstats(&st); CHECK(st.coroutines == 1 && !st.sleepers && !st.evwaiters && !st.sigwaiters && !st.senders && !st.receivers && !st.locked && !st.waitgroupers && !st.condwaiters && !st.suspended, "stats", "runtime %d starts with statistics that are not zero", rn);
    int64_t id = neco_getid(); CHECK(id > rid, "identifier", "runtime %d: identifier %lld after %lld", rn, (long long)id, (long long)rid); rid = id; CHECK(neco_lastid() == 0 && neco_starterid() == 0, "identifier", "runtime %d: last %lld, starter %lld at the start", rn, (long long)neco_lastid(), (long long)neco_starterid());
}
static void rt_one() {
    int rc = neco_start([](int, void **) { fresh(); RF(); int how = cur.how; if (how == 1) go([] { neco_sleep(1000000); }); if (how == 2) { go([] { neco_setcanceltype(NECO_CANCEL_ASYNC, nullptr); neco_suspend(); }); neco_cancel(neco_lastid()); } if (how == 3) neco_exit(); if (how == 4) { go([] { neco_yield(); neco_yield(); }); neco_exit(); } }, 0);
    CHECK(rc == NECO_OK, "runtime", "runtime %d: neco_start returned %d", rn, rc); CHECK(neco_getid() == NECO_PERM, "runtime", "neco_getid() outside a coroutine is not PERM");
}
static void restarts(Src &src, const char *what, bool mainonly, Fn f) {
    rs.clear(); int n = src.range(2, 5); std::string t = strf("%s, in runtimes one after the other:", what); int tot = 0; for (int i = 0; i < n; i++) { Rst r; r.k = src.pick({1, 1, 1, 2, 3, 20, 70}); r.how = (int)src.draw(5); r.thr = !mainonly && src.chance(35); tot += r.k; rs.push_back(r); t += strf(" %dx%s(end %d)", r.k, r.thr ? " in a new thread" : "", r.how); }
    kit_begin(t + "\n"); vc_begin(1, 60000000); alloc_install(); RF = f; rn = 0; rid = 0; int f0 = count_fds(); long a0 = alloc_live();
    for (auto &r : rs) for (int i = 0; i < r.k; i++) { cur = r; vc_progress(); if (r.thr) { pthread_t th; CHECK(pthread_create(&th, nullptr, [](void *) -> void * { rt_one(); return nullptr; }, nullptr) == 0, "harness", "thread"); pthread_join(th, nullptr); } else rt_one(); CHECK(alloc_live() == a0, "leak", "%ld blocks allocated by runtime %d were not freed", alloc_live() - a0, rn); rn++; }
    int f1 = count_fds(); CHECK(f1 == f0, "fdleak", "%d descriptors before, %d after", f0, f1); nontrivial(tot >= 4); count("runtimes", (uint64_t)tot);
}
static int RP[2];
PROP(c09y, "at least 4 runtimes") { restarts(src, "starts and joins", false, [] { static int ran; ran = 0; std::vector<int64_t> v; for (int i = 0; i < 5; i++) { CHECK(neco_start([](int argc, void **argv) { CHECK(argc == 1 && argv[0] == &RP, "arguments", "other arguments"); CHECK(neco_getid() > rid, "identifier", "an identifier was used before"); rid = neco_getid(); ran++; neco_yield(); ran += 100; }, 1, &RP) == NECO_OK, "result", "start"); CHECK(ran % 100 == i + 1, "start", "not started at once"); v.push_back(neco_lastid()); } for (auto id : v) CHECK(neco_join(id) == NECO_OK, "result", "join"); CHECK(ran == 505, "join", "a join returned early"); }); }
PROP(c01y, "at least 4 runtimes") { restarts(src, "channels", false, [] { static neco_chan *c; CHECK(neco_chan_make(&c, 8, (size_t)(rn % 3)) == NECO_OK, "result", "make"); go([] { for (int64_t i = 0; i < 20; i++) CHECK(neco_chan_send(c, &i) == NECO_OK, "result", "send"); }); for (int64_t i = 0; i < 20; i++) { int64_t v = -1; int r = neco_chan_recv(c, &v); CHECK(r == NECO_OK && v == i, "message", "message %lld is %lld (%d)", (long long)i, (long long)v, r); } neco_chan_release(c); neco_chan *z[5]; for (int i = 0; i < 5; i++) CHECK(neco_chan_make(&z[i], 0, (size_t)(i == 4 ? 3 : 0)) == NECO_OK, "result", "make"); for (auto x : z) CHECK(neco_chan_release(x) == NECO_OK, "result", "release"); for (int i = 0; i < 3; i++) { CHECK(neco_chan_make(&z[i], 0, 0) == NECO_OK, "result", "make"); CHECK(neco_chan_tryrecv(z[i], nullptr) == NECO_EMPTY, "message", "a new channel is not empty"); neco_chan_release(z[i]); } }); }
PROP(c07y, "at least 4 runtimes") { restarts(src, "sleeps and deadlines", true, [] { for (int i = 0; i < 6; i++) { int64_t t = neco_now(), d = i * 3000000; int r = i % 2 ? neco_sleep(d) : neco_suspend_dl(t + d); int64_t e = neco_now(); CHECK(r == (i % 2 ? NECO_OK : NECO_TIMEDOUT), "result", "%d", r); CHECK(e >= t + d, "early", "runtime %d: %lld early", rn, (long long)(t + d - e)); CHECK(e < t + d + 5000000, "late", "runtime %d: %lld late", rn, (long long)(e - t - d)); } }); }
PROP(c08y, "at least 4 runtimes") { restarts(src, "cancelations", false, [] { static int got; got = 0; int st = 0, ty = 0; CHECK(neco_setcancelstate(NECO_CANCEL_DISABLE, &st) == NECO_OK && neco_setcanceltype(NECO_CANCEL_INLINE, &ty) == NECO_OK, "result", "set"); CHECK(st == NECO_CANCEL_ENABLE && ty == NECO_CANCEL_ASYNC, "fresh-state", "runtime %d starts with cancel state %d, type %d", rn, st, ty); neco_setcancelstate(NECO_CANCEL_ENABLE, nullptr); for (int i = 0; i < 4; i++) { go([] { neco_setcanceltype(NECO_CANCEL_ASYNC, nullptr); neco_cleanup_push(+[](void *) { got++; }, nullptr); neco_suspend(); neco_cleanup_pop(0); }); CHECK(neco_cancel(neco_lastid()) == NECO_OK, "cancel", "cancel"); CHECK(neco_join(neco_lastid()) == NECO_OK, "join", "join"); CHECK(got == i + 1, "cleanup", "%d of %d handlers ran", got, i + 1); } }); }
PROP(c12y, "at least 4 runtimes") { restarts(src, "generators", false, [] { neco_gen *g; CHECK(neco_gen_start(&g, 4, [](int, void **) { for (int i = 0; i < 9; i++) CHECK(neco_gen_yield(&i) == NECO_OK, "result", "yield"); }, 0) == NECO_OK, "result", "start"); for (int i = 0; i < 9; i++) { int v = -1; CHECK(neco_gen_next(g, &v) == NECO_OK && v == i, "value", "value %d is %d", i, v); } int v; CHECK(neco_gen_next(g, &v) == NECO_CLOSED, "closed", "no end"); neco_gen_release(g); }); }
PROP(c13y, "at least 4 runtimes") { restarts(src, "pipes", false, [] { CHECK(pipe2(RP, O_NONBLOCK) == 0, "harness", "pipe"); go([] { for (int i = 0; i < 5; i++) { neco_sleep(1000000); CHECK(neco_write(RP[1], "abc", 3) == 3, "write", "write"); } }); int64_t id = neco_lastid(); size_t got = 0; while (got < 15) { char b[9]; ssize_t z = neco_read(RP[0], b, sizeof b); CHECK(z > 0, "read", "runtime %d: read returned %zd", rn, z); for (ssize_t j = 0; j < z; j++) CHECK(b[j] == "abc"[(got + (size_t)j) % 3], "data", "data"); got += (size_t)z; } neco_join(id); close(RP[0]); close(RP[1]); }); }
PROP(c14y, "at least 4 runtimes") { restarts(src, "streams", false, [] { CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, RP) == 0, "harness", "socketpair"); static neco_stream *a, *b; CHECK(neco_stream_make_buffered(&a, RP[0]) == NECO_OK && neco_stream_make_buffered(&b, RP[1]) == NECO_OK, "make", "make"); go([] { for (int i = 0; i < 300; i++) { char c = (char)i; CHECK(neco_stream_write(a, &c, 1) == 1, "write", "write"); if (i % 70 == 0) neco_stream_flush(a); } CHECK(neco_stream_close(a) == NECO_OK, "close", "close"); }); int64_t id = neco_lastid(); for (int i = 0; i < 300; i++) CHECK(neco_stream_read_byte(b) == (i & 255), "data", "byte %d", i); CHECK(neco_stream_read_byte(b) == NECO_EOF, "eof", "no end"); neco_stream_close(b); neco_join(id); }); }
PROP(c17y, "at least 4 runtimes") { restarts(src, "signals", true, [] { int sg = rn % 3 == 0 ? SIGUSR1 : rn % 3 == 1 ? SIGUSR2 : SIGALRM; CHECK(neco_signal_wait() == NECO_NOSIGWATCH, "watch", "runtime %d starts with a watch", rn); CHECK(neco_signal_watch(sg) == NECO_OK, "result", "watch"); CHECK(neco_signal_wait_dl(neco_now() + 1000000) == NECO_TIMEDOUT, "invented", "runtime %d got a signal of an earlier one", rn); for (int i = 0; i < 3; i++) { if (i == 1) go([] { neco_sleep(1000000); raise(rn % 3 == 0 ? SIGUSR1 : rn % 3 == 1 ? SIGUSR2 : SIGALRM); }); else raise(sg); int r = neco_signal_wait_dl(neco_now() + NECO_SECOND); CHECK(r == sg, "lost", "runtime %d: wait returned %d", rn, r); } if (rn % 2) neco_signal_unwatch(sg); }); }
PROP(c18y, "at least 4 runtimes") { restarts(src, "background tasks", false, [] { static int done; static pthread_t me; done = 0; me = pthread_self(); for (int i = 0; i < 6; i++) go([i] { static int x[6]; x[i] = 0; struct A { int *p; } a{&x[i]}; int r = neco_work(i % 3 - 1, [](void *v) { CHECK(!pthread_equal(me, pthread_self()), "thread", "the task ran in the thread of the coroutines"); (*((A *)v)->p)++; }, &a); CHECK(r == NECO_OK, "result", "neco_work returned %d", r); CHECK(x[i] == 1, "task", "runtime %d: the task ran %d times", rn, x[i]); done++; }); while (done < 6) neco_yield(); }); }
PROP(c21y, "at least 4 runtimes") { static uint64_t first[3]; restarts(src, "random numbers", false, [] { CHECK(neco_rand_setseed(4711, nullptr) == NECO_OK, "result", "setseed"); uint64_t v[3]; CHECK(neco_rand(v, sizeof v, NECO_PRNG) == NECO_OK, "result", "rand"); if (rn == 0) memcpy(first, v, sizeof v); CHECK(!memcmp(first, v, sizeof v), "not-repeated", "runtime %d draws other numbers with the same seed", rn); static std::set<uint64_t> cs; if (rn == 0) cs.clear(); uint64_t c; CHECK(neco_rand(&c, 8, NECO_CSPRNG) == NECO_OK, "result", "rand"); CHECK(cs.insert(c).second, "repeats", "runtime %d draws the cryptographic bytes of an earlier one", rn); }); }
// Many threads with a runtime each; many connections to one server.
#include <netinet/in.h>
#include <atomic>
static pthread_mutex_t idmu = PTHREAD_MUTEX_INITIALIZER; static std::set<int64_t> allids; static std::atomic<int> inside_; static int nthr, nco;
static void newid() { int64_t id = neco_getid(); pthread_mutex_lock(&idmu); bool ok = allids.insert(id).second; pthread_mutex_unlock(&idmu); CHECK(ok, "identifier", "two coroutines have identifier %lld", (long long)id); }
PROP(c19b, "more than 8 threads with a runtime each at the same time") {
    nthr = src.pick({2, 4, 9, 16, 17, 32, 33, 40, 65}); nco = src.range(1, 30); kit_begin(strf("%d threads, %d coroutines each\n", nthr, nco)); allids.clear(); inside_ = 0;
    std::vector<pthread_t> th((size_t)nthr); for (auto &t : th) CHECK(pthread_create(&t, nullptr, [](void *) -> void * {
        inside_++; while (inside_ < nthr) sched_yield();
        struct L { neco_chan *c = nullptr; int left = nco; long sum = 0; int64_t self = 0; } l;
        int r = neco_start([](int, void **a) { L *l = (L *)a[0]; newid(); l->self = neco_getid(); CHECK(neco_chan_make(&l->c, sizeof(int), 1) == NECO_OK, "result", "make"); for (int i = 0; i < nco; i++) { int q = neco_start([](int, void **a) { L *l = (L *)a[0]; int v = (int)(intptr_t)a[1]; newid(); CHECK(neco_starterid() == l->self, "identifier", "the starter is another thread's coroutine"); for (int k = 0; k < 5; k++) { CHECK(neco_chan_send(l->c, &v) == NECO_OK, "result", "send"); if ((v + k) % 3 == 0) neco_sleep(1000); } l->left--; }, 2, l, (void *)(intptr_t)i); CHECK(q == NECO_OK, "result", "start returned %d", q); } for (int i = 0; i < nco * 5; i++) { int v = -1; CHECK(neco_chan_recv(l->c, &v) == NECO_OK && v >= 0 && v < nco, "message", "a message of another runtime"); l->sum += v; } neco_chan_release(l->c); neco_stats st; neco_getstats(&st); CHECK(st.coroutines <= (size_t)nco + 1, "stats", "%zu coroutines in a runtime of %d", st.coroutines, nco + 1); uint64_t x = 0; neco_rand_setseed(5, nullptr); neco_rand(&x, 8, NECO_PRNG); uint64_t y = 0; neco_yield(); neco_rand_setseed(5, nullptr); neco_rand(&y, 8, NECO_PRNG); CHECK(x == y, "rand", "the sequence is disturbed by another thread"); }, 1, &l);
        CHECK(r == NECO_OK, "runtime", "neco_start returned %d", r); CHECK(l.left == 0 && l.sum == 5l * nco * (nco - 1) / 2, "lost", "%d coroutines did not end, sum %ld", l.left, l.sum); return nullptr; }, nullptr) == 0, "harness", "thread");
    for (auto &t : th) pthread_join(t, nullptr); CHECK((int)allids.size() == nthr * (nco + 1), "identifier", "%zu identifiers of %d coroutines", allids.size(), nthr * (nco + 1)); nontrivial(nthr > 8); count("coroutines", (uint64_t)(nthr * (nco + 1)));
}
static int c20left, c20fd, c20n;
PROP(c20b, "more than 20 connections at once") {
    c20n = std::min(crowdn(src), 200); static int how, batch; how = (int)src.draw(3); batch = src.range(1, 40); kit_begin(strf("%d coroutines dial one server (%s), accepted %s\n", c20n, how == 0 ? "tcp" : how == 1 ? "tcp4" : "tcp6", batch > 20 ? "late" : "at once")); vc_begin(1, 200000000);
    run_rt([&] {
        const char *net = how == 0 ? "tcp" : how == 1 ? "tcp4" : "tcp6"; c20fd = neco_serve(net, how == 2 ? "[::1]:0" : "127.0.0.1:0"); if (c20fd < 0 && how == 2) inconclusive("no IPv6"); CHECK(c20fd >= 0, "serve", "serve returned %d", c20fd); struct sockaddr_storage sa; socklen_t sl = sizeof sa; CHECK(getsockname(c20fd, (struct sockaddr *)&sa, &sl) == 0, "harness", "getsockname"); int port = ntohs(how == 2 ? ((struct sockaddr_in6 *)&sa)->sin6_port : ((struct sockaddr_in *)&sa)->sin_port); static std::string addr, nets; addr = strf(how == 2 ? "[::1]:%d" : "127.0.0.1:%d", port); nets = net; c20left = c20n; static std::vector<int> seen; seen.assign((size_t)c20n, 0);
        auto acc = [] { go([] { for (int i = 0; i < c20n; i++) { int fd = neco_accept(c20fd, nullptr, nullptr); CHECK(fd >= 0, "accept", "accept returned %d", fd); CHECK(fcntl(fd, F_GETFL) & O_NONBLOCK, "nonblock", "an accepted descriptor blocks"); go([fd] { int v = -1; ssize_t z = neco_read(fd, &v, sizeof v); CHECK(z == sizeof v && v >= 0 && v < c20n && !seen[(size_t)v]++, "data", "the server read %zd, %d", z, v); v += 1000; z = neco_write(fd, &v, sizeof v); CHECK(z == sizeof v, "write", "%zd", z); char c; z = neco_read(fd, &c, 1); CHECK(z == 0, "eof", "the end of a connection is reported as %zd", z); close(fd); }); } }); };
        if (batch <= 20) acc(); std::vector<int64_t> ids; for (int i = 0; i < c20n; i++) { go([i] { int fd = neco_dial(nets.c_str(), addr.c_str()); CHECK(fd >= 0, "dial", "dial %d of %d returned %d (%s)", i, c20n, fd, strerror(errno)); CHECK(fcntl(fd, F_GETFL) & O_NONBLOCK, "nonblock", "a dialed descriptor blocks"); int v = i; CHECK(neco_write(fd, &v, sizeof v) == sizeof v, "write", "write"); ssize_t z = neco_read(fd, &v, sizeof v); CHECK(z == sizeof v && v == i + 1000, "data", "connection %d of %d: read %zd, %d", i, c20n, z, v); close(fd); c20left--; }); ids.push_back(neco_lastid()); vc_progress(); }
        if (batch > 20) { for (int k = 0; k < batch; k++) neco_yield(); acc(); } for (auto id : ids) { neco_join(id); vc_progress(); } CHECK(!c20left, "stuck", "%d connections", c20left); settle(); for (int k = 0; k < 50; k++) neco_sleep(100000); close(c20fd);
    });
    nontrivial(c20n > 20);
}
