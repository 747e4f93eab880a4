// Small property-based-testing engine: choice-sequence generation, one forked
// child per case, integrated shrinking, label histogram, samples, replay.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <initializer_list>

struct Src {
    std::vector<uint32_t> *rec;   // recorded choices
    const uint32_t *rep = nullptr;
    size_t nrep = 0, pos = 0;
    uint64_t s = 0;
    bool replay = false;
    uint32_t draw(uint32_t n);                    // uniform [0,n); 0 simplest
    int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)draw(100) >= 100 - pct; } // 0 => false
    bool more(int pct) { return chance(pct); }
    int weighted(std::initializer_list<int> w);
    int weighted(const std::vector<int> &w);
    template <class T> T pick(std::initializer_list<T> v) {
        return *(v.begin() + draw((uint32_t)v.size()));
    }
    uint64_t u64() { uint64_t h = draw(0xffffffffu); return h << 32 | draw(0xffffffffu); }
};

typedef void (*prop_fn)(Src &);
struct Prop { const char *name; prop_fn fn; const char *rule; };
void register_prop(const char *name, prop_fn fn, const char *rule);
struct PropReg { PropReg(const char *n, prop_fn f, const char *r) { register_prop(n, f, r); } };
#define PROP(name, rule) static void name(Src &); \
    static PropReg reg_##name(#name, name, rule); static void name(Src &src)

// ---- called from inside a case (child process) ----
extern std::string (*g_render)();                 // text of the current case
void case_hash(uint64_t h);                       // mix into the identity of the case
void case_hash_str(const std::string &s);
void case_text(const std::string &s);              // identity and text of the case, kept even if it crashes
void nontrivial(bool v);                          // non-trivial by the stated rule
void label(const char *name);                     // histogram
void count(const char *name, uint64_t n);
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void pass();
[[noreturn]] void inconclusive(const char *why);
#define CHECK(c, kind, ...) do { if (!(c)) fail(kind, __VA_ARGS__); } while (0)
bool want_render();
uint64_t mix64(uint64_t);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// a scratch directory private to this case, removed by the parent
std::string scratch_dir();

// another build of the same harness, given with --peer: runs the same case there
const std::vector<std::string> &peers();
bool is_peer();
void report_value(uint64_t v);
int peer_value(const std::string &path, uint64_t *v);   // status of the case in the other build (1 = pass)
