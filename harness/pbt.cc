#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>

#define MAXCH 60000
#define MAXLAB 160
struct Shared {
    volatile int status;      // 0 running 1 pass 2 fail 3 inconclusive
    char kind[64];
    char msg[6000];
    char render[40000];
    uint64_t hash;
    int nontriv;
    uint64_t value;
    char prop[64];
    int nlab;
    struct { char name[48]; uint64_t n; } lab[MAXLAB];
    uint32_t nch;
    uint32_t ch[MAXCH];
};
static Shared *sh;
static bool g_want_render;
std::string (*g_render)();
static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void register_prop(const char *n, prop_fn f, const char *r) { props().push_back({n, f, r}); }

uint64_t mix64(uint64_t k) {
    k += 0x9e3779b97f4a7c15ull;
    k = (k ^ (k >> 30)) * 0xbf58476d1ce4e5b9ull;
    k = (k ^ (k >> 27)) * 0x94d049bb133111ebull;
    return k ^ (k >> 31);
}
uint32_t Src::draw(uint32_t n) {
    if (n <= 1) n = 1;
    uint32_t v;
    if (replay) {
        v = pos < nrep ? rep[pos] : 0;
        if (v >= n) v = n - 1;
    } else {
        s += 0x9e3779b97f4a7c15ull;
        v = (uint32_t)((mix64(s) >> 32) % n);
    }
    pos++;
    if (sh->nch < MAXCH) sh->ch[sh->nch++] = v;
    return v;
}
int Src::weighted(const std::vector<int> &w) {
    int t = 0; for (int x : w) t += x;
    int v = (int)draw((uint32_t)t), i = 0;
    for (int x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
int Src::weighted(std::initializer_list<int> w) { return weighted(std::vector<int>(w)); }

std::string strf(const char *fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    return b;
}
void case_hash(uint64_t h) { sh->hash = mix64(sh->hash ^ h); }
void case_hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    case_hash(h);
}
void case_text(const std::string &s) { case_hash_str(s); snprintf(sh->render, sizeof sh->render, "%s", s.c_str()); }
void nontrivial(bool v) { if (v) sh->nontriv = 1; }
void count(const char *name, uint64_t n) {
    for (int i = 0; i < sh->nlab; i++)
        if (!strcmp(sh->lab[i].name, name)) { sh->lab[i].n += n; return; }
    if (sh->nlab < MAXLAB) {
        int i = sh->nlab;
        snprintf(sh->lab[i].name, sizeof sh->lab[i].name, "%s", name);
        sh->lab[i].n = n; sh->nlab = i + 1;
    }
}
void label(const char *name) {
    for (int i = 0; i < sh->nlab; i++)
        if (!strcmp(sh->lab[i].name, name)) { sh->lab[i].n = 1; return; }
    count(name, 1);
}
static void put_render() {
    if (g_render) {
        std::string r = g_render();
        snprintf(sh->render, sizeof sh->render, "%s", r.c_str());
    }
}
bool want_render() { return g_want_render; }
void fail(const char *kind, const char *fmt, ...) {
    if (sh->status == 0) {
        va_list a; va_start(a, fmt);
        vsnprintf(sh->msg, sizeof sh->msg, fmt, a); va_end(a);
        snprintf(sh->kind, sizeof sh->kind, "%s", kind);
        put_render();
        sh->status = 2;
    }
    _exit(0);
}
void pass() {
    if (g_want_render) put_render();
    if (sh->status == 0) sh->status = 1;
    _exit(0);
}
void inconclusive(const char *why) {
    snprintf(sh->msg, sizeof sh->msg, "%s", why);
    if (sh->status == 0) sh->status = 3;
    _exit(0);
}
static std::string g_scratch;
std::string scratch_dir() { mkdir(g_scratch.c_str(), 0700); return g_scratch; }
static void rmtree(const std::string &p) {
    DIR *d = opendir(p.c_str());
    if (d) {
        while (dirent *e = readdir(d)) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            std::string q = p + "/" + e->d_name; struct stat st;
            if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(q); else unlink(q.c_str());
        }
        closedir(d);
    }
    rmdir(p.c_str());
}

static volatile pid_t g_child; static volatile int g_walltimeout;
static void on_alarm(int) { g_walltimeout = 1; if (g_child > 0) kill(g_child, SIGKILL); }

static std::vector<std::string> g_peers; static bool g_peer_mode;
const std::vector<std::string> &peers() { return g_peers; }
bool is_peer() { return g_peer_mode; }
void report_value(uint64_t v) { sh->value = v; }
int peer_value(const std::string &path, uint64_t *v) {
    std::string f = scratch_dir() + "/choices";
    FILE *o = fopen(f.c_str(), "w"); if (!o) inconclusive("scratch");
    fprintf(o, "choices:\n"); for (uint32_t i = 0; i < sh->nch; i++) fprintf(o, "%u%c", sh->ch[i], i % 32 == 31 ? '\n' : ' ');
    fprintf(o, "\nend\n"); fclose(o);
    std::string cmd = path + " --peer-mode --prop " + sh->prop + " --scratch " + scratch_dir() + " --replay " + f;
    FILE *p = popen(cmd.c_str(), "r"); if (!p) inconclusive("popen");
    char line[4096]; int st = -1;
    while (fgets(line, sizeof line, p)) {
        unsigned long long x;
        if (sscanf(line, "value=%llu", &x) == 1) *v = x;
        else sscanf(line, "status=%d", &st);
    }
    pclose(p);
    return st;
}
struct Outcome { int status; std::string kind, msg; };
static int g_cpu = 15, g_wall = 25;
static const char *g_errfile = "/dev/null";

static Outcome run_case(const Prop &p, uint64_t seed, const std::vector<uint32_t> *rep, bool render) {
    sh->status = 0; sh->kind[0] = sh->msg[0] = sh->render[0] = 0;
    sh->hash = 7; sh->nontriv = 0; sh->value = 0; sh->nlab = 0; sh->nch = 0;
    g_walltimeout = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        int fd = open(g_errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); }
        fd = open("/dev/null", O_RDONLY); if (fd >= 0) { dup2(fd, 0); close(fd); }
        struct rlimit rl = {(rlim_t)g_cpu, (rlim_t)g_cpu + 2}; setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_IGN);
        g_want_render = render;
        Src s; s.rec = nullptr;
        if (rep) { s.replay = true; s.rep = rep->data(); s.nrep = rep->size(); }
        else s.s = seed;
        p.fn(s);
        pass();
    }
    g_child = pid;
    alarm((unsigned)g_wall);
    int st = 0; rusage ru;
    while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
    alarm(0); g_child = 0;
    kill(-pid, SIGKILL); // anything the case left behind in its own process group
    if (!g_scratch.empty() && access(g_scratch.c_str(), F_OK) == 0) rmtree(g_scratch);
    Outcome o; o.status = sh->status;
    if (sh->status == 0) {
        if (g_walltimeout) { o.status = 2; o.kind = "stall"; o.msg = strf("the case was still not finished after %d s", g_wall); }
        else if (WIFSIGNALED(st)) {
            o.status = 2;
            if (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL && ru.ru_utime.tv_sec + ru.ru_stime.tv_sec >= g_cpu)) {
                o.kind = "hang"; o.msg = strf("no progress: case used more than %d s of CPU time", g_cpu);
            } else if (WTERMSIG(st) == SIGKILL) { o.status = 3; o.msg = "killed"; }
            else { o.kind = strf("crash-sig%d", WTERMSIG(st)); o.msg = strf("process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
        } else {
            o.status = 2; o.kind = strf("exit-%d", WEXITSTATUS(st));
            o.msg = strf("process terminated with exit status %d before the case finished", WEXITSTATUS(st));
        }
        sh->kind[0] = 0;
    } else { o.kind = sh->kind; o.msg = sh->msg; }
    return o;
}

static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += strf("\\u%04x", c);
        else r += (char)c;
    }
    return r;
}
// with --kinds, only failures of the listed kinds count (the others belong to other properties)
static std::vector<std::string> g_kinds;
static bool counts(const std::string &k) {
    if (g_kinds.empty()) return true;
    for (auto &x : g_kinds) if (x == k || (x.back() == '*' && !k.compare(0, x.size() - 1, x, 0, x.size() - 1))) return true;
    return false;
}
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<uint32_t> shrink(const Prop &p, std::vector<uint32_t> cur, const std::string &kind, double budget_s, int &tries) {
    double end = now_s() + budget_s; tries = 0;
    auto bad = [&](const std::vector<uint32_t> &c) {
        tries++;
        Outcome o = run_case(p, 0, &c, false);
        return o.status == 2 && o.kind == kind;
    };
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        for (size_t bs = std::max<size_t>(1, cur.size() / 2); bs >= 1 && now_s() < end; bs /= 2) {
            for (long st = (long)cur.size() - (long)bs; now_s() < end; st -= (long)bs) {
                if (st < 0) { if (st + (long)bs <= 0) break; st = 0; }
                if (st + (long)bs <= (long)cur.size()) {
                    std::vector<uint32_t> c(cur); c.erase(c.begin() + st, c.begin() + st + (long)bs);
                    if (bad(c)) { cur = c; progress = true; }
                }
                if (st == 0) break;
            }
            if (bs == 1) break;
        }
        for (size_t i = 0; i < cur.size() && now_s() < end; i++) {
            if (!cur[i]) continue;
            std::vector<uint32_t> c(cur); c[i] = 0;
            if (bad(c)) { cur = c; progress = true; continue; }
            uint32_t lo = 0, hi = cur[i];
            while (lo + 1 < hi && now_s() < end) {
                uint32_t m = lo + (hi - lo) / 2; c = cur; c[i] = m;
                if (bad(c)) hi = m; else lo = m;
            }
            if (hi < cur[i]) { cur[i] = hi; progress = true; }
        }
        while (!cur.empty() && cur.back() == 0) cur.pop_back();
    }
    return cur;
}

int main(int argc, char **argv) {
    std::string prop, out, replay; uint64_t seed = 1; long start = 0, step = 1, cnt = 100; double budget = 1e9, shrinkb = 20;
    bool verbose = false, list = false, racy = false;
    const char *scr = "/tmp";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--start") start = atol(nx()); else if (a == "--step") step = atol(nx());
        else if (a == "--count") cnt = atol(nx()); else if (a == "--budget") budget = atof(nx());
        else if (a == "--shrink") shrinkb = atof(nx());
        else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--scratch") scr = nx();
        else if (a == "--cpu") g_cpu = atoi(nx()); else if (a == "--wall") g_wall = atoi(nx());
        else if (a == "--stderr") g_errfile = nx();
        else if (a == "--peer") g_peers.push_back(nx()); else if (a == "--peer-mode") g_peer_mode = true;
        else if (a == "--kinds") { std::string t = nx(); size_t b = 0; while (b <= t.size()) { size_t e = t.find(',', b); if (e == std::string::npos) e = t.size(); if (e > b) g_kinds.push_back(t.substr(b, e - b)); b = e + 1; } }
        else if (a == "--racy") racy = true; else if (a == "-v") verbose = true; else if (a == "--list") list = true;
    }
    if (list) { for (auto &p : props()) printf("%s\t%s\n", p.name, p.rule); return 0; }
    const Prop *pp = nullptr; for (auto &p : props()) if (prop == p.name) pp = &p;
    if (!pp) { fprintf(stderr, "no such prop %s\n", prop.c_str()); return 3; }
    g_scratch = strf("%s/pbt.%d", scr, (int)getpid());
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    snprintf(sh->prop, sizeof sh->prop, "%s", prop.c_str());
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, 0);
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 3; }
        std::vector<uint32_t> c; char line[1 << 16]; bool in = false;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "choices:", 8)) in = true;
            else if (in && !strncmp(line, "end", 3)) in = false;
            else if (in) { char *t = strtok(line, " \n"); while (t) { c.push_back((uint32_t)strtoul(t, 0, 10)); t = strtok(0, " \n"); } }
        }
        fclose(f);
        Outcome o = run_case(*pp, 0, &c, true);
        for (int r = 1; racy && r < 30 && o.status == 1; r++) o = run_case(*pp, 0, &c, true);
        if (g_peer_mode) printf("value=%llu\n", (unsigned long long)sh->value);
        printf("status=%d kind=%s msg=%s\n", o.status, o.kind.c_str(), o.msg.c_str());
        if (verbose) printf("%s\n", sh->render);
        if (o.status == 2 && !counts(o.kind)) return 0;
        return o.status == 2 ? 1 : o.status == 1 ? 0 : 4;
    }
    double t0 = now_s(); long done = 0, inc = 0; std::unordered_set<uint64_t> seen; uint64_t nt = 0;
    std::map<std::string, uint64_t> labs; std::vector<std::string> samples; std::string incwhy;
    std::string failjson = "null"; bool cut = false; long unrepro = 0, other = 0, slowother = 0; std::string unrepro_msg;
    for (long k = 0; k < cnt; k++) {
        if (now_s() - t0 > budget) { cut = true; break; }
        long idx = start + k * step;
        uint64_t cs = mix64(mix64(seed * 1000003ull) ^ mix64((uint64_t)idx * 7919ull + 13));
        bool smp = samples.size() < 4 && (k % 7 == 3 || k < 1);
        static const bool dbg = getenv("PBT_DEBUG") != nullptr;
        Outcome o = run_case(*pp, cs, nullptr, smp || verbose || dbg);
        done++;
        if (dbg && o.status == 2) fprintf(stderr, "case %ld kind=%s msg=%s\n%s\n", idx, o.kind.c_str(), o.msg.c_str(), sh->render);
        if (verbose) printf("case %ld status=%d kind=%s msg=%s\n%s\n", idx, o.status, o.kind.c_str(), o.msg.c_str(), sh->render);
        if (o.status == 3) { inc++; incwhy = o.msg; continue; }
        if (o.status == 1) {
            for (int i = 0; i < sh->nlab; i++) labs[sh->lab[i].name] += sh->lab[i].n;
            if (sh->nontriv && seen.insert(sh->hash).second) nt++;
            if (smp && sh->nontriv) samples.push_back(sh->render);
            continue;
        }
        if (!counts(o.kind)) { other++; if (o.kind == "stall" || o.kind == "hang") slowother++; if (slowother > 2) { cut = true; break; } continue; }
        std::vector<uint32_t> ch(sh->ch, sh->ch + sh->nch);
        std::string kind = o.kind, m0 = o.msg;
        // must reproduce from its own recorded choices, three times
        int rep = 0;
        bool hangs = kind == "stall" || kind == "hang";
        int want = racy ? 1 : hangs ? 2 : 3, most = !racy ? want : hangs ? 6 : 40;
        for (int r = 0; r < most && rep < want; r++) { Outcome q = run_case(*pp, 0, &ch, false); if (q.status == 2 && counts(q.kind)) { rep++; if (q.kind != kind) kind = q.kind; } }
        // a racy property may fail on a case only now and then: three failures on different cases count as well
        if (rep < want) { unrepro++; unrepro_msg = m0; if (racy && unrepro >= 3) {} else { if (unrepro > 50) break; continue; } }
        int tries = 0;
        bool slow = kind == "stall" || racy;
        std::vector<uint32_t> mn = slow ? ch : shrink(*pp, ch, kind, shrinkb, tries);
        int ok = 0; Outcome q;
        for (int r = 0; r < (racy ? (hangs ? 2 : 40) : slow ? 1 : 3) && !(racy && ok); r++) { q = run_case(*pp, 0, &mn, true); if (q.status == 2) ok++; }
        if (ok < (slow ? 1 : 3)) { mn = ch; q = run_case(*pp, 0, &mn, true); if (q.status != 2) { q.kind = kind; q.msg = m0; } }
        std::string cstr; for (auto v : mn) { cstr += strf("%u ", v); }
        failjson = "{\"index\":" + std::to_string(idx) + ",\"kind\":\"" + jesc(q.kind) + "\",\"msg\":\"" + jesc(q.msg) +
            "\",\"render\":\"" + jesc(sh->render) + "\",\"choices\":\"" + cstr + "\",\"orig_choices\":" + std::to_string(ch.size()) +
            ",\"shrink_runs\":" + std::to_string(tries) + "}";
        break;
    }
    std::string j = "{\"prop\":\"" + prop + "\",\"rule\":\"" + jesc(pp->rule) + "\",\"evaluations\":" + std::to_string(done) +
        ",\"distinct_nontrivial\":" + std::to_string(nt) + ",\"inconclusive\":" + std::to_string(inc) +
        ",\"inconclusive_why\":\"" + jesc(incwhy) + "\",\"cut\":" + (cut ? "true" : "false") +
        ",\"unreproduced\":" + std::to_string(unrepro) + ",\"other_kinds\":" + std::to_string(other) + ",\"unreproduced_msg\":\"" + jesc(unrepro_msg) + "\",\"wall\":" + strf("%.3f", now_s() - t0) + ",\"labels\":{";
    bool first = true; for (auto &l : labs) { if (!first) j += ","; first = false; j += "\"" + jesc(l.first) + "\":" + std::to_string(l.second); }
    j += "},\"samples\":["; first = true;
    for (auto &s : samples) { if (!first) j += ","; first = false; j += "\"" + jesc(s) + "\""; }
    j += "],\"hashes\":["; first = true; size_t hn = 0;
    for (auto h : seen) { if (hn++ > 400000) break; if (!first) j += ","; first = false; j += std::to_string(h & 0xffffffffffffull); }
    j += "],\"failure\":" + failjson + "}";
    if (out.empty()) printf("%s\n", j.c_str());
    else { FILE *f = fopen(out.c_str(), "w"); if (!f) return 3; fputs(j.c_str(), f); fclose(f); }
    rmtree(g_scratch);
    return 0;
}
