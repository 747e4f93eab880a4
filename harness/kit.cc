#include "kit.h"
#include <dirent.h>
std::vector<std::string> g_tr; std::string g_txt;
void tr(const char *fmt, ...) {
    vc_progress();
    if (g_tr.size() > 4000) return;
    char b[1024]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); g_tr.push_back(b);
}
static std::string rend() {
    std::string r = g_txt + "\n-- trace --\n"; size_t st = g_tr.size() > 150 ? g_tr.size() - 150 : 0;
    for (size_t i = st; i < g_tr.size(); i++) r += g_tr[i] + "\n";
    return r;
}
void kit_begin(const std::string &text) { g_txt = text; case_text(text); g_render = rend; }
static void entry(int, void **argv) { Fn *f = (Fn *)argv[0]; (*f)(); }
static std::deque<Fn> keep;
int go(Fn f) { keep.push_back(f); return neco_start(entry, 1, &keep.back()); }
int gov(Fn f) { keep.push_back(f); void *a[1] = {&keep.back()}; return neco_startv(entry, 1, a); }
static void hang() { fail("hang", "the scheduler made no progress for %llu clock readings", (unsigned long long)vc_reads); }
void vc_begin(int64_t tick, uint64_t budget) { vc_on = 1; vc_tick = tick; vc_budget = budget; vc_hang = hang; vc_progress(); }
void run_rt(Fn f, bool leak) {
    alloc_install(); int f0 = count_fds(); long a0 = alloc_live(); bool ended = false;
    int rc = go([&] { f(); ended = true; });
    CHECK(rc == NECO_OK, "runtime", "neco_start (runtime) returned %d", rc);
    (void)ended;
    if (leak) {
        CHECK(alloc_live() == a0, "leak", "%ld blocks allocated by the runtime were not freed", alloc_live() - a0);
        int f1 = count_fds(); CHECK(f1 == f0, "fdleak", "%d file descriptors before, %d after", f0, f1);
    }
    CHECK(neco_getid() == NECO_PERM, "runtime", "neco_getid() outside a coroutine is not PERM");
}
long count_maps() {
    FILE *f = fopen("/proc/self/maps", "r"); long n = 0; int c; if (!f) return -1;
    while ((c = getc(f)) != EOF) n += c == '\n';
    fclose(f); return n;
}
int count_threads() {
    int n = 0; DIR *d = opendir("/proc/self/task"); if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d); return n - 2;
}
