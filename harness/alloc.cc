// Counting allocator with fault injection, poisoning and canaries, installed
// with neco_env_setallocator.
#include "kit.h"
#include <dirent.h>
long alloc_fail_at = -1, alloc_count = 0, alloc_fail_len = 1, alloc_failed = 0; int64_t alloc_only = 0; // coroutine whose allocations fail (0: all)
static long live_blocks = 0;
struct Hd { uint64_t magic; uint64_t size; };
static const uint64_t LIVE = 0xa110c8ed5afeb10cull, DEAD = 0xdeadb10cf7eedf7eull, TAIL = 0x7a117a117a117a11ull;
static bool failing() {
    if (alloc_only && alloc_fail_at >= 0 && neco_getid() != alloc_only) return false;
    long c = __atomic_add_fetch(&alloc_count, 1, __ATOMIC_SEQ_CST);
    bool f = alloc_fail_at >= 0 && c >= alloc_fail_at && c < alloc_fail_at + alloc_fail_len;
    if (f) __atomic_add_fetch(&alloc_failed, 1, __ATOMIC_SEQ_CST);
    return f;
}
static void *mk(size_t n) {
    Hd *h = (Hd *)malloc(sizeof(Hd) + n + 8); if (!h) return nullptr;
    h->magic = LIVE; h->size = n; char *p = (char *)(h + 1);
    memset(p, 0xCD, n > 65536 ? 65536 : n); memcpy(p + n, &TAIL, 8);
    __atomic_add_fetch(&live_blocks, 1, __ATOMIC_SEQ_CST); return p;
}
static void un(void *v) {
    Hd *h = (Hd *)v - 1;
    if (h->magic != LIVE) fail("heap", "a block was freed that is not allocated (double free?)");
    if (memcmp((char *)v + h->size, &TAIL, 8)) fail("heap", "memory behind a block of %llu bytes was overwritten", (unsigned long long)h->size);
    h->magic = DEAD; memset(v, 0xDD, h->size > 65536 ? 65536 : h->size);
    __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_SEQ_CST); free(h);
}
static void *t_malloc(size_t n) { return failing() ? nullptr : mk(n); }
static void *t_realloc(void *o, size_t n) {
    if (failing()) return nullptr;
    void *p = mk(n); if (!p) return p;
    if (o) { size_t on = ((Hd *)o - 1)->size; memcpy(p, o, on < n ? on : n); un(o); }
    return p;
}
static void t_free(void *p) { if (p) un(p); }
void alloc_install() { neco_env_setallocator(t_malloc, t_realloc, t_free); }
long alloc_live() { return live_blocks; }
int count_fds() {
    int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d); return n;
}
