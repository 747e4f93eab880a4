import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from seed import mk
N = 'neco.c'
H = '#include "neco.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <unistd.h>\n#include <errno.h>\n#include <pthread.h>\n'
M = 'int main() { return neco_start(co, 0) ? 1 : 0; }\n'
mk('c19-shared-lasterr', 'C19', [(N, 'static __thread int lasterr = 0;', 'static int lasterr = 0;')],
 'two threads whose runtimes run operations with different outcomes at the same time', 'the last error of one thread shows up in the other', H + r'''
static volatile int bad, stop;
static void ok(int argc, void *argv[]) { for (int i = 0; i < 20000000 && !bad; i++) { neco_yield(); if (neco_lasterr() != NECO_OK) bad = 1; } stop = 1; }
static void er(int argc, void *argv[]) { while (!stop && !bad) neco_resume(123456789); }
static void *ta(void *p) { neco_start(ok, 0); return p; }
static void *tb(void *p) { neco_start(er, 0); return p; }
int main() { pthread_t a, b; pthread_create(&a, 0, ta, 0); pthread_create(&b, 0, tb, 0); pthread_join(a, 0); stop = 1; pthread_join(b, 0); if (bad) puts("lasterr of another thread"); return bad; }
''')
mk('c19-id-race', 'C19', [(N, 'co->id = atomic_fetch_add(&sco_next_id, 1) + 1;', 'co->id = ++*(volatile int64_t*)&sco_next_id;')],
 'several threads starting coroutines at the same moment', 'two coroutines share an identifier', H + r'''
enum { T = 4, K = 200000 };
static int64_t ids[T][K]; static int n[T];
static void child(int argc, void *argv[]) { int t = (int)(intptr_t)argv[0]; ids[t][n[t]++] = neco_getid(); }
static void co(int argc, void *argv[]) { for (int i = 0; i < K; i++) neco_start(child, 1, argv[0]); }
static void *th(void *p) { neco_start(co, 1, p); return p; }
static int cmp(const void *a, const void *b) { int64_t x = *(int64_t *)a, y = *(int64_t *)b; return x < y ? -1 : x > y; }
int main() { pthread_t t[T]; for (int i = 0; i < T; i++) pthread_create(&t[i], 0, th, (void *)(intptr_t)i); for (int i = 0; i < T; i++) pthread_join(t[i], 0);
    qsort(ids, T * K, sizeof(int64_t), cmp); int64_t *p = &ids[0][0]; for (int i = 1; i < T * K; i++) if (p[i] == p[i - 1]) { puts("an id was used twice"); return 1; } return 0; }
''')
