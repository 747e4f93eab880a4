import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from seed import mk
N = 'neco.c'
H = '#include "neco.h"\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <unistd.h>\n#include <errno.h>\n#include <pthread.h>\n'
M = 'int main() { return neco_start(co, 0) ? 1 : 0; }\n'
mk('c15-crowd-short', 'C15', [(N, '    allocsz += (stacksz + gapsz) * cap; // add', '    allocsz += (stacksz + gapsz) * (cap > 64 ? cap - 1 : cap); // add')],
 'several hundred live coroutines, so that a stack group of more than 64 stacks is made and filled, one of them using most of its last stack', 'a stack overlaps memory that is not its own', H + r'''
enum { K = 700 };
static int64_t ids[K]; static int bad;
static int deep(int n, int v) { volatile unsigned char b[4096]; memset((void *)b, v, sizeof b); int s = n > 1 ? deep(n - 1, v) : 0; neco_yield(); for (size_t i = 0; i < sizeof b; i++) if (b[i] != (unsigned char)v) { bad = 1; break; } return s + b[7]; }
static void child(int argc, void *argv[]) { int k = (int)(intptr_t)argv[0]; ids[k] = neco_getid(); deep(15, k); neco_suspend(); deep(15, k + 1); }
static void co(int argc, void *argv[]) { for (int i = 0; i < K; i++) neco_start(child, 1, (void *)(intptr_t)i); for (int i = 0; i < 60; i++) neco_yield(); for (int i = 0; i < K; i++) neco_resume(ids[i]); for (int i = 0; i < K; i++) neco_join(ids[i]); if (bad) { puts("a stack was overwritten"); exit(1); } }
''' + M)
mk('c20-other-family', 'C20', [(N, '        ai = ai->ai_next;\n    } while (ai);\n    if (fd == -1) {', '        ai = ai->ai_next;\n    } while (ai && ai->ai_family == ainfo->ai_family);\n    if (fd == -1) {')],
 'a name with addresses of both families, of which those of the first family do not answer', 'a dial fails although the server answers on another address of the name', H + r'''
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
static struct sockaddr_in a4; static struct sockaddr_in6 a6; static struct addrinfo ai[2];
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) { int p = svc ? atoi(svc) : 0; memset(ai, 0, sizeof ai); a6.sin6_family = AF_INET6; a6.sin6_port = htons(p); a6.sin6_addr = in6addr_loopback; a4.sin_family = AF_INET; a4.sin_port = htons(p); a4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ai[0].ai_family = AF_INET6; ai[0].ai_socktype = SOCK_STREAM; ai[0].ai_addr = (struct sockaddr *)&a6; ai[0].ai_addrlen = sizeof a6; ai[0].ai_next = &ai[1]; ai[1].ai_family = AF_INET; ai[1].ai_socktype = SOCK_STREAM; ai[1].ai_addr = (struct sockaddr *)&a4; ai[1].ai_addrlen = sizeof a4; *res = ai; return 0; }
void freeaddrinfo(struct addrinfo *a) { (void)a; }
static void co(int argc, void *argv[]) { int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (bind(s, (void *)&a, n) || listen(s, 5) || getsockname(s, (void *)&a, &n)) exit(0); char b[64]; snprintf(b, sizeof b, "both.example:%d", ntohs(a.sin_port)); int fd = neco_dial("tcp", b); if (fd < 0) { printf("dial: %s\n", neco_strerror(fd)); exit(1); } }
''' + M)
mk('c22-cond-relock', 'C22', [(N, '    rt->ncondwaiters--;\n    remove_from_list(co);\n    ret = checkdone(co);', '    remove_from_list(co);\n    ret = checkdone(co);'), (N, '    mu->locked = true;\n    if (canceled) {', '    mu->locked = true;\n    rt->ncondwaiters--;\n    if (canceled) {')],
 'a condition waiter that was woken up while its mutex is held by somebody else', 'a coroutine that waits for a mutex is counted as waiting for a condition too', H + r'''
static neco_mutex mu; static neco_cond cv;
static void w(int argc, void *argv[]) { neco_mutex_lock(&mu); neco_cond_wait(&cv, &mu); neco_mutex_unlock(&mu); }
static void co(int argc, void *argv[]) { neco_mutex_init(&mu); neco_cond_init(&cv); neco_start(w, 0); neco_mutex_lock(&mu); neco_cond_signal(&cv); neco_yield(); neco_yield(); neco_stats s; neco_getstats(&s); int bad = s.condwaiters != 0; neco_mutex_unlock(&mu); if (bad) { printf("%zu condition waiters\n", s.condwaiters); exit(1); } }
''' + M)
