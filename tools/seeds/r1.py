import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from seed import mk
N = 'neco.c'
mk('c02-refill-closed', 'C02', [(N, '''            send = colist_pop_front(&chan->queue);
            send->completed = true;
            cbuf_push(chan, send->cmsg);
        }
        if (chan->sclosed && colist_is_empty(&chan->queue) && 
            chan->buflen == 0)
        {
            // The channel was closed and there are no more messages.
            // Close the receiving side too
            chan->rclosed = true;
        }
        if (send) {
            sco_resume(send->id);
''', '''            send = colist_pop_front(&chan->queue);
            send->completed = true;
        }
        if (chan->sclosed && colist_is_empty(&chan->queue) && 
            chan->buflen == 0)
        {
            // The channel was closed and there are no more messages.
            // Close the receiving side too
            chan->rclosed = true;
        }
        if (send) {
            cbuf_push(chan, send->cmsg);
            sco_resume(send->id);
''')], 'a buffered channel of capacity 1 holding one message, exactly one blocked sender, closed before draining',
 'the blocked sender is told that its message was sent, but the channel already reports closed and the message is never received', r'''
#include "neco.h"
#include <stdio.h>
#include <stdlib.h>
static void sender(int argc, void *argv[]) { for (int i = 1; i <= 2; i++) if (neco_chan_send(argv[0], &i)) exit(3); }
static void co(int argc, void *argv[]) {
    neco_chan *c; neco_chan_make(&c, sizeof(int), 1);
    neco_start(sender, 1, c);
    neco_chan_close(c);
    int m = 0;
    if (neco_chan_recv(c, &m) || m != 1) exit(1);
    if (neco_chan_recv(c, &m) || m != 2) { printf("second message lost\n"); exit(1); }
    if (neco_chan_recv(c, &m) != NECO_CLOSED) exit(1);
    neco_chan_release(c);
}
int main() { return neco_start(co, 0) ? 1 : 0; }
''')
mk('c03-broadcast-handled', 'C03', [(N, '''            if (*cocase->ret_idx != -1) {
                // This select-case has already been handled
                continue;
            }
            // Set the far stack index pointer and exchange the select-case
            // with the real coroutine.
            *cocase->ret_idx = cocase->idx;
            recv = cocase->co;
            recv->cmsg''', '''            if (*cocase->ret_idx != -1 && !broadcast) {
                // This select-case has already been handled
                continue;
            }
            // Set the far stack index pointer and exchange the select-case
            // with the real coroutine.
            *cocase->ret_idx = cocase->idx;
            recv = cocase->co;
            recv->cmsg''')], 'a select that lists the same channel twice (or whose other channel was served in the same step) and a broadcast',
 'a broadcast delivers to a select that already has been completed: it counts it twice and the select reports the wrong case', r'''
#include "neco.h"
#include <stdio.h>
#include <stdlib.h>
static int got = -9;
static void sel(int argc, void *argv[]) { got = neco_chan_select(2, argv[0], argv[0]); int m; neco_chan_case(argv[0], &m); if (m != 7) exit(1); }
static void co(int argc, void *argv[]) {
    neco_chan *c; neco_chan_make(&c, sizeof(int), 0);
    neco_start(sel, 1, c);
    int m = 7, n = neco_chan_broadcast(c, &m);
    neco_yield(); neco_yield();
    printf("broadcast reached %d, select returned %d\n", n, got);
    if (n != 1 || got != 0) exit(1);
    neco_chan_release(c);
}
int main() { return neco_start(co, 0) ? 1 : 0; }
''')
mk('c04-reader-joins-readers', 'C04', [(N, '''    if (!colist_is_empty(&mu->queue) || (mu->rlocked == 0 && mu->locked)) {
        return NECO_BUSY;
    }
    mu->rlocked++;''', '''    if (mu->rlocked == 0 && mu->locked) {
        return NECO_BUSY;
    }
    if (!colist_is_empty(&mu->queue) && !mu->queue.head.next->rlocked) {
        // The next in line is a writer.
        return NECO_BUSY;
    }
    mu->rlocked++;''')], 'a read-locked mutex whose first waiter is a reader (a writer ahead of it gave up) with a writer behind',
 'a new reader overtakes a waiting writer', r'''
#include "neco.h"
#include <stdio.h>
#include <stdlib.h>
static neco_mutex mu; static int order[8], n;
static void wr_to(int argc, void *argv[]) { if (neco_mutex_lock_dl(&mu, neco_now() + NECO_MILLISECOND) != NECO_TIMEDOUT) exit(3); }
static void rd(int argc, void *argv[]) { if (neco_mutex_rdlock(&mu)) exit(3); order[n++] = 1; neco_mutex_unlock(&mu); }
static void wr(int argc, void *argv[]) { if (neco_mutex_lock(&mu)) exit(3); order[n++] = 2; neco_mutex_unlock(&mu); }
static void co(int argc, void *argv[]) {
    neco_mutex_init(&mu);
    neco_mutex_rdlock(&mu);
    neco_start(wr_to, 0); neco_start(rd, 0); neco_start(wr, 0);
    neco_sleep(20 * NECO_MILLISECOND);
    int r = neco_mutex_tryrdlock(&mu);
    printf("tryrdlock with a waiting writer: %s\n", neco_strerror(r));
    if (r != NECO_BUSY) exit(1);
    neco_mutex_unlock(&mu);
}
int main() { return neco_start(co, 0) ? 1 : 0; }
''')
mk('c07-distant-past', 'C07', [(N, '''        int64_t timeout0 = i64_add_clamp(min_deadline, -getnow());
        if (timeout0 < timeout) {''', '''        int64_t timeout0 = (int64_t)((uint64_t)min_deadline - (uint64_t)getnow());
        if (timeout0 < timeout) {''')], 'a blocking operation whose deadline lies further in the past than the range of 64-bit nanoseconds, in an otherwise idle runtime',
 'the operation gives up half a second late instead of at once', r'''
#include "neco.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
static void co(int argc, void *argv[]) {
    neco_chan *c; neco_chan_make(&c, 1, 0); char m;
    int64_t t = neco_now();
    int r = neco_chan_recv_dl(c, &m, INT64_MIN + 5);
    t = neco_now() - t;
    printf("%s after %lld us\n", neco_strerror(r), (long long)t / 1000);
    exit(r == NECO_TIMEDOUT && t < 300 * NECO_MILLISECOND ? 0 : 1);
}
int main() { return neco_start(co, 0) ? 1 : 0; }
''')
