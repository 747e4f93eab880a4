From fca7de3934009f533afe3354253f88cd9838675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:59 +0000
Subject: [PATCH 01/42] fix: report operations a peer completed even when
 canceled or timed out

A blocked channel, select, mutex, cond or signal operation that a peer had
already completed was reported as canceled or timed out when the cancelation
or deadline arrived before the coroutine got to run, which lost messages and
signals and leaked locks.
---
 neco.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/neco.c b/neco.c
index 47dc2fe..ffe7f17 100644
--- a/neco.c
+++ b/neco.c
@@ -3336,6 +3336,7 @@ struct coroutine {
     int64_t starterid;            // identifer of the starter coroutine
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
+    bool completed;               // coroutine operation completed by a peer
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -4058,7 +4059,9 @@ static void rt_sched_signal_step(void) {
                     // A coroutine is waiting on this signal.
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
+                    remove_from_list(co);
                     co->sigmask = (uint32_t)signo;
+                    co->completed = true;
                     rt->sigqueue[signo]--;
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
@@ -4615,6 +4618,20 @@ static int checkdl(struct coroutine *co, int64_t deadline) {
     return canceled ? NECO_CANCELED : deadlined ? NECO_TIMEDOUT : NECO_OK;
 }
 
+// checkdone is used upon returning from a pause by the operations that another
+// coroutine completes on behalf of the paused one, such as delivering a message
+// or handing over a lock. Once an operation has been completed it has to be
+// reported as such, because the effect can not be undone. In that case a 
+// deadline is moot, and a cancelation is left pending for the next operation.
+static int checkdone(struct coroutine *co) {
+    if (co->completed) {
+        co->completed = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
+    return checkdl(co, INT64_MAX);
+}
+
 /// Get the identifier for the coroutine that started the current coroutine.
 ///
 /// ```
@@ -4785,7 +4802,7 @@ static int signal_wait_dl(int64_t deadline) {
     rt->nsigwaiters--;
     int signo = (int)co->sigmask;
     co->sigmask = 0;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkdone(co);
     return ret == NECO_OK ? signo : ret;
 }
 
@@ -5985,6 +6002,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
             recv->cmsg = cocase->data;
             *cocase->ok = true;
         }
+        recv->completed = true;
         // Directly copy the message to the receiver's 'data' argument.
         if (chan->msgsize > 0) {
             memcpy(recv->cmsg, data, (size_t)chan->msgsize);
@@ -6023,7 +6041,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    return checkdone(co);
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
@@ -6085,6 +6103,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // There's a sender waiting to send a message.
             // Put the sender's message in the buffer and wake it up.
             send = colist_pop_front(&chan->queue);
+            send->completed = true;
             cbuf_push(chan, send->cmsg);
         }
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
@@ -6104,6 +6123,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         // A sender is currently waiting to send a message.
         // This message must be consumed immediately.
         struct coroutine *send = colist_pop_front(&chan->queue);
+        send->completed = true;
         if (chan->msgsize) {
             memcpy(data, send->cmsg, (size_t)chan->msgsize);
         }
@@ -6135,7 +6155,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     remove_from_list(co);
     // The sender has already copied its message to 'data'.
     co->cmsg = NULL;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkdone(co);
     if (ret != NECO_OK) {
         return ret;
     }
@@ -6224,6 +6244,7 @@ static int chan_close(struct neco_chan *chan) {
             *cocase->ok = false;
         }
         recv->cclosed = true;
+        recv->completed = true;
         sched_resume(recv);
     }
     chan->rclosed = true;
@@ -6297,7 +6318,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkdone(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
 
@@ -7192,7 +7213,7 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkdl(co, INT64_MAX);
+    return checkdone(co);
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
@@ -7262,6 +7283,7 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
     // Choose next coroutine to take the lock.
     while (1) {
         struct coroutine *co = colist_pop_front(&mu->queue);
+        co->completed = true;
         // Schedule the coroutines to resume.
         sched_resume(co);
         if (co->rlocked) {
@@ -7555,6 +7577,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
+        co->completed = true;
         sco_resume(co->id);
     }
     return NECO_OK;
@@ -7574,6 +7597,7 @@ static int cond_broadcast(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     while (co) {
+        co->completed = true;
         sched_resume(co);
         co = colist_pop_front(&cvar->queue);
     }
@@ -7611,7 +7635,7 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
-    ret = checkdl(co, INT64_MAX);
+    ret = checkdone(co);
     // Must relock.
     while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
     return ret;
-- 
2.43.0


From 9d5a1e1244f2089bb81be0bf98345b427167837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:24 +0000
Subject: [PATCH 02/42] fix: do not restart a coroutine exit from its own
 cleanup handlers

A cancelation still pending, or one that arrived, while the cleanup handlers
were running made any yielding operation in a handler enter coexit again and
abandon the rest of the handler, e.g. an unlock.
---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index ffe7f17..92a8a56 100644
--- a/neco.c
+++ b/neco.c
@@ -7740,6 +7740,12 @@ static void coexit(bool async) {
     // The current coroutine _must_ exit.
     struct coroutine *co = coself();
 
+    // A cancelation can no longer have any effect on this coroutine. This
+    // prevents the operations used by the cleanup handlers, and the yields
+    // below, from starting the exit all over again.
+    co->canceled = false;
+    co->cancelstate = NECO_CANCEL_DISABLE;
+
     if (async) {
         // Run the cleanup stack
         while (co->cleanup) {
-- 
2.43.0


From 6cc4df782cd8bfc7a2fa955fc3926f99830cc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:02 +0000
Subject: [PATCH 03/42] fix: start pooled coroutines with a fresh state

A reused coroutine kept lastid, and a cancelation that was still pending when
the previous coroutine ended, from the coroutine it was before.
---
 neco.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neco.c b/neco.c
index 92a8a56..e0e36c2 100644
--- a/neco.c
+++ b/neco.c
@@ -3856,6 +3856,13 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    // The coroutine may come from the pool. Do not expose the state of the 
+    // previous coroutine.
+    co->lastid = 0;
+    co->canceled = false;
+    co->deadlined = false;
+    co->completed = false;
+    co->cleanup = NULL;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
-- 
2.43.0


From 3bc7b5344fe62decf0c55adb8c9ec2827b86b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:02 +0000
Subject: [PATCH 04/42] fix: a coroutine that ends stops watching its signals

The watch count was never released, so that the signal was swallowed for the
rest of the runtime, and a pooled coroutine inherited the watched signals.
---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index e0e36c2..5829220 100644
--- a/neco.c
+++ b/neco.c
@@ -7760,6 +7760,14 @@ static void coexit(bool async) {
         }
     }
 
+    // Stop watching signals
+    for (int signo = 1; co->sigwatch != 0 && signo < 32; signo++) {
+        if (co->sigwatch & (UINT32_C(1) << signo)) {
+            co->sigwatch &= ~(UINT32_C(1) << signo);
+            rt->sigwatchers[signo]--;
+        }
+    }
+
     // Delete from map 
     comap_delete(&rt->all, co);
 
-- 
2.43.0


From 4ee079ce7758bb74df00056837d6ac8b81ec6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 05/42] fix: cond_wait releases the mutex and starts waiting in
 one step

The unlock yielded before the coroutine was in the queue of the condition
variable, so a signal sent by the next owner of the mutex was lost. Also, a
cancelation while relocking ended an async coroutine without the mutex.
---
 neco.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/neco.c b/neco.c
index 5829220..f8015b0 100644
--- a/neco.c
+++ b/neco.c
@@ -7270,22 +7270,25 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// Release the lock, or hand it over to the next coroutines in the queue.
+// Returns true if coroutines have been scheduled to resume, in which case the
+// caller may want to use yield_for_sched_resume().
+static bool mutex_handoff(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7304,7 +7307,13 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
+}
+
+static void mutex_fastunlock(struct neco_mutex *mu) {
+    if (mutex_handoff(mu)) {
+        yield_for_sched_resume();
+    }
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7325,6 +7334,7 @@ int neco_mutex_unlock(neco_mutex *mutex) {
     return ret;
 }
 
+#ifdef NECO_TESTING
 inline
 static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     int64_t deadline)
@@ -7338,7 +7348,6 @@ static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     return ret;
 }
 
-#ifdef NECO_TESTING
 // An optimistic lock routine for testing only
 int neco_mutex_fastlock(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
@@ -7634,17 +7643,25 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
-    mutex_fastunlock(mu);
-    // The coroutine was added to the deadliner queue. We can safely
-    // yield and wait to be woken at some point in the future.
+    // Unlock and wait in a single step. There must not be a yield in between,
+    // otherwise a signal sent by the next owner of the lock would get lost.
+    mutex_handoff(mu);
     colist_push_back(&cvar->queue, co);
     rt->ncondwaiters++;
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
     ret = checkdone(co);
-    // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    // Must relock. The lock is owned upon return, no matter the result, thus a
+    // cancelation that arrives while waiting on the lock is left pending.
+    bool canceled = false;
+    while (mu->locked && finish_lock(co, mu, false, INT64_MAX) != NECO_OK) {
+        canceled = true;
+    }
+    mu->locked = true;
+    if (canceled) {
+        co->canceled = true;
+    }
     return ret;
 }
 
-- 
2.43.0


From 8fe937a43dd38e089d6b5baf9cd662334a3d0b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:39 +0000
Subject: [PATCH 06/42] fix: wake up the cancelers of a coroutine that enables
 cancelation

They stayed blocked until the target coroutine had ended.
---
 neco.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index f8015b0..1fa8937 100644
--- a/neco.c
+++ b/neco.c
@@ -3355,7 +3355,6 @@ struct coroutine {
     int cancelstate;              // cancelation state
     bool canceled;                // coroutine operation was cancelled
     struct colist cancellist;     // waiting coroutines
-    int ncancellist;              // number of waiting coroutines
 
     struct colist joinlist;       // waiting coroutines
     int njoinlist;                // number of waiting coroutines
@@ -4687,10 +4686,8 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         // Target coroutine is blocking their cancel state.
         // Wait for it to be released.
         colist_push_back(&cotarg->cancellist, co);
-        cotarg->ncancellist++;
         copause(deadline);
         remove_from_list(co);
-        cotarg->ncancellist--;
     }
 }
 
@@ -7714,6 +7711,14 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Let the coroutines that are waiting to cancel this one try again.
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From 9650e96d1f9f271deb2ff426d1610f2fa4fbefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:30 +0000
Subject: [PATCH 07/42] fix: the deadline of a cancel does not leak into the
 next operation

When the deadline was reached just as the target ended, the next sleep returned
at once.
---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index 1fa8937..fd70ad2 100644
--- a/neco.c
+++ b/neco.c
@@ -4669,6 +4669,9 @@ static int cancel_dl(int64_t id, int64_t deadline) {
     while (1) {
         cotarg = cofind(id);
         if (!cotarg) {
+            // The deadline may have been reached as well. It belongs to this
+            // operation only.
+            co->deadlined = false;
             return NECO_NOTFOUND;
         }
         int ret = checkdl(co, deadline);
-- 
2.43.0


From 152c7a13e1827f574492cae054d238dfc9e754c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:58 +0000
Subject: [PATCH 08/42] fix: waitgroup_add that brings the count to zero
 resumes the waiters

---
 neco.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/neco.c b/neco.c
index fd70ad2..f9af499 100644
--- a/neco.c
+++ b/neco.c
@@ -7418,6 +7418,25 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Resume all waiters
+static void waitgroup_wake(struct neco_waitgroup *wg) {
+    struct coroutine *co = colist_pop_front(&wg->queue);
+    if (!co) {
+        return;
+    }
+    if (colist_is_empty(&wg->queue)) {
+        // Only one waiter. Do a quick switch.
+        sco_resume(co->id);
+    } else {
+        // Many waiters. Batch them together.
+        do {
+            sched_resume(co);
+            co = colist_pop_front(&wg->queue);  
+        } while (co);
+        yield_for_sched_resume();
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
@@ -7429,6 +7448,9 @@ static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    if (wg->count == 0) {
+        waitgroup_wake(wg);
+    }
     return NECO_OK;
 }
 
@@ -7449,19 +7471,8 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         return NECO_NEGWAITGRP;
     }
     wg->count--;
-    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            sco_resume(co->id);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
+    if (wg->count == 0) {
+        waitgroup_wake(wg);
     }
     return NECO_OK;
 }
-- 
2.43.0


From 26775cfba2a2e30478ab92e0bf6016ae0a5e71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:58 +0000
Subject: [PATCH 09/42] fix: channels with a ring buffer of 2 GB or more

The offset of a message in the ring buffer overflowed an int.
---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index f9af499..9958d0e 100644
--- a/neco.c
+++ b/neco.c
@@ -5772,7 +5772,7 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + ((size_t)chan->msgsize * (size_t)index);
 }
 
 // push a message to the back by copying from data
-- 
2.43.0


From 80d1eddc7025a602c409ab3bbabad1af57205611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:51 +0000
Subject: [PATCH 10/42] fix: a select receives its message into private memory

The message and closed flag were stored in a slot that is shared by all users
of the channel. Another select on the same channel, that completed before the
first one was running again, replaced them.
---
 neco.c | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 9958d0e..1066f36 100644
--- a/neco.c
+++ b/neco.c
@@ -6355,6 +6355,8 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
     }
     struct coroutine *co = coself();
     int ret_idx = -1;
+    bool ok = false;
+    size_t msgsize = 0;
 
     // Copy the select-case arguments into the array.
     for (int i = 0; i < ncases; i++) {
@@ -6366,13 +6368,44 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
             .idx = i,
             .ret_idx = &ret_idx,
             .co = co,
-            .data = chan ? cbufslot(chan, chan->bufcap) : 0,
-            .ok = chan ? &chan->lok : 0,
+            .ok = &ok,
         };
+        if (chan && (size_t)chan->msgsize > msgsize) {
+            msgsize = (size_t)chan->msgsize;
+        }
         cases[i].next = (struct coroutine*)&cases[i];
         cases[i].prev = (struct coroutine*)&cases[i];
     }
-    int ret = chan_select(ncases, cases, &ret_idx, deadline, try);
+
+    // The message is received into memory that is private to this select. It's
+    // moved to the channel, for neco_chan_case(), just before returning. This
+    // way the other coroutines that are using the same channel can not replace 
+    // the message in the meantime.
+    char stack_msg[128];
+    char *msg = stack_msg;
+    int ret;
+    if (msgsize > sizeof(stack_msg)) {
+        msg = malloc0(msgsize);
+    }
+    if (msg) {
+        for (int i = 0; i < ncases; i++) {
+            cases[i].data = msg;
+        }
+        ret = chan_select(ncases, cases, &ret_idx, deadline, try);
+        if (ret >= 0) {
+            struct neco_chan *chan = cases[ret].chan;
+            chan->lok = ok;
+            if (ok && chan->msgsize > 0) {
+                memcpy(cbufslot(chan, chan->bufcap), msg, 
+                    (size_t)chan->msgsize);
+            }
+        }
+        if (msg != stack_msg) {
+            free0(msg);
+        }
+    } else {
+        ret = NECO_NOMEM;
+    }
     if (must_free) {
         free0(cases);
     }
-- 
2.43.0


From d9075315539f71f1c761f93ae513e9637761761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:19 +0000
Subject: [PATCH 11/42] fix: close the receiving side when the last pending
 send is given up

A blocked send on a closed channel that was canceled or timed out left the
channel without messages yet open for receiving: receivers waited forever.
---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 1066f36..17da404 100644
--- a/neco.c
+++ b/neco.c
@@ -6048,7 +6048,15 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdone(co);
+    int ret = checkdone(co);
+    if (ret != NECO_OK && chan->sclosed && colist_is_empty(&chan->queue) && 
+        chan->buflen == 0)
+    {
+        // The channel was closed and this message, which will not be sent, was
+        // the last one. Close the receiving side too.
+        chan->rclosed = true;
+    }
+    return ret;
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
-- 
2.43.0


From 5b3d3180b36cc359582e8acc482de214d3da2013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:08 +0000
Subject: [PATCH 12/42] fix: a select that got woken up twice does not wake up
 the next operation

The coroutine stayed in the list of coroutines to resume, when a broadcast or
close coincided with its deadline or cancelation.
---
 neco.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neco.c b/neco.c
index 17da404..be358fe 100644
--- a/neco.c
+++ b/neco.c
@@ -6329,6 +6329,8 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     copause(deadline);
     rt->nreceivers--;
 
+    // Broadcast and close may have scheduled this coroutine.
+    remove_from_list(co);
     // Remove all cases
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
-- 
2.43.0


From aac53d7da01965ff299ae043a43c521aa27bd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:38 +0000
Subject: [PATCH 13/42] fix: worker_submit notices when a thread can not be
 created

pthread_create returns a positive error number. The entry stayed in the queue
of a thread that was not running, with the coroutine waiting on it forever.
---
 deps/worker.c | 5 ++++-
 neco.c        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..963eae4 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // Take back the entry because there's no thread to run it.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index be358fe..22edeff 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // Take back the entry because there's no thread to run it.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From a9f8f8e857641337561f6728bb5cb1ac5679922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:19 +0000
Subject: [PATCH 14/42] fix: canceling a coroutine does not interrupt its
 background work

neco_work and the io workers returned while the worker thread was still using
the stack of the coroutine, and the thread later on corrupted the list that the
coroutine was in by then.
---
 neco.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/neco.c b/neco.c
index 22edeff..a08fb32 100644
--- a/neco.c
+++ b/neco.c
@@ -4211,6 +4211,7 @@ static void rt_sched_paused_step(void) {
             if (!co) {
                 break;
             }
+            co->completed = true;
             sco_resume(co->id);
         }
     }
@@ -4519,6 +4520,20 @@ static void copause(int64_t deadline) {
     }
 }
 
+#ifndef NECO_NOWORKERS
+// Pause the currently running coroutine until a background worker is done with
+// it. This can not be interrupted, because the worker is using memory that
+// belongs to the coroutine. A cancelation stays pending.
+static void iopause(struct coroutine *co) {
+    rt->niowaiters++;
+    do {
+        sco_pause();
+    } while (!co->completed);
+    rt->niowaiters--;
+    co->completed = false;
+}
+#endif
+
 static int sleep0(int64_t deadline) {
     struct coroutine *co = coself();
     rt->nsleepers++;
@@ -5096,9 +5111,7 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
         };
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
-            rt->niowaiters++;
-            sco_pause();
-            rt->niowaiters--;
+            iopause(co);
             n = info.res;
             if (n < 0) {
                 errno = -n;
@@ -5258,9 +5271,7 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
         };
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
-            rt->niowaiters++;
-            sco_pause();
-            rt->niowaiters--;
+            iopause(co);
             n = info.res;
             if (n < 0) {
                 errno = -n;
@@ -8854,12 +8865,10 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
 #else
     // Run in background
     struct iowork info = { .work = work, .udata = udata, .co = co, .rt = rt };
-    rt->niowaiters++;
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
-    sco_pause();
-    rt->niowaiters--;
+    iopause(co);
 #endif
     return NECO_OK;
 }
-- 
2.43.0


From 764ee26d589275784569fc3199573bdb8b3503e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:19 +0000
Subject: [PATCH 15/42] fix: a signal that nobody waits on does not hold up
 other signals

Only the pending signal with the lowest number was looked at.
---
 neco.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neco.c b/neco.c
index a08fb32..58e6b25 100644
--- a/neco.c
+++ b/neco.c
@@ -4061,6 +4061,7 @@ static void rt_sched_signal_step(void) {
                 sigexitnow(signo);
             }
         } else {
+            bool delivered = false;
             struct coroutine *co = rt->sigwaiters.head.next;
             while (co != (struct coroutine*)&rt->sigwaiters.tail) {
                 struct coroutine *next = co->next;
@@ -4076,10 +4077,16 @@ static void rt_sched_signal_step(void) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
                     }
                     sco_resume(co->id);
+                    delivered = true;
                     next = (struct coroutine*)&rt->sigwaiters.tail;
                 }
                 co = next;
             }
+            if (!delivered) {
+                // No coroutine is waiting on this signal right now. It must
+                // not hold up the other signals.
+                continue;
+            }
         }
         break;
     }
-- 
2.43.0


From e1a973b040b8d0cbc94b32b00931a49500c3796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:20 +0000
Subject: [PATCH 16/42] fix: wake up coroutines waiting on a file that hangs up
 or fails

E.g. a reader of a pipe without any data stayed blocked forever when the writer
closed its end, because epoll reports only EPOLLHUP.
---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 58e6b25..098e336 100644
--- a/neco.c
+++ b/neco.c
@@ -4118,8 +4118,10 @@ static void rt_sched_event_step(int64_t timeout) {
     for (int i = 0; i < nevents; i++) {
 #if defined(NECO_POLL_EPOLL)
         int fd = evs[i].data.fd;
-        bool read = evs[i].events & EPOLLIN;
-        bool write = evs[i].events & EPOLLOUT;
+        // A hang up or an error is always reported, no matter the requested 
+        // events. Both the readers and the writers have to find out about it.
+        bool read = evs[i].events & (EPOLLIN | EPOLLHUP | EPOLLERR);
+        bool write = evs[i].events & (EPOLLOUT | EPOLLHUP | EPOLLERR);
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 35ce5131c5d33dbae592c387771d5f9e6b1b9e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:55 +0000
Subject: [PATCH 17/42] fix: a read event does not disable the pending write
 event of a file

With epoll oneshot, a writer stayed blocked forever when a reader of the same
file was woken up first, and vice versa.
---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 098e336..ce9ecd1 100644
--- a/neco.c
+++ b/neco.c
@@ -4122,6 +4122,14 @@ static void rt_sched_event_step(int64_t timeout) {
         // events. Both the readers and the writers have to find out about it.
         bool read = evs[i].events & (EPOLLIN | EPOLLHUP | EPOLLERR);
         bool write = evs[i].events & (EPOLLOUT | EPOLLHUP | EPOLLERR);
+        if (read != write && evexists(fd, read ? EVWRITE : EVREAD)) {
+            // The oneshot has disabled the file for both reading and writing. 
+            // Enable it again for the coroutines that continue to wait.
+            struct epoll_event ev = { 0 };
+            ev.data.fd = fd;
+            ev.events = (read ? EPOLLOUT : EPOLLIN) | EPOLLONESHOT;
+            epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev);
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 665f068197ed4f35cf9d5970fb1f42a189f5366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 18/42] fix: a write that is canceled or timed out reports the
 bytes written

It returned -1 although a part of the data had already been written, and a
buffered stream then wrote that part again with the next flush.
---
 neco.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neco.c b/neco.c
index ce9ecd1..1faa7db 100644
--- a/neco.c
+++ b/neco.c
@@ -5319,6 +5319,11 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
+            if (written > 0) {
+                // Some data has been written. See below. 
+                co->canceled = ret == NECO_CANCELED;
+                return written;
+            }
             return -1;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
-- 
2.43.0


From c253cbf7b11d80439dda4e32c4ee010bbb595b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 19/42] fix: reading a buffered byte does not discard a pending
 cancelation

---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 1faa7db..5931516 100644
--- a/neco.c
+++ b/neco.c
@@ -8291,9 +8291,11 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
-        // fast-track read byte
+        // fast-track read byte. Just like with any other read from the buffer,
+        // the deadline is not an issue and a cancelation is left pending.
+        error_guard(0);
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
-- 
2.43.0


From 3f81930c421c90f815e13cff8de6fe6a1a69d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 20/42] fix: neco_sleep times out for negative durations only

A duration so short that it had elapsed before the deadline was looked at
resulted in NECO_TIMEDOUT.
---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 5931516..cc1e4b9 100644
--- a/neco.c
+++ b/neco.c
@@ -4587,7 +4587,10 @@ int neco_sleep_dl(int64_t deadline) {
 /// @return NECO_PERM Operation called outside of a coroutine
 /// @see neco_sleep_dl()
 int neco_sleep(int64_t nanosecs) {
-    return neco_sleep_dl(i64_add_clamp(getnow(), nanosecs));
+    int64_t deadline = i64_add_clamp(getnow(), nanosecs);
+    int ret = !rt ? NECO_PERM : nanosecs < 0 ? NECO_TIMEDOUT : sleep0(deadline);
+    async_error_guard(ret);
+    return ret;
 }
 
 static int64_t getid(void) {
-- 
2.43.0


From a9943a33901ee859b79bda17b48e9e70ff0a0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 21/42] fix: serve rejects unix socket paths that are too long

The path was truncated, thus the socket got created somewhere else.
---
 neco.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index cc1e4b9..d9e5885 100644
--- a/neco.c
+++ b/neco.c
@@ -7108,13 +7108,16 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
 #ifdef _WIN32
     return NECO_PERM;
 #else
+    struct sockaddr_un unaddr;
+    memset(&unaddr, 0, sizeof(struct sockaddr_un));
+    unaddr.sun_family = AF_UNIX;
+    if (strlen(addr) > sizeof(unaddr.sun_path) - 1) {
+        return NECO_INVAL;
+    }
     int fd = socket0(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         return NECO_ERROR;
     }
-    struct sockaddr_un unaddr;
-    memset(&unaddr, 0, sizeof(struct sockaddr_un));
-    unaddr.sun_family = AF_UNIX;
     strncpy(unaddr.sun_path, addr, sizeof(unaddr.sun_path) - 1);
     if (bind0(fd, (void*)&unaddr, sizeof(struct sockaddr_un)) == -1) {
         close(fd);
-- 
2.43.0


From 9d8b06b922cb04895beffcb0bfdcc61b91263898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:47 +0000
Subject: [PATCH 22/42] fix: mutex locks set neco_lasterr() for invalid
 arguments too

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index d9e5885..0bb9035 100644
--- a/neco.c
+++ b/neco.c
@@ -7275,6 +7275,7 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_trylock(co, mu, true, 0);
@@ -7287,6 +7288,7 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, true, 0);
@@ -7324,6 +7326,7 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_lock_dl(co, mu, deadline);
@@ -7340,6 +7343,7 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, false, deadline);
-- 
2.43.0


From a9ad52c775bcbec22f5bf81000f99ba5e64756ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:46 +0000
Subject: [PATCH 23/42] fix: neco_gen_yield sets neco_lasterr() outside of a
 generator

---
 neco.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 0bb9035..4db86c3 100644
--- a/neco.c
+++ b/neco.c
@@ -8753,11 +8753,10 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    int ret = !co ? NECO_PERM : !co->gen ? NECO_NOTGENERATOR : NECO_OK;
+    if (ret != NECO_OK) {
+        error_guard(ret);
+        return ret;
     }
     return neco_chan_send_dl((void*)co->gen, data, deadline);
 }
-- 
2.43.0


From 09007affd173cfe80da368f3a526412546508e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:07 +0000
Subject: [PATCH 24/42] fix: forward signals that are delivered to threads
 without signal handling

---
 neco.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 4db86c3..80d1be7 100644
--- a/neco.c
+++ b/neco.c
@@ -3964,19 +3964,33 @@ void neco_reset_sigcrashed(void) {
 }
 #endif
 
+// The thread of the runtime that handles the signals
+static pthread_t sigthread;
+
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
-    if (rt->sigcrashed) {
+    if (rt && rt->sigcrashed) {
         sigexitnow(rt->sigcrashed);
         return;
     }
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         if (signo == ALLOWED_SIGNALS[i]) {
+            if (!rt || !rt->mainthread) {
+                // The signal was delivered to another thread, such as a
+                // background worker that wrote to a broken pipe.
+                pthread_kill(sigthread, signo);
+                return;
+            }
             sigallowhandler(signo);
             return;
         }
     }
+    if (!rt) {
+        // Crash on a thread that does not have a runtime.
+        sigexitnow(signo);
+        return;
+    }
     for (size_t i = 0; i < sizeof(TRAPPED_SIGNALS)/sizeof(int); i++) {
         if (signo == TRAPPED_SIGNALS[i]) {
             // Print the crash and exit.
@@ -3995,6 +4009,7 @@ static int rt_handle_signals(void) {
         // Only handle signals on the main thread.
         return NECO_OK;
     }
+    sigthread = pthread_self();
     static struct sigaction act = { 0 };
     sigemptyset(&act.sa_mask);
     act.sa_sigaction = &sighandler;
-- 
2.43.0


From 2a9d6dc8f4a3a168a4269a69314b42fc97d4e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:19 +0000
Subject: [PATCH 25/42] fix: keep a cancelation pending when a stream operation
 is partially done

---
 neco.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neco.c b/neco.c
index 80d1be7..57516c2 100644
--- a/neco.c
+++ b/neco.c
@@ -8272,6 +8272,10 @@ static ssize_t stream_readfull_dl(neco_stream *stream, void *data,
         if (n <= 0) {
             if (nread == 0) {
                 nread = n;
+            } else if (neco_lasterr() == NECO_CANCELED) {
+                // Some data has been read, which is what gets reported. Leave
+                // the cancelation pending for the next operation.
+                coself()->canceled = true;
             }
             return nread;
         } else {
@@ -8421,6 +8425,11 @@ static ssize_t stream_write_dl(neco_stream *stream, const void *data,
             if (ret != NECO_OK) {
                 if (nwritten == 0) {
                     nwritten = ret;
+                } else if (ret == NECO_CANCELED) {
+                    // Some data has been buffered, which is what gets
+                    // reported. Leave the cancelation pending for the next
+                    // operation.
+                    coself()->canceled = true;
                 }
                 break;
             }
-- 
2.43.0


From 419f57f14992fe550bfb0e9e343e0af05b5dd5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:19 +0000
Subject: [PATCH 26/42] fix: report a partial stream write with neco_lasterr,
 like neco_write

---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index 57516c2..bc7e92a 100644
--- a/neco.c
+++ b/neco.c
@@ -8451,6 +8451,9 @@ ssize_t neco_stream_write_dl(neco_stream *stream, const void *data,
 {
     ssize_t ret = stream_write_dl(stream, data, nbytes, deadline);
     async_error_guard(ret);
+    if (ret >= 0 && (size_t)ret < nbytes) {
+        lasterr = NECO_PARTIALWRITE;
+    }
     return ret;
 }
 
-- 
2.43.0


From d7e98cf305fea15d094721f522234e96477b7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:19 +0000
Subject: [PATCH 27/42] fix: stream close leaked the descriptor and the stream
 when canceled

---
 neco.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index bc7e92a..09c0579 100644
--- a/neco.c
+++ b/neco.c
@@ -8486,7 +8486,13 @@ static int stream_close_dl(neco_stream *stream, int64_t deadline) {
     }
     int ret = NECO_OK;
     if (stream->buffered && (deadline < INT64_MAX || stream->wr.len > 0)) {
+        // An async cancelation must not terminate the coroutine before the file
+        // descriptor and the stream have been released.
+        struct coroutine *co = coself();
+        int canceltype = co->canceltype;
+        co->canceltype = NECO_CANCEL_INLINE;
         ret = stream_flush_dl(stream, deadline);
+        co->canceltype = canceltype;
     }
     close(stream->fd);
     stream_release(stream);
@@ -8498,7 +8504,7 @@ static int stream_close_dl(neco_stream *stream, int64_t deadline) {
 /// flush bytes on close
 int neco_stream_close_dl(neco_stream *stream, int64_t deadline) {
     int ret = stream_close_dl(stream, deadline);
-    error_guard(ret);
+    async_error_guard(ret);
     return ret;
 }
 
-- 
2.43.0


From 058d065461d086571a08ac1cb6bdcc23947e48ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:00 +0000
Subject: [PATCH 28/42] fix: restore the signal stack before it is freed when
 the runtime ends

---
 neco.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 09c0579..094fe62 100644
--- a/neco.c
+++ b/neco.c
@@ -3617,6 +3617,9 @@ struct runtime {
     struct sigaction sigold[32];   // previous signal handlers, for restoring
 #endif
     char *sigstack;                // stack for signals
+#if !defined(NECO_NOSIGNALS) && NECO_SIGSTKSZ > 0
+    stack_t sigstackold;           // previous signal stack, for restoring
+#endif
     int sigcrashed;
 
     int64_t rand_seed;             // used for PRNG (non-crypto)
@@ -4025,7 +4028,7 @@ static int rt_handle_signals(void) {
         .ss_size = NECO_SIGSTKSZ,
         .ss_flags = 0,
     };
-    must(sigaltstack(&ss, NULL) == 0);
+    must(sigaltstack(&ss, &rt->sigstackold) == 0);
 #endif
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
@@ -4050,7 +4053,6 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
-    free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
@@ -4059,6 +4061,10 @@ static void rt_restore_signal_handlers(void) {
         int signo = TRAPPED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
     }
+#if NECO_SIGSTKSZ > 0
+    must(sigaltstack(&rt->sigstackold, NULL) == 0);
+#endif
+    free0(rt->sigstack);
 #endif
 }
 
-- 
2.43.0


From 0c1f136072f7ecf4bfb1262b772fb37831f1c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:01 +0000
Subject: [PATCH 29/42] fix: the result of getaddrinfo leaked when its
 coroutine was async-canceled

---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 094fe62..ef939d8 100644
--- a/neco.c
+++ b/neco.c
@@ -6804,11 +6804,13 @@ static int getaddrinfo_dl(const char *node, const char *service,
     ret = EAI_SYSTEM;
     if (n != -1) {
         must(ready == 1 && n == sizeof(int));
+        // Yield before taking the result. When the coroutine is canceled here
+        // the thread still owns the result and frees it.
+        coyield();
         *res = args->res;
         args->res = NULL;
         ret = args->ret;
         errno = args->errnum;
-        coyield();
     }
     neco_cleanup_pop(1);
     return ret;
-- 
2.43.0


From e62c2af631617a33f97b18e52292661fed183cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:01 +0000
Subject: [PATCH 30/42] fix: neco_dial lost a cancelation when the host had
 more addresses

---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index ef939d8..bff0ff5 100644
--- a/neco.c
+++ b/neco.c
@@ -7024,7 +7024,9 @@ static int dial_tcp_dl(const char *addr, int tcp_vers, int64_t deadline) {
     do {
         fd = dial_connect_dl(ai->ai_family, ai->ai_socktype, ai->ai_protocol, 
             ai->ai_addr, ai->ai_addrlen, deadline);
-        if (fd != -1) {
+        if (fd != -1 || errno == ECANCELED) {
+            // Connected, or canceled. Trying the remaining addresses upon 
+            // being canceled would lose the cancelation.
             break;
         }
         ai = ai->ai_next;
-- 
2.43.0


From 9acc90b64a5f49c2a67a7becf40919b42cfc072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:01 +0000
Subject: [PATCH 31/42] fix: ports over 65535 in an address were truncated to
 another port

---
 neco.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neco.c b/neco.c
index bff0ff5..23f5c68 100644
--- a/neco.c
+++ b/neco.c
@@ -6871,6 +6871,13 @@ static int parse_tcp_addr(const char *addr, char **host, const char **port) {
         return NECO_INVAL;
     }
     *port = colon+1;
+    // A numeric port must be in range. Otherwise getaddrinfo may silently
+    // truncate it to 16 bits, which results in a different port.
+    char *end;
+    long portnum = strtol(*port, &end, 10);
+    if (end != *port && *end == '\0' && (portnum < 0 || portnum > 65535)) {
+        return NECO_INVAL;
+    }
     naddr = (size_t)(colon-addr);
     if (addr[0] == '[' && addr[naddr-1] == ']') {
         addr++;
-- 
2.43.0


From 17474e6d44eef8f0927ce4ab7af0869f5baf0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:30 +0000
Subject: [PATCH 32/42] fix: waiters were lost when the event queue got
 descriptor zero

---
 neco.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 23f5c68..dad2ff8 100644
--- a/neco.c
+++ b/neco.c
@@ -3204,12 +3204,21 @@ void neco_env_setcancelstate(int state) {
 // return either a BSD kqueue or Linux epoll type.
 static int evqueue(void) {
 #if defined(NECO_POLL_EPOLL) 
-    return epoll_create1(0);
+    int fd = epoll_create1(0);
 #elif defined(NECO_POLL_KQUEUE) 
-    return kqueue();
+    int fd = kqueue();
 #else
-    return -1;
+    int fd = -1;
 #endif
+#ifndef _WIN32
+    if (fd == 0) {
+        // The standard input is closed. The runtime uses zero for "no queue",
+        // thus move the queue to another descriptor.
+        fd = fcntl(0, F_DUPFD, 1);
+        close(0);
+    }
+#endif
+    return fd;
 }
 
 #define read0 read
-- 
2.43.0


From 63f2eb743e8e77d7a2e42d431438795b57071820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 33/42] fix: getaddrinfo leaked its pipe when it got descriptor
 zero

---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index dad2ff8..42ad036 100644
--- a/neco.c
+++ b/neco.c
@@ -6627,10 +6627,10 @@ static void gai_args_free(struct getaddrinfo_args *args) {
         free0(args->node);
         free0(args->hints);
         freeaddrinfo(args->res);
-        if (args->fds[0]) {
+        if (args->fds[0] != -1) {
             must(close(args->fds[0]) == 0);
         }
-        if (args->fds[1]) {
+        if (args->fds[1] != -1) {
             must(close(args->fds[1]) == 0);
         }
 #ifdef __FreeBSD__
@@ -6650,6 +6650,8 @@ static struct getaddrinfo_args *gai_args_new(const char *node,
         return NULL;
     }
     memset(args, 0, sizeof(struct getaddrinfo_args));
+    args->fds[0] = -1;
+    args->fds[1] = -1;
     if (node) {
         size_t nnode = strlen(node);
         args->node = malloc0(nnode+1);
-- 
2.43.0


From b7e53e680f44657e2b5256d7e7607f89f8002470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:28 +0000
Subject: [PATCH 34/42] fix: NECO_EOF had no message

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 42ad036..4dd4c97 100644
--- a/neco.c
+++ b/neco.c
@@ -5670,6 +5670,8 @@ const char *neco_shortstrerror(int code) {
         return "NECO_PERM";
     case NECO_NOMEM:
         return "NECO_NOMEM";
+    case NECO_EOF:
+        return "NECO_EOF";
     case NECO_NOTFOUND:
         return "NECO_NOTFOUND";
     case NECO_NOSIGWATCH:
@@ -5715,6 +5717,8 @@ const char *neco_strerror(ssize_t errcode) {
         return strerror(EPERM);
     case NECO_NOMEM:
         return strerror(ENOMEM);
+    case NECO_EOF:
+        return "End of file";
     case NECO_NOTFOUND:
         return "No such coroutine";
     case NECO_NOSIGWATCH:
-- 
2.43.0


From 9d229f576ff26286ce58e816fac02b20e234af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:42 +0000
Subject: [PATCH 35/42] fix: neco_gai_lasterr did not report errors of
 neco_getaddrinfo

---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index 4dd4c97..09a35d7 100644
--- a/neco.c
+++ b/neco.c
@@ -6837,6 +6837,9 @@ int neco_getaddrinfo_dl(const char *node, const char *service,
 {
     int ret = getaddrinfo_dl(node, service, hints, res, deadline);
     int err;
+    if (ret != 0) {
+        neco_gai_errno = ret;
+    }
     if (ret == 0) {
         err = NECO_OK;
     } else if (ret == EAI_SYSTEM) {
-- 
2.43.0


From be6d416dca2675dd05b77fdc21e6ac268132bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:18 +0000
Subject: [PATCH 36/42] fix: the message of an undefined error truncated large
 codes

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 09a35d7..fc2e948 100644
--- a/neco.c
+++ b/neco.c
@@ -5750,7 +5750,7 @@ const char *neco_strerror(ssize_t errcode) {
     case NECO_NOTSUSPENDED:
         return "Coroutine is not suspended";
     default: {
-        static __thread char udmsg[32];
+        static __thread char udmsg[64];
         snprintf(udmsg, sizeof(udmsg)-1, "Undefined error: %zd", errcode);
         return udmsg;
     }
-- 
2.43.0


From fc67617ee0131adb7ac7c4c20f8ceacc42276024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:31 +0000
Subject: [PATCH 37/42] fix: buffered output was lost when neco_main returned

---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index fc2e948..9f5c044 100644
--- a/neco.c
+++ b/neco.c
@@ -3819,7 +3819,9 @@ static void cleanup(void *stack, size_t stack_size, void *udata) {
     (void)stack; (void)stack_size;
 #ifndef NECO_TESTING
     if (immediate_exit) {
-        _Exit(immediate_exit_code);
+        // Use exit() because it writes the buffered output, just like
+        // returning from a standard main function does.
+        exit(immediate_exit_code);
     }
 #endif
     struct coroutine *co = udata;
-- 
2.43.0


From 4e06a20a4559bb13cde9037fd8d3ffe4a596fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 38/42] fix: neco_pipe failed when another runtime made a pipe
 at the same time

The path of its temporary socket came only from the runtime's PRNG, which
starts from the same seed in every runtime and process.
---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 9f5c044..5b64875 100644
--- a/neco.c
+++ b/neco.c
@@ -8013,7 +8013,10 @@ static int _pipe_(int pipefd[2]) {
     neco_rand(&secret, 8, NECO_PRNG);
     neco_rand(&tmpkey, 8, NECO_PRNG);
     char path[PATH_MAX];
-    snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
+    // The PRNG alone does not make the path unique. By default it starts from
+    // the same seed in every runtime.
+    snprintf(path, sizeof(path), "/tmp/neco.%d.%" PRId64 ".%" PRIu64 ".sock", 
+        (int)getpid(), neco_getid(), tmpkey);
     int ln = neco_serve("unix", path);
     int64_t childid = 0;
     if (ln > 0) {
-- 
2.43.0


From f5918568b6337deeeed1ed19206a40f526912b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 39/42] fix: neco_pipe failed and leaked when descriptor 0 was
 free

---
 neco.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 5b64875..dcf910c 100644
--- a/neco.c
+++ b/neco.c
@@ -8019,7 +8019,7 @@ static int _pipe_(int pipefd[2]) {
         (int)getpid(), neco_getid(), tmpkey);
     int ln = neco_serve("unix", path);
     int64_t childid = 0;
-    if (ln > 0) {
+    if (ln >= 0) {
         // State a coroutine to connect to the listener.
         int nret = neco_start(co_pipe, 3, path, &secret, &fd0);
         neco_errconv_to_sys(nret);
@@ -8028,7 +8028,7 @@ static int _pipe_(int pipefd[2]) {
             int64_t dl = neco_now() + NECO_SECOND * 5;
             fd1 = neco_accept_dl(ln, 0, 0, dl);
             neco_errconv_to_sys(fd1);
-            if (fd1 > 0) {
+            if (fd1 >= 0) {
                 // Other side of pipe is connected.
                 // Waiting for the handshake.
                 int64_t data;
-- 
2.43.0


From 9431dbe6660443b22a3aa0fb18d722ddb62cca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 40/42] fix: a failed neco_pipe left its connecting coroutine
 running

That coroutine later wrote to the dead stack frame of neco_pipe and leaked
its descriptor.
---
 neco.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index dcf910c..4b76df6 100644
--- a/neco.c
+++ b/neco.c
@@ -8040,12 +8040,17 @@ static int _pipe_(int pipefd[2]) {
                 }
             }
         }
+        int serrno = errno;
         close(ln);
         unlink(path);
+        if (childid) {
+            // The child writes to fd0, which must outlive it.
+            neco_join(childid);
+        }
+        errno = serrno;
     }
     int perrno = errno;
     if (ret == 0) {
-        neco_join(childid);
         pipefd[0] = fd0;
         pipefd[1] = fd1;
         fd0 = -1;
-- 
2.43.0


From fc9126c445e67d1860e9e6e93819c935711aa65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 41/42] fix: neco_pipe lost a pending cancelation

---
 neco.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 4b76df6..6fa595a 100644
--- a/neco.c
+++ b/neco.c
@@ -8003,6 +8003,10 @@ static int _pipe_(int pipefd[2]) {
         errno = EPERM;
         return -1;
     }
+    if (checkdl(coself(), INT64_MAX) == NECO_CANCELED) {
+        errno = ECANCELED;
+        return -1;
+    }
     int oldstate = 0;
     neco_setcancelstate(NECO_CANCEL_DISABLE, &oldstate);
     int fd0 = -2;
@@ -8075,7 +8079,7 @@ static int _pipe_(int pipefd[2]) {
 /// socket. Also, the file descriptors are returned in non-blocking state.
 int neco_pipe(int pipefd[2]) {
     int ret = _pipe_(pipefd);
-    error_guard(ret);
+    async_error_guard(ret);
     return ret;
 }
 
-- 
2.43.0


From 55ce581228f05880b0a8aea7c9d18d673f9dd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 42/42] fix: a failed serve of a unix path left the socket file
 behind

---
 neco.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 6fa595a..fa26c60 100644
--- a/neco.c
+++ b/neco.c
@@ -7175,12 +7175,11 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
         close(fd);
         return NECO_ERROR;
     }
-    if (listen0(fd, SOMAXCONN) == -1) {
-        close(fd);
-        return NECO_ERROR;
-    }
-    if (neco_setnonblock(fd, true, 0) == -1) {
+    if (listen0(fd, SOMAXCONN) == -1 || neco_setnonblock(fd, true, 0) == -1) {
+        int perrno = errno;
         close(fd);
+        unlink(addr);
+        errno = perrno;
         return NECO_ERROR;
     }
     return fd;
-- 
2.43.0

