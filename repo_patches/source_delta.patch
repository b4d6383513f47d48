From cebe5b049c6d339a9c974eb7ab320899573ce941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:14 +0000
Subject: [PATCH 01/26] fix: an operation completed on behalf of a waiting
 coroutine no longer reports canceled or timed out

A message, lock, signal, join, resume etc. that was handed to a paused
coroutine was lost when the coroutine was also canceled or its deadline
was reached before it ran again: the operation reported the error although
its effect had taken place. Also a stale entry in the resumers list could
wake the coroutine out of a later, unrelated pause.
---
 neco.c | 68 ++++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/neco.c b/neco.c
index 47dc2fe..b7ba7a7 100644
--- a/neco.c
+++ b/neco.c
@@ -3336,6 +3336,7 @@ struct coroutine {
     int64_t starterid;            // identifer of the starter coroutine
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
+    bool handed;                  // paused operation completed by another
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -3354,10 +3355,8 @@ struct coroutine {
     int cancelstate;              // cancelation state
     bool canceled;                // coroutine operation was cancelled
     struct colist cancellist;     // waiting coroutines
-    int ncancellist;              // number of waiting coroutines
 
     struct colist joinlist;       // waiting coroutines
-    int njoinlist;                // number of waiting coroutines
 
     struct neco_chan *gen;        // self generator (actually a channel)
 
@@ -3589,7 +3588,6 @@ struct runtime {
     size_t nevwaiters;
 
     // list of coroutines waiting to be resumed by the scheduler
-    int nresumers;
     struct colist resumers;
 
     // coroutine pool (reusables)
@@ -3667,14 +3665,13 @@ static void coyield(void) {
 // immediately yield the current coroutine to the provided coroutine.
 static void sched_resume(struct coroutine *co) {
     colist_push_back(&rt->resumers, co);
-    rt->nresumers++;
 }
 
 static void yield_for_sched_resume(void) {
     // Two yields may be required. The first will resume the paused coroutines
     // that are in the resumers queue. The second yield ensures that the
     // current coroutine waits until _after_ the others have resumed.
-    if (rt->nresumers > 0) {
+    if (!colist_is_empty(&rt->resumers)) {
         coyield();
     }
     coyield();
@@ -4059,6 +4056,8 @@ static void rt_sched_signal_step(void) {
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
                     co->sigmask = (uint32_t)signo;
+                    co->handed = true;
+                    remove_from_list(co);
                     rt->sigqueue[signo]--;
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
@@ -4162,7 +4161,6 @@ static void rt_sched_paused_step(void) {
     struct coroutine *co = colist_pop_front(&rt->resumers);
     while (co) {
         sco_resume(co->id);
-        rt->nresumers--;
         co = colist_pop_front(&rt->resumers);
     }
 
@@ -4489,6 +4487,7 @@ static struct coroutine *cofind(int64_t id) {
 // pause the currently running coroutine with the provided deadline.
 static void copause(int64_t deadline) {
     struct coroutine *co = coself();
+    co->handed = false;
     // Cannot pause an already canceled or deadlined coroutine.
     if (!co->canceled && !co->deadlined) {
         co->deadline = deadline;
@@ -4499,6 +4498,9 @@ static void copause(int64_t deadline) {
         co->paused = true;
         sco_pause();
         co->paused = false;
+        // The coroutine may have been woken by something else while it was
+        // waiting in the resumers list.
+        remove_from_list(co);
         if (co->deadline < INT64_MAX) {
             dlqueue_delete(&rt->deadlines, co);
             rt->ndeadlines--;
@@ -4615,6 +4617,21 @@ static int checkdl(struct coroutine *co, int64_t deadline) {
     return canceled ? NECO_CANCELED : deadlined ? NECO_TIMEDOUT : NECO_OK;
 }
 
+// checkpause returns the result of an operation following a copause().
+// When the operation has already been completed on behalf of the coroutine,
+// such as when a message or a lock was handed over to it, then the operation
+// succeeded, even if the coroutine was canceled or its deadline was reached
+// before it got to run again. A cancelation stays pending for the next
+// operation in that case.
+static int checkpause(struct coroutine *co) {
+    if (co->handed) {
+        co->handed = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
+    return checkdl(co, INT64_MAX);
+}
+
 /// Get the identifier for the coroutine that started the current coroutine.
 ///
 /// ```
@@ -4663,10 +4680,12 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         // Target coroutine is blocking their cancel state.
         // Wait for it to be released.
         colist_push_back(&cotarg->cancellist, co);
-        cotarg->ncancellist++;
         copause(deadline);
         remove_from_list(co);
-        cotarg->ncancellist--;
+        if (co->handed) {
+            co->handed = false;
+            co->deadlined = false;
+        }
     }
 }
 
@@ -4785,7 +4804,7 @@ static int signal_wait_dl(int64_t deadline) {
     rt->nsigwaiters--;
     int signo = (int)co->sigmask;
     co->sigmask = 0;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     return ret == NECO_OK ? signo : ret;
 }
 
@@ -5985,6 +6004,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
             recv->cmsg = cocase->data;
             *cocase->ok = true;
         }
+        recv->handed = true;
         // Directly copy the message to the receiver's 'data' argument.
         if (chan->msgsize > 0) {
             memcpy(recv->cmsg, data, (size_t)chan->msgsize);
@@ -6023,7 +6043,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
@@ -6085,6 +6105,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // There's a sender waiting to send a message.
             // Put the sender's message in the buffer and wake it up.
             send = colist_pop_front(&chan->queue);
+            send->handed = true;
             cbuf_push(chan, send->cmsg);
         }
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
@@ -6104,6 +6125,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         // A sender is currently waiting to send a message.
         // This message must be consumed immediately.
         struct coroutine *send = colist_pop_front(&chan->queue);
+        send->handed = true;
         if (chan->msgsize) {
             memcpy(data, send->cmsg, (size_t)chan->msgsize);
         }
@@ -6135,7 +6157,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     remove_from_list(co);
     // The sender has already copied its message to 'data'.
     co->cmsg = NULL;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     if (ret != NECO_OK) {
         return ret;
     }
@@ -6224,6 +6246,7 @@ static int chan_close(struct neco_chan *chan) {
             *cocase->ok = false;
         }
         recv->cclosed = true;
+        recv->handed = true;
         sched_resume(recv);
     }
     chan->rclosed = true;
@@ -6297,7 +6320,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkpause(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
 
@@ -7192,7 +7215,7 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
@@ -7263,6 +7286,7 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
     while (1) {
         struct coroutine *co = colist_pop_front(&mu->queue);
         // Schedule the coroutines to resume.
+        co->handed = true;
         sched_resume(co);
         if (co->rlocked) {
             // The popped coroutine was a reader.
@@ -7415,10 +7439,12 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         struct coroutine *co = colist_pop_front(&wg->queue);
         if (colist_is_empty(&wg->queue)) {
             // Only one waiter. Do a quick switch.
+            co->handed = true;
             sco_resume(co->id);
         } else {
             // Many waiters. Batch them together.
             do {
+                co->handed = true;
                 sched_resume(co);
                 co = colist_pop_front(&wg->queue);  
             } while (co);
@@ -7457,7 +7483,7 @@ static int waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
     copause(deadline);
     rt->nwaitgroupers--;
     remove_from_list(co);
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 int neco_waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
@@ -7555,6 +7581,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
+        co->handed = true;
         sco_resume(co->id);
     }
     return NECO_OK;
@@ -7574,6 +7601,7 @@ static int cond_broadcast(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     while (co) {
+        co->handed = true;
         sched_resume(co);
         co = colist_pop_front(&cvar->queue);
     }
@@ -7611,7 +7639,7 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
-    ret = checkdl(co, INT64_MAX);
+    ret = checkpause(co);
     // Must relock.
     while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
     return ret;
@@ -7730,6 +7758,7 @@ static void coexit(bool async) {
     bool sched = false;
     struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
     while (cowaiter) {
+        cowaiter->handed = true;
         sched_resume(cowaiter);
         sched = true;
         cowaiter = colist_pop_front(&co->cancellist);
@@ -7738,6 +7767,7 @@ static void coexit(bool async) {
     // Notify all join waiters (if any)
     cowaiter = colist_pop_front(&co->joinlist);
     while (cowaiter) {
+        cowaiter->handed = true;
         sched_resume(cowaiter);
         sched = true;
         cowaiter = colist_pop_front(&co->joinlist);
@@ -7866,11 +7896,9 @@ static int join_dl(int64_t id, int64_t deadline) {
         return NECO_PERM;
     }
     colist_push_back(&cotarg->joinlist, co);
-    cotarg->njoinlist++;
     copause(deadline);
     remove_from_list(co);
-    cotarg->njoinlist--;
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_join() but with a deadline parameter. 
@@ -8648,7 +8676,7 @@ static int suspend_dl(int64_t deadline) {
     rt->nsuspended--;
     co->suspended = false;
 
-    return checkdl(co, INT64_MAX);
+    return checkpause(co);
 }
 
 /// Same as neco_suspend() but with a deadline parameter. 
@@ -8679,6 +8707,8 @@ static int resume(int64_t id) {
     if (!co->suspended) {
         return NECO_NOTSUSPENDED;
     }
+    co->suspended = false;
+    co->handed = true;
     sco_resume(co->id);
     return NECO_OK;
 }
-- 
2.43.0


From 05477e03f6a771f0c130a4ef096abf9c7ada50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:40 +0000
Subject: [PATCH 02/26] fix: a cancelation no longer abandons background work
 in progress

A coroutine waiting for neco_work(), or for a read or write in a background
worker, was woken by a cancelation and returned while the worker was still
using the coroutine's stack, and was later queued a second time.
---
 neco.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index b7ba7a7..dc4a1ad 100644
--- a/neco.c
+++ b/neco.c
@@ -3337,6 +3337,7 @@ struct coroutine {
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
     bool handed;                  // paused operation completed by another
+    bool iodone;                  // background work is done
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -4197,6 +4198,7 @@ static void rt_sched_paused_step(void) {
             if (!co) {
                 break;
             }
+            co->iodone = true;
             sco_resume(co->id);
         }
     }
@@ -5042,6 +5044,17 @@ static void cowait(int fd, enum evkind kind, int64_t deadline) {
 // Networking code
 ////////////////////////////////////////////////////////////////////////////////
 
+#ifndef NECO_NOWORKERS
+// Pause the coroutine until its background work is done.
+// The work is using the coroutine stack and cannot be abandoned. Thus anything
+// else that wakes up the coroutine, such as a cancelation, must stay pending.
+static void iopause(struct coroutine *co) {
+    while (!co->iodone) {
+        sco_pause();
+    }
+}
+#endif
+
 #if !defined(NECO_NOWORKERS) && defined(NECO_USEREADWORKERS) && \
     !defined(NECO_NOREADWORKERS)
 
@@ -5087,9 +5100,10 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
             .rt = rt,
         };
         int64_t pin = co->id % NECO_MAXIOWORKERS;
+        co->iodone = false;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            iopause(co);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -5249,9 +5263,10 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
             .rt = rt,
         };
         int64_t pin = co->id % NECO_MAXIOWORKERS;
+        co->iodone = false;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            iopause(co);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -8758,10 +8773,11 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
     // Run in background
     struct iowork info = { .work = work, .udata = udata, .co = co, .rt = rt };
     rt->niowaiters++;
+    co->iodone = false;
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
-    sco_pause();
+    iopause(co);
     rt->niowaiters--;
 #endif
     return NECO_OK;
-- 
2.43.0


From e80607a14b9e8c37877e031c5fe94870492aac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:57 +0000
Subject: [PATCH 03/26] fix: neco_cond_wait misses no signal and always returns
 with the mutex held

The mutex was released, letting other coroutines run, before the coroutine
started waiting, so that a signal sent by the next owner was lost; and a
cancelation during the relock was swallowed, or ended the coroutine
inside of the wait.
---
 neco.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/neco.c b/neco.c
index dc4a1ad..a8bd002 100644
--- a/neco.c
+++ b/neco.c
@@ -7280,22 +7280,24 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// Unlock the mutex and hand it over to the next waiting coroutines, if any.
+// Returns true if there are coroutines scheduled to be resumed.
+static bool mutex_handoff(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7314,7 +7316,13 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
+}
+
+static void mutex_fastunlock(struct neco_mutex *mu) {
+    if (mutex_handoff(mu)) {
+        yield_for_sched_resume();
+    }
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7335,6 +7343,7 @@ int neco_mutex_unlock(neco_mutex *mutex) {
     return ret;
 }
 
+#ifdef NECO_TESTING
 inline
 static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     int64_t deadline)
@@ -7348,7 +7357,6 @@ static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     return ret;
 }
 
-#ifdef NECO_TESTING
 // An optimistic lock routine for testing only
 int neco_mutex_fastlock(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
@@ -7646,17 +7654,24 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
-    mutex_fastunlock(mu);
-    // The coroutine was added to the deadliner queue. We can safely
-    // yield and wait to be woken at some point in the future.
+    // Start waiting before any other coroutine gets to run, otherwise a signal
+    // that is sent by the next owner of the mutex will be missed.
     colist_push_back(&cvar->queue, co);
+    mutex_handoff(mu);
     rt->ncondwaiters++;
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
     ret = checkpause(co);
-    // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    // Must relock. A cancelation that arrives in the meantime has to wait for
+    // the next operation.
+    bool canceled = false;
+    while (mutex_lock_dl(co, mu, INT64_MAX) != NECO_OK) {
+        canceled = true;
+    }
+    if (canceled) {
+        co->canceled = true;
+    }
     return ret;
 }
 
-- 
2.43.0


From 91413c17ad1e5868af72ee22a2d2abe5ef8413a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:19 +0000
Subject: [PATCH 04/26] fix: readers no longer wait behind a writer that gave
 up on the mutex

---
 neco.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index a8bd002..ca1f535 100644
--- a/neco.c
+++ b/neco.c
@@ -7230,7 +7230,20 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkpause(co);
+    int ret = checkpause(co);
+    if (ret != NECO_OK) {
+        // This coroutine gave up. The readers that were waiting behind it can
+        // join the readers that are currently holding the lock.
+        while (mu->rlocked > 0 && !colist_is_empty(&mu->queue) && 
+            mu->queue.head.next->rlocked)
+        {
+            co = colist_pop_front(&mu->queue);
+            mu->rlocked++;
+            co->handed = true;
+            sched_resume(co);
+        }
+    }
+    return ret;
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
-- 
2.43.0


From c367908c5ab5b7725bf0782d1297cb13d57df976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:11 +0000
Subject: [PATCH 05/26] fix: concurrent selects on the same channel each get
 their own message

The message for a waiting select was stored in a slot of the channel that is
shared by all selects. A second message for another select (or a broadcast
to many) overwrote the first before its coroutine got to run.
---
 neco.c | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/neco.c b/neco.c
index ca1f535..c792eee 100644
--- a/neco.c
+++ b/neco.c
@@ -5775,7 +5775,7 @@ struct coselectcase {
     struct neco_chan *chan;
     struct coroutine *co;
     void *data;
-    bool *ok;
+    bool ok;
     int idx;
     int *ret_idx;
 } aligned16;
@@ -6017,7 +6017,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
             *cocase->ret_idx = cocase->idx;
             recv = cocase->co;
             recv->cmsg = cocase->data;
-            *cocase->ok = true;
+            cocase->ok = true;
         }
         recv->handed = true;
         // Directly copy the message to the receiver's 'data' argument.
@@ -6258,7 +6258,7 @@ static int chan_close(struct neco_chan *chan) {
             // with the real coroutine.
             *cocase->ret_idx = cocase->idx;
             recv = cocase->co;
-            *cocase->ok = false;
+            cocase->ok = false;
         }
         recv->cclosed = true;
         recv->handed = true;
@@ -6311,7 +6311,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
             chan->buflen > 0 || chan->rclosed)
         {
             int ret = neco_chan_recv(cases[i].chan, cases[i].data);
-            *cases[i].ok = ret == NECO_OK;
+            cases[i].ok = ret == NECO_OK;
             return i;
         }
     }
@@ -6348,19 +6348,40 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
         return NECO_PERM;
     }
 
+    // Get the space needed for the message of each select-case. More than one
+    // coroutine may be waiting on the same channel and each needs to have its
+    // message until the channel is returned to the caller.
+    size_t msgsizes = 0;
+    va_list args0;
+    if (args) {
+        va_copy(args0, *args);
+    }
+    for (int i = 0; i < ncases; i++) {
+        struct neco_chan *chan;
+        chan = args ? va_arg(args0, struct neco_chan*) : chans[i];
+        msgsizes += chan ? (size_t)chan->msgsize : 0;
+    }
+    if (args) {
+        va_end(args0);
+    }
+
     // Allocate space for storing each select-case struct. 
     // These are used in place of a coroutine for the channel receiver queues.
     bool must_free;
     struct coselectcase stack_cases[8];
+    char stack_msgs[256];
     struct coselectcase *cases;
-    if (ncases > 8) {
-        cases = malloc0((size_t)ncases * sizeof(struct coselectcase));
+    char *msgs;
+    if (ncases > 8 || msgsizes > sizeof(stack_msgs)) {
+        cases = malloc0((size_t)ncases * sizeof(struct coselectcase)+msgsizes);
         if (!cases) {
             return NECO_NOMEM;
         }
+        msgs = (char*)&cases[ncases];
         must_free = true;
     } else {
         cases = stack_cases;
+        msgs = stack_msgs;
         must_free = false;
     }
     struct coroutine *co = coself();
@@ -6376,13 +6397,22 @@ static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans,
             .idx = i,
             .ret_idx = &ret_idx,
             .co = co,
-            .data = chan ? cbufslot(chan, chan->bufcap) : 0,
-            .ok = chan ? &chan->lok : 0,
+            .data = msgs,
         };
+        msgs += chan ? chan->msgsize : 0;
         cases[i].next = (struct coroutine*)&cases[i];
         cases[i].prev = (struct coroutine*)&cases[i];
     }
     int ret = chan_select(ncases, cases, &ret_idx, deadline, try);
+    if (ret >= 0) {
+        // Keep the message for the neco_chan_case() that follows.
+        struct neco_chan *chan = cases[ret].chan;
+        chan->lok = cases[ret].ok;
+        if (chan->lok && chan->msgsize > 0) {
+            memcpy(cbufslot(chan, chan->bufcap), cases[ret].data, 
+                (size_t)chan->msgsize);
+        }
+    }
     if (must_free) {
         free0(cases);
     }
-- 
2.43.0


From 29f64447b30fd07a4d31ced4caf97577d29fdfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:33 +0000
Subject: [PATCH 06/26] fix: a closed channel reports closed after its last
 waiting sender gave up

The receiving side stayed open forever when the last sender waiting at the
time of the close was canceled or timed out, blocking later receivers.
---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index c792eee..905bb86 100644
--- a/neco.c
+++ b/neco.c
@@ -6058,7 +6058,15 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkpause(co);
+    int ret = checkpause(co);
+    if (ret != NECO_OK && chan->sclosed && colist_is_empty(&chan->queue) &&
+        chan->buflen == 0)
+    {
+        // The channel was closed and this was the last sender.
+        // Now close the receiving side too.
+        chan->rclosed = true;
+    }
+    return ret;
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
-- 
2.43.0


From f098cfa66111775ffc0d6b23cb14efd886014592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:56 +0000
Subject: [PATCH 07/26] fix: a coroutine no longer inherits or leaks the state
 of a finished one

A pending cancelation made a finishing coroutine exit twice or was inherited,
together with the last started id and watched signals, by the next coroutine
using the same pooled object.
---
 neco.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/neco.c b/neco.c
index 905bb86..e2a0db4 100644
--- a/neco.c
+++ b/neco.c
@@ -3853,6 +3853,10 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    co->lastid = 0;
+    co->cleanup = NULL;
+    co->canceled = false;
+    co->deadlined = false;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
@@ -7835,6 +7839,17 @@ static void coexit(bool async) {
     // Delete from map 
     comap_delete(&rt->all, co);
 
+    // A pending cancelation must not interrupt the remaining steps.
+    co->canceled = false;
+
+    // Stop watching signals
+    for (int signo = 1; signo < 32; signo++) {
+        if (co->sigwatch & (UINT32_C(1) << signo)) {
+            rt->sigwatchers[signo]--;
+        }
+    }
+    co->sigwatch = 0;
+
     // Notify all cancel waiters (if any)
     bool sched = false;
     struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
-- 
2.43.0


From b9dc99f7c978b635520b8233fa6a3da55651f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 08/26] fix: enabling cancelation wakes the coroutines waiting
 to cancel

They were left waiting until the coroutine ended.
---
 neco.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neco.c b/neco.c
index e2a0db4..5762ce6 100644
--- a/neco.c
+++ b/neco.c
@@ -7779,6 +7779,15 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Notify all cancel waiters (if any)
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            cowaiter->handed = true;
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From 827040ac78015f8288529753439d586f4a4e0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 09/26] fix: a write interrupted by a deadline or cancelation
 reports the bytes already written

---
 neco.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 5762ce6..3facd3c 100644
--- a/neco.c
+++ b/neco.c
@@ -5302,7 +5302,13 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
-            return -1;
+            if (written == 0) {
+                return -1;
+            }
+            // Some data has already been written. Notify the caller about
+            // the amount and leave the cancelation for the next operation.
+            co->canceled = ret == NECO_CANCELED;
+            return written;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
         // ssize_t n = write2(fd, data, maxnbytes);
-- 
2.43.0


From 16f53558d628d806228c39dc194c0456a6273d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:02 +0000
Subject: [PATCH 10/26] fix: an event no longer disarms the waiters of the
 other kind, hang-ups wake all

A oneshot event for reading disabled the descriptor also for coroutines
waiting to write, and vice versa; EPOLLHUP and EPOLLERR woke nobody.
---
 neco.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 3facd3c..d1c7dd3 100644
--- a/neco.c
+++ b/neco.c
@@ -4103,8 +4103,18 @@ static void rt_sched_event_step(int64_t timeout) {
     for (int i = 0; i < nevents; i++) {
 #if defined(NECO_POLL_EPOLL)
         int fd = evs[i].data.fd;
-        bool read = evs[i].events & EPOLLIN;
-        bool write = evs[i].events & EPOLLOUT;
+        // A hang-up or error condition makes a file descriptor ready for both
+        // reading and writing.
+        bool read = evs[i].events & (EPOLLIN | EPOLLHUP | EPOLLERR);
+        bool write = evs[i].events & (EPOLLOUT | EPOLLHUP | EPOLLERR);
+        // The event was oneshot. Rearm it for the waiters of the other kind.
+        struct epoll_event ev = { .data.fd = fd };
+        ev.events |= !read && evexists(fd, EVREAD) ? EPOLLIN : 0;
+        ev.events |= !write && evexists(fd, EVWRITE) ? EPOLLOUT : 0;
+        if (ev.events) {
+            ev.events |= EPOLLONESHOT;
+            epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev);
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From f014f3703a9dddd4d4eefc8bbf27b0a543cf20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:53 +0000
Subject: [PATCH 11/26] fix: a pending signal that nobody waits for no longer
 holds up the others

Also a signal that interrupted the update of the signal queue could get lost.
---
 neco.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/neco.c b/neco.c
index d1c7dd3..1c1baec 100644
--- a/neco.c
+++ b/neco.c
@@ -3605,10 +3605,10 @@ struct runtime {
 
     struct colist sigwaiters;      // signal waiting coroutines
     size_t nsigwaiters;
-    uint32_t sigmask;              // signal mask from handler
+    atomic_uint sigmask;           // signal mask from handler
     int sigwatchers[32];           // signals being watched, reference counted
     bool mainthread;               // running on the main thread
-    int sigqueue[32];              // queue of signals waiting for delivery
+    atomic_int sigqueue[32];       // queue of signals waiting for delivery
 #ifndef _WIN32
     struct sigaction sigold[32];   // previous signal handlers, for restoring
 #endif
@@ -3930,8 +3930,8 @@ static void sigallowhandler(int signo) {
     }
     // The Neco runtime has a signal watching for this specific signal.
     // Queue the signal and let the runtime take over.
-    rt->sigmask |= (UINT32_C(1) << signo);
-    rt->sigqueue[signo]++;
+    atomic_fetch_add(&rt->sigqueue[signo], 1);
+    atomic_fetch_or(&rt->sigmask, UINT32_C(1) << signo);
 }
 
 static void crash_and_exit(int signo) {
@@ -4039,16 +4039,24 @@ static void rt_restore_signal_handlers(void) {
 #endif
 }
 
+// Take one signal from the queue.
+static void sigqueue_take(int signo) {
+    // The sighandler() may interrupt at any point. The mask must not miss a
+    // signal that arrives here.
+    atomic_fetch_sub(&rt->sigqueue[signo], 1);
+    atomic_fetch_and(&rt->sigmask, ~(UINT32_C(1) << signo));
+    if (atomic_load(&rt->sigqueue[signo]) > 0) {
+        atomic_fetch_or(&rt->sigmask, UINT32_C(1) << signo);
+    }
+}
+
 static void rt_sched_signal_step(void) {
     for (int signo = 0; signo < 32; signo++) {
         if (rt->sigqueue[signo] == 0) {
             continue;
         } else if (rt->sigwatchers[signo] == 0) {
             // The signal is no longer being watched.
-            rt->sigqueue[signo]--;
-            if (rt->sigqueue[signo] == 0) {
-                rt->sigmask &= ~(UINT32_C(1) << signo);
-            }
+            sigqueue_take(signo);
             if (signo != SIGPIPE) {
                 sigexitnow(signo);
             }
@@ -4063,17 +4071,13 @@ static void rt_sched_signal_step(void) {
                     co->sigmask = (uint32_t)signo;
                     co->handed = true;
                     remove_from_list(co);
-                    rt->sigqueue[signo]--;
-                    if (rt->sigqueue[signo] == 0) {
-                        rt->sigmask &= ~(UINT32_C(1) << signo);
-                    }
+                    sigqueue_take(signo);
                     sco_resume(co->id);
                     next = (struct coroutine*)&rt->sigwaiters.tail;
                 }
                 co = next;
             }
         }
-        break;
     }
 }
 
-- 
2.43.0


From c3acf8819c5a84f84e7b4ec9ddf28a4ab2f83c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:15 +0000
Subject: [PATCH 12/26] fix: restore the previous signal stack when the runtime
 ends

The thread was left with a released signal stack.
---
 neco.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 1c1baec..a914188 100644
--- a/neco.c
+++ b/neco.c
@@ -3613,6 +3613,9 @@ struct runtime {
     struct sigaction sigold[32];   // previous signal handlers, for restoring
 #endif
     char *sigstack;                // stack for signals
+#if !defined(_WIN32) && !defined(NECO_NOSIGNALS)
+    stack_t sigoldstack;           // previous signal stack, for restoring
+#endif
     int sigcrashed;
 
     int64_t rand_seed;             // used for PRNG (non-crypto)
@@ -4002,7 +4005,7 @@ static int rt_handle_signals(void) {
         .ss_size = NECO_SIGSTKSZ,
         .ss_flags = 0,
     };
-    must(sigaltstack(&ss, NULL) == 0);
+    must(sigaltstack(&ss, &rt->sigoldstack) == 0);
 #endif
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
@@ -4027,7 +4030,6 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
-    free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
@@ -4036,6 +4038,10 @@ static void rt_restore_signal_handlers(void) {
         int signo = TRAPPED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
     }
+#if NECO_SIGSTKSZ > 0
+    must(sigaltstack(&rt->sigoldstack, NULL) == 0);
+#endif
+    free0(rt->sigstack);
 #endif
 }
 
-- 
2.43.0


From 280203196a0b76ae4793767f506e207829090397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:37 +0000
Subject: [PATCH 13/26] fix: a wait group that reaches zero by a negative
 addition releases its waiters

---
 neco.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/neco.c b/neco.c
index a914188..e9586d3 100644
--- a/neco.c
+++ b/neco.c
@@ -7508,6 +7508,24 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Release all waiting coroutines
+static void waitgroup_release(struct neco_waitgroup *wg) {
+    struct coroutine *co = colist_pop_front(&wg->queue);
+    if (colist_is_empty(&wg->queue)) {
+        // Only one waiter. Do a quick switch.
+        co->handed = true;
+        sco_resume(co->id);
+    } else {
+        // Many waiters. Batch them together.
+        do {
+            co->handed = true;
+            sched_resume(co);
+            co = colist_pop_front(&wg->queue);  
+        } while (co);
+        yield_for_sched_resume();
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
@@ -7519,6 +7537,9 @@ static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
+        waitgroup_release(wg);
+    }
     return NECO_OK;
 }
 
@@ -7540,20 +7561,7 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
     }
     wg->count--;
     if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            co->handed = true;
-            sco_resume(co->id);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                co->handed = true;
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
+        waitgroup_release(wg);
     }
     return NECO_OK;
 }
-- 
2.43.0


From 8a9257a97b8f815b665af8f5d8eac19824775048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:00 +0000
Subject: [PATCH 14/26] fix: work is not left behind when its thread cannot be
 created

pthread_create() returns a positive error number on failure.
---
 deps/worker.c | 5 ++++-
 neco.c        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..48f4f5a 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // No thread for running the entry. Take it back.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index e9586d3..4153dca 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // No thread for running the entry. Take it back.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From 8b59c462685c941bf919be92ca5c7c3d782be7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:22 +0000
Subject: [PATCH 15/26] fix: stream operations that return data no longer
 swallow a cancelation

---
 neco.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 4153dca..b82e47f 100644
--- a/neco.c
+++ b/neco.c
@@ -8257,6 +8257,9 @@ static ssize_t stream_readfull_dl(neco_stream *stream, void *data,
         if (n <= 0) {
             if (nread == 0) {
                 nread = n;
+            } else if (lasterr == NECO_CANCELED) {
+                // Leave the cancelation for the next operation.
+                coself()->canceled = true;
             }
             return nread;
         } else {
@@ -8301,12 +8304,13 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
         // fast-track read byte
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
+        lasterr = NECO_OK;
     } else {
         ssize_t ret = neco_stream_read_dl(stream, &byte, 1, deadline);
         if (ret != 1) {
@@ -8404,6 +8408,9 @@ static ssize_t stream_write_dl(neco_stream *stream, const void *data,
             if (ret != NECO_OK) {
                 if (nwritten == 0) {
                     nwritten = ret;
+                } else if (ret == NECO_CANCELED) {
+                    // Leave the cancelation for the next operation.
+                    coself()->canceled = true;
                 }
                 break;
             }
-- 
2.43.0


From bb83bf6fef8c84366061e8df0151d1e25b8192d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:44 +0000
Subject: [PATCH 16/26] fix: a canceled dial does not continue with the next
 address

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index b82e47f..11b04e1 100644
--- a/neco.c
+++ b/neco.c
@@ -7000,7 +7000,7 @@ static int dial_tcp_dl(const char *addr, int tcp_vers, int64_t deadline) {
     do {
         fd = dial_connect_dl(ai->ai_family, ai->ai_socktype, ai->ai_protocol, 
             ai->ai_addr, ai->ai_addrlen, deadline);
-        if (fd != -1) {
+        if (fd != -1 || errno == ECANCELED) {
             break;
         }
         ai = ai->ai_next;
-- 
2.43.0


From de6a5bd6ed8e42b9449907bb998f22f554f1889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:06 +0000
Subject: [PATCH 17/26] fix: a failed neco_serve on a unix address leaves no
 socket file behind

Also refuse a path that is too long, like neco_dial does, rather than listening
on a truncated one.
---
 neco.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/neco.c b/neco.c
index 11b04e1..6fb21c4 100644
--- a/neco.c
+++ b/neco.c
@@ -7107,11 +7107,14 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
 #ifdef _WIN32
     return NECO_PERM;
 #else
+    struct sockaddr_un unaddr;
+    if (strlen(addr) > sizeof(unaddr.sun_path) - 1) {
+        return NECO_INVAL;
+    }
     int fd = socket0(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         return NECO_ERROR;
     }
-    struct sockaddr_un unaddr;
     memset(&unaddr, 0, sizeof(struct sockaddr_un));
     unaddr.sun_family = AF_UNIX;
     strncpy(unaddr.sun_path, addr, sizeof(unaddr.sun_path) - 1);
@@ -7119,12 +7122,11 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
         close(fd);
         return NECO_ERROR;
     }
-    if (listen0(fd, SOMAXCONN) == -1) {
-        close(fd);
-        return NECO_ERROR;
-    }
-    if (neco_setnonblock(fd, true, 0) == -1) {
+    if (listen0(fd, SOMAXCONN) == -1 || neco_setnonblock(fd, true, 0) == -1) {
+        int perrno = errno;
         close(fd);
+        unlink(addr);
+        errno = perrno;
         return NECO_ERROR;
     }
     return fd;
-- 
2.43.0


From e424128b0d906d4971cf7e1a35c6d2ddc890511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:29 +0000
Subject: [PATCH 18/26] fix: an interrupted connect waits for the connection in
 progress

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 6fb21c4..fd47e10 100644
--- a/neco.c
+++ b/neco.c
@@ -5549,6 +5549,7 @@ static int connect_dl(int fd, const struct sockaddr *addr, socklen_t addrlen,
                 // EAGAIN. 
                 errno = ECONNREFUSED;
                 break;
+            case EALREADY:
             case EINPROGRESS:
                 // EINPROGRESS means the connection is in progress and may
                 // take a while. We are allowed to add this file descriptor
@@ -5559,6 +5560,9 @@ static int connect_dl(int fd, const struct sockaddr *addr, socklen_t addrlen,
                 cowait(fd, EVWRITE, deadline);
                 continue;
             case EINTR:  // Interrupted. Just try again.
+                // The connection is still being established.
+                inprog = true;
+                continue;
             case ENOMEM: // Mac OS can sometimes return ENOMEM (bug)
                 continue;
             }
-- 
2.43.0


From b9bb19c353402ba542cac04488cec6761aadec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:51 +0000
Subject: [PATCH 19/26] fix: neco_getaddrinfo does not leak its result when
 canceled, or report a foreign errno

---
 neco.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index fd47e10..8f51b6a 100644
--- a/neco.c
+++ b/neco.c
@@ -6789,8 +6789,9 @@ static int getaddrinfo_dl(const char *node, const char *service,
         *res = args->res;
         args->res = NULL;
         ret = args->ret;
+        // The caller does not have the result yet, do not exit from here.
+        sco_yield();
         errno = args->errnum;
-        coyield();
     }
     neco_cleanup_pop(1);
     return ret;
-- 
2.43.0


From 794ecff8ea8d6cc8bc40ba4d9e5d1b09eb079cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:13 +0000
Subject: [PATCH 20/26] fix: neco_pipe does not disturb the seeded random
 numbers nor leave its child behind

The socket path came from the seeded generator: it changed the sequence of
the user and was the same for all runtimes. When it failed, or a
cancelation was pending, its child coroutine was left running with pointers
to the local variables.
---
 neco.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/neco.c b/neco.c
index 8f51b6a..664e4f0 100644
--- a/neco.c
+++ b/neco.c
@@ -7960,6 +7960,10 @@ static int _pipe_(int pipefd[2]) {
         errno = EPERM;
         return -1;
     }
+    if (checkdl(coself(), INT64_MAX) != NECO_OK) {
+        errno = ECANCELED;
+        return -1;
+    }
     int oldstate = 0;
     neco_setcancelstate(NECO_CANCEL_DISABLE, &oldstate);
     int fd0 = -2;
@@ -7967,8 +7971,8 @@ static int _pipe_(int pipefd[2]) {
     int ret = -1;
     int64_t secret;
     uint64_t tmpkey;
-    neco_rand(&secret, 8, NECO_PRNG);
-    neco_rand(&tmpkey, 8, NECO_PRNG);
+    neco_rand(&secret, 8, NECO_CSPRNG);
+    neco_rand(&tmpkey, 8, NECO_CSPRNG);
     char path[PATH_MAX];
     snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
     int ln = neco_serve("unix", path);
@@ -7998,8 +8002,11 @@ static int _pipe_(int pipefd[2]) {
         unlink(path);
     }
     int perrno = errno;
-    if (ret == 0) {
+    if (childid) {
+        // The child is using the local variables.
         neco_join(childid);
+    }
+    if (ret == 0) {
         pipefd[0] = fd0;
         pipefd[1] = fd1;
         fd0 = -1;
@@ -8024,7 +8031,7 @@ static int _pipe_(int pipefd[2]) {
 /// socket. Also, the file descriptors are returned in non-blocking state.
 int neco_pipe(int pipefd[2]) {
     int ret = _pipe_(pipefd);
-    error_guard(ret);
+    async_error_guard(ret);
     return ret;
 }
 
-- 
2.43.0


From 6062baf62de6cf21fc9ad3049e8b7f69cb61b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:35 +0000
Subject: [PATCH 21/26] fix: refused mutex and generator operations set the
 last error

---
 neco.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/neco.c b/neco.c
index 664e4f0..29312e3 100644
--- a/neco.c
+++ b/neco.c
@@ -7277,10 +7277,9 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_trylock(co, mu, true, 0);
     }
-    ret = mutex_trylock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7289,10 +7288,9 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, true, 0);
     }
-    ret = mutex_tryrdlock(co, mu, true, 0);
     async_error_guard(ret);
     return ret;
 }
@@ -7339,10 +7337,9 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_lock_dl(co, mu, deadline);
     }
-    ret = mutex_lock_dl(co, mu, deadline);
     async_error_guard(ret);
     return ret;
 }
@@ -7355,10 +7352,9 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
-    if (ret != NECO_OK) {
-        return ret;
+    if (ret == NECO_OK) {
+        ret = mutex_tryrdlock(co, mu, false, deadline);
     }
-    ret = mutex_tryrdlock(co, mu, false, deadline);
     if (ret == NECO_BUSY) {
         // Another coroutine is holding this lock.
         ret = finish_lock(co, mu, true, deadline);
@@ -8772,11 +8768,10 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    int ret = !co ? NECO_PERM : !co->gen ? NECO_NOTGENERATOR : NECO_OK;
+    error_guard(ret);
+    if (ret != NECO_OK) {
+        return ret;
     }
     return neco_chan_send_dl((void*)co->gen, data, deadline);
 }
-- 
2.43.0


From 2ec84d52bf5932e29ee4609673ebec24dcdb6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:23 +0000
Subject: [PATCH 22/26] fix: clean-up handlers of an ending coroutine are not
 cut short by a cancelation

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 29312e3..df78db0 100644
--- a/neco.c
+++ b/neco.c
@@ -7879,6 +7879,10 @@ static void coexit(bool async) {
     struct coroutine *co = coself();
 
     if (async) {
+        // The cleanup handlers must not be interrupted by a cancelation.
+        co->canceled = false;
+        co->cancelstate = NECO_CANCEL_DISABLE;
+
         // Run the cleanup stack
         while (co->cleanup) {
             cleanup_pop(1);
-- 
2.43.0


From a168dad9e7852e551863779cb57415da7b422a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:13 +0000
Subject: [PATCH 23/26] fix: descriptor zero is a valid event queue and
 resolver pipe

With standard input closed the event queue or the pipe of a name lookup may
get descriptor zero, which was taken for 'none': every wait then created a
queue of its own, so that earlier waiters were never woken, and descriptor
zero was left open.
---
 neco.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/neco.c b/neco.c
index df78db0..ddaf681 100644
--- a/neco.c
+++ b/neco.c
@@ -4266,13 +4266,13 @@ static void rt_sched_paused_step(void) {
 // Resource collection step
 static void rt_rc_step(void) {
     int64_t now = getnow();
-    if (rt->nevwaiters == 0 && rt->qfd > 0) {
+    if (rt->nevwaiters == 0 && rt->qfd != -1) {
         if (now - rt->qfdcreated > NECO_MILLISECOND * 100) {
             // Close the event queue file descriptor if it's no longer needed.
             // When the queue goes unused for more than 100 ms it will
             // automatically be closed.
             close(rt->qfd);
-            rt->qfd = 0;
+            rt->qfd = -1;
         }
     }
     // Deal with coroutine pools.
@@ -4309,7 +4309,7 @@ static int rt_scheduler(void) {
         sco_resume(0);
     }
     // Cleanup extra resources
-    if (rt->qfd) {
+    if (rt->qfd != -1) {
         close(rt->qfd);
     }
     struct coroutine *co = colist_pop_front(&rt->pool);
@@ -4374,6 +4374,7 @@ static int run(void(*coroutine)(int, void**), int nargs, va_list *args,
     *rt = RUNTIME_DEFAULTS;
     rt->mainthread = is_main_thread();
     rt->id = atomic_fetch_add(&next_runtime_id, 1);
+    rt->qfd = -1;
 
 
     struct stack_opts sopts = stack_opts_make();
@@ -4960,7 +4961,7 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
 
     sco_yield();
 #else
-    if (rt->qfd == 0) {
+    if (rt->qfd == -1) {
         // The scheduler currently does not have an event queue for handling
         // file events. Create one now. This new queue will be shared for the 
         // entirety of the scheduler. It will be automatically freed when it's
@@ -4970,7 +4971,6 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
             // Error creating the event queue. This is usually due to a system
             // that is low on resources or is limiting the number of file
             // descriptors allowed by a program, e.g. ulimit. 
-            rt->qfd = 0;
             return -1;
         }
         // The queue was successfully created.
@@ -6600,10 +6600,10 @@ static void gai_args_free(struct getaddrinfo_args *args) {
         free0(args->node);
         free0(args->hints);
         freeaddrinfo(args->res);
-        if (args->fds[0]) {
+        if (args->fds[0] != -1) {
             must(close(args->fds[0]) == 0);
         }
-        if (args->fds[1]) {
+        if (args->fds[1] != -1) {
             must(close(args->fds[1]) == 0);
         }
 #ifdef __FreeBSD__
@@ -6623,6 +6623,8 @@ static struct getaddrinfo_args *gai_args_new(const char *node,
         return NULL;
     }
     memset(args, 0, sizeof(struct getaddrinfo_args));
+    args->fds[0] = -1;
+    args->fds[1] = -1;
     if (node) {
         size_t nnode = strlen(node);
         args->node = malloc0(nnode+1);
-- 
2.43.0


From 3947bd37586c698d9beddf53daf4b4f523232ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:44 +0000
Subject: [PATCH 24/26] fix: descriptor zero is a valid end of a neco_pipe

---
 neco.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index ddaf681..51159dc 100644
--- a/neco.c
+++ b/neco.c
@@ -7979,7 +7979,7 @@ static int _pipe_(int pipefd[2]) {
     snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
     int ln = neco_serve("unix", path);
     int64_t childid = 0;
-    if (ln > 0) {
+    if (ln >= 0) {
         // State a coroutine to connect to the listener.
         int nret = neco_start(co_pipe, 3, path, &secret, &fd0);
         neco_errconv_to_sys(nret);
@@ -7988,7 +7988,7 @@ static int _pipe_(int pipefd[2]) {
             int64_t dl = neco_now() + NECO_SECOND * 5;
             fd1 = neco_accept_dl(ln, 0, 0, dl);
             neco_errconv_to_sys(fd1);
-            if (fd1 > 0) {
+            if (fd1 >= 0) {
                 // Other side of pipe is connected.
                 // Waiting for the handshake.
                 int64_t data;
-- 
2.43.0


From 718a09d511421155087acbae6362136db09a4cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:36 +0000
Subject: [PATCH 25/26] fix: the end-of-file error has a message

---
 neco.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neco.c b/neco.c
index 51159dc..2e3441b 100644
--- a/neco.c
+++ b/neco.c
@@ -5693,6 +5693,8 @@ const char *neco_strerror(ssize_t errcode) {
         return strerror(EPERM);
     case NECO_NOMEM:
         return strerror(ENOMEM);
+    case NECO_EOF:
+        return "End of file";
     case NECO_NOTFOUND:
         return "No such coroutine";
     case NECO_NOSIGWATCH:
-- 
2.43.0


From 54cecebf2e337683552dcc19f1748e0f92f68248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 26/26] fix: channel buffers larger than 2 GB

The offset of a ring buffer slot was calculated with a 32-bit
multiplication, which overflowed for large channels.
---
 neco.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 2e3441b..6360132 100644
--- a/neco.c
+++ b/neco.c
@@ -5821,17 +5821,17 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + ((size_t)chan->msgsize * (size_t)index);
 }
 
 // push a message to the back by copying from data
 static void cbuf_push(struct neco_chan *chan, void *data) {
-    int pos = chan->bufpos + chan->buflen;
+    int64_t pos = (int64_t)chan->bufpos + chan->buflen;
     if (pos >= chan->bufcap) {
         pos -= chan->bufcap;
     }
     if (chan->msgsize > 0) {
-        memcpy(cbufslot(chan, pos), data, (size_t)chan->msgsize);
+        memcpy(cbufslot(chan, (int)pos), data, (size_t)chan->msgsize);
     }
     chan->buflen++;
 }
-- 
2.43.0

