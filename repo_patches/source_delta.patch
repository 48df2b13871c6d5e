From 153f5cc7628b19a8cb3a12ffc9568afbedf0aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:39 +0000
Subject: [PATCH 01/35] fix: normalise a timer expiry that falls exactly on a
 second

A sleep whose expiry had exactly 1000000000 nanoseconds was handed to
timerfd_settime() unnormalised. The call fails with EINVAL and the
library aborted the process.
---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From 9cf89d205d89b172fdc6aa9d58fada5cca3c4f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:42 +0000
Subject: [PATCH 02/35] fix: wake the joining task when a task ends through
 hev_task_exit

---
 src/kern/task/hev-task.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..e9bbb5d 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -187,6 +187,11 @@ hev_task_run (HevTask *self, HevTaskEntry entry, void *data)
 EXPORT_SYMBOL void
 hev_task_exit (void)
 {
+    HevTask *self = hev_task_self ();
+
+    if (self->joiner)
+        hev_task_wakeup (self->joiner);
+
     hev_task_system_kill_current_task ();
 }
 
-- 
2.43.0


From 836d5890eacc724dac770ccb57380d11ae8c5abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:42 +0000
Subject: [PATCH 03/35] fix: forget the joining task once its join has finished

---
 src/kern/task/hev-task.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index e9bbb5d..3ee092b 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -211,6 +211,8 @@ hev_task_join (HevTask *task)
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
+    task->joiner = NULL;
+
     return 0;
 }
 
-- 
2.43.0


From 86ebd74bccc7d53855dcb6f3d2ef917fecf4a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:09 +0000
Subject: [PATCH 04/35] fix: keep long millisecond sleeps from overflowing the
 timer argument

---
 src/kern/task/hev-task.c       | 10 +++++++++-
 src/kern/time/hev-task-timer.c | 11 +++++------
 src/kern/time/hev-task-timer.h |  6 ++++--
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 3ee092b..beef356 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,15 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    HevTaskSystemContext *ctx;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    return hev_task_timer_wait (ctx->timer, milliseconds * 1000ULL,
+                                ctx->current_task) /
+           1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..5ce2f06 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -53,7 +53,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +66,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -86,12 +86,11 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return (sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..d1a0b34 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -10,6 +10,8 @@
 #ifndef __HEV_TASK_TIMER_H__
 #define __HEV_TASK_TIMER_H__
 
+#include <stdint.h>
+
 #include "kern/task/hev-task-private.h"
 #include "lib/rbtree/hev-rbtree-cached.h"
 
@@ -24,7 +26,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 25914206e82b6dc3deb9aa0a2ad5fdcc46ef0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:23 +0000
Subject: [PATCH 05/35] fix: keep the other waiters when a timed condition wait
 times out

---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From b2935f0cdcdef6b90c8cc60dec1fd7147be5f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:31 +0000
Subject: [PATCH 06/35] fix: do not shorten a timed condition wait at every
 early wakeup

---
 src/kern/sync/hev-task-cond.c    |  7 ++++---
 src/kern/task/hev-task-private.h |  2 ++
 src/kern/task/hev-task.c         | 24 +++++++++++-------------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index 7dedb3b..c13b673 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -9,7 +9,7 @@
 
 #include <stddef.h>
 
-#include "kern/task/hev-task.h"
+#include "kern/task/hev-task-private.h"
 #include "lib/misc/hev-compiler.h"
 
 #include "hev-task-cond.h"
@@ -57,6 +57,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
                          unsigned int milliseconds)
 {
     HevTaskCondNode node;
+    uint64_t left = milliseconds * 1000ULL;
 
     node.prev = NULL;
     node.next = self->waiters;
@@ -67,8 +68,8 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
     self->waiters = &node;
 
     hev_task_mutex_unlock (mutex);
-    while (milliseconds && READ_ONCE (node.task))
-        milliseconds = hev_task_sleep (milliseconds);
+    while (left && READ_ONCE (node.task))
+        left = hev_task_sleep_us (left);
     hev_task_mutex_lock (mutex);
 
     if (READ_ONCE (node.task)) {
diff --git a/src/kern/task/hev-task-private.h b/src/kern/task/hev-task-private.h
index fbda24d..6367b28 100644
--- a/src/kern/task/hev-task-private.h
+++ b/src/kern/task/hev-task-private.h
@@ -48,6 +48,8 @@ struct _HevTask
     HevListNode list_node;
 };
 
+/* sleep in microseconds, returns the microseconds left if woken up early */
+extern uint64_t hev_task_sleep_us (uint64_t microseconds);
 extern void hev_task_execute (HevTask *self, void *executer);
 
 #endif /* __HEV_TASK_PRIVATE_H__ */
diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index beef356..de3216d 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -151,30 +151,28 @@ hev_task_yield (HevTaskYieldType type)
     hev_task_system_schedule (type);
 }
 
-EXPORT_SYMBOL unsigned int
-hev_task_sleep (unsigned int milliseconds)
+uint64_t
+hev_task_sleep_us (uint64_t microseconds)
 {
     HevTaskSystemContext *ctx;
 
-    if (milliseconds == 0)
+    if (microseconds == 0)
         return 0;
 
     ctx = hev_task_system_get_context ();
-    return hev_task_timer_wait (ctx->timer, milliseconds * 1000ULL,
-                                ctx->current_task) /
-           1000;
+    return hev_task_timer_wait (ctx->timer, microseconds, ctx->current_task);
 }
 
 EXPORT_SYMBOL unsigned int
-hev_task_usleep (unsigned int microseconds)
+hev_task_sleep (unsigned int milliseconds)
 {
-    HevTaskSystemContext *ctx;
-
-    if (microseconds == 0)
-        return 0;
+    return hev_task_sleep_us (milliseconds * 1000ULL) / 1000;
+}
 
-    ctx = hev_task_system_get_context ();
-    return hev_task_timer_wait (ctx->timer, microseconds, ctx->current_task);
+EXPORT_SYMBOL unsigned int
+hev_task_usleep (unsigned int microseconds)
+{
+    return hev_task_sleep_us (microseconds);
 }
 
 EXPORT_SYMBOL void
-- 
2.43.0


From 61e47e9a8e65904eb73a69bbb9ef47d653d4bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:24 +0000
Subject: [PATCH 07/35] fix: remember a channel's blocked reader and writer
 only while they wait

---
 src/kern/itc/hev-task-channel-private.h |  3 +-
 src/kern/itc/hev-task-channel-select.c  |  4 +--
 src/kern/itc/hev-task-channel.c         | 41 ++++++++++++++++++-------
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/kern/itc/hev-task-channel-private.h b/src/kern/itc/hev-task-channel-private.h
index 7ca6487..2cce0cd 100644
--- a/src/kern/itc/hev-task-channel-private.h
+++ b/src/kern/itc/hev-task-channel-private.h
@@ -52,7 +52,8 @@ struct _HevTaskChannel
     } write;
     HevListNode chan_node;
 
-    HevTask *task;
+    HevTask *reader;
+    HevTask *writer;
     HevTaskChannelSelect *select;
 
     unsigned int rd_idx;
diff --git a/src/kern/itc/hev-task-channel-select.c b/src/kern/itc/hev-task-channel-select.c
index 5993882..e92bfb5 100644
--- a/src/kern/itc/hev-task-channel-select.c
+++ b/src/kern/itc/hev-task-channel-select.c
@@ -33,7 +33,6 @@ EXPORT_SYMBOL void
 hev_task_channel_select_add (HevTaskChannelSelect *self, HevTaskChannel *chan)
 {
     chan->select = self;
-    chan->task = hev_task_self ();
 
     hev_list_add_tail (&self->chan_list, &chan->chan_node);
     if (hev_task_channel_is_readable (chan))
@@ -49,7 +48,6 @@ hev_task_channel_select_del (HevTaskChannelSelect *self, HevTaskChannel *chan)
     hev_task_channel_select_del_write (self, chan);
     hev_list_del (&self->chan_list, &chan->chan_node);
 
-    chan->task = NULL;
     chan->select = NULL;
 }
 
@@ -63,12 +61,14 @@ hev_task_channel_select (HevTaskChannelSelect *self, HevList *list, int timeout)
         return NULL;
 
     while (!(node = hev_list_first (list)) && milliseconds) {
+        WRITE_ONCE (self->task, hev_task_self ());
         barrier ();
         if (timeout < 0)
             hev_task_yield (HEV_TASK_WAITIO);
         else
             milliseconds = hev_task_sleep (milliseconds);
         barrier ();
+        WRITE_ONCE (self->task, NULL);
     }
 
     return node;
diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..01a3545 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -94,16 +94,34 @@ hev_task_channel_unref (HevTaskChannel *self)
     hev_free (self);
 }
 
+static void
+hev_task_channel_wakeup_reader (HevTaskChannel *self)
+{
+    if (self->select && self->select->task)
+        hev_task_wakeup (self->select->task);
+    if (self->reader)
+        hev_task_wakeup (self->reader);
+}
+
+static void
+hev_task_channel_wakeup_writer (HevTaskChannel *self)
+{
+    if (self->select && self->select->task)
+        hev_task_wakeup (self->select->task);
+    if (self->writer)
+        hev_task_wakeup (self->writer);
+}
+
 EXPORT_SYMBOL void
 hev_task_channel_destroy (HevTaskChannel *self)
 {
     if (self->peer) {
         self->peer->peer = NULL;
-        if (self->peer->task)
-            hev_task_wakeup (self->peer->task);
+        hev_task_channel_wakeup_reader (self->peer);
+        hev_task_channel_wakeup_writer (self->peer);
     }
-    if (self->task)
-        hev_task_wakeup (self->task);
+    hev_task_channel_wakeup_reader (self);
+    hev_task_channel_wakeup_writer (self);
 
     hev_task_channel_unref (self);
 }
@@ -148,8 +166,9 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->reader, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->reader, NULL);
     }
 
     barrier ();
@@ -167,8 +186,7 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (peer) {
             if (peer->select)
                 hev_task_channel_select_add_write (peer->select, peer);
-            if (peer->task)
-                hev_task_wakeup (peer->task);
+            hev_task_channel_wakeup_writer (peer);
         }
     }
 
@@ -198,8 +216,9 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->writer, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->writer, NULL);
     }
 
     barrier ();
@@ -219,8 +238,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     if (peer->use_count == 0) {
         if (peer->select)
             hev_task_channel_select_add_read (peer->select, peer);
-        if (peer->task)
-            hev_task_wakeup (peer->task);
+        hev_task_channel_wakeup_reader (peer);
     }
 
     peer->use_count++;
@@ -235,8 +253,9 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->writer, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->writer, NULL);
     }
 
     barrier ();
-- 
2.43.0


From 40bf0c1a5011038bcab3ccada80ab5202752f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:39 +0000
Subject: [PATCH 08/35] fix: keep a channel end usable while its destruction
 wakes blocked tasks

---
 src/kern/itc/hev-task-channel.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 01a3545..cfdd1b0 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -119,6 +119,7 @@ hev_task_channel_destroy (HevTaskChannel *self)
         self->peer->peer = NULL;
         hev_task_channel_wakeup_reader (self->peer);
         hev_task_channel_wakeup_writer (self->peer);
+        self->peer = NULL;
     }
     hev_task_channel_wakeup_reader (self);
     hev_task_channel_wakeup_writer (self);
@@ -160,6 +161,8 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
     HevTaskChannelBuffer *cbuf;
     ssize_t size = -1;
 
+    hev_task_channel_ref (self);
+
     /* wait on empty */
     while (!hev_task_channel_is_readable (self)) {
         /* check is peer alive because cond wait may yield */
@@ -195,6 +198,8 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         hev_task_channel_select_del_read (self->select, self);
 
 out:
+    hev_task_channel_unref (self);
+
     return size;
 }
 
@@ -208,6 +213,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     if (!peer)
         goto out0;
 
+    hev_task_channel_ref (self);
     hev_task_channel_ref (peer);
 
     /* wait on full */
@@ -249,6 +255,12 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     while (!hev_task_channel_is_writable (peer)) {
         /* check is peer alive because cond wait may yield */
         if (!hev_task_channel_is_active (self)) {
+            /* take back, nobody but self can have written after it */
+            peer->wr_idx = (peer->wr_idx + peer->max_count - 1) %
+                           peer->max_count;
+            peer->use_count--;
+            if (peer->select && !hev_task_channel_is_readable (peer))
+                hev_task_channel_select_del_read (peer->select, peer);
             size = -1;
             break;
         }
@@ -261,6 +273,7 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     barrier ();
 out1:
     hev_task_channel_unref (peer);
+    hev_task_channel_unref (self);
 out0:
 
     return size;
-- 
2.43.0


From 2e557b77a936830d78a743ce335c7d79b1197323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:53 +0000
Subject: [PATCH 09/35] fix: report a channel to a write select when a read
 leaves room in its buffers

---
 src/kern/itc/hev-task-channel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index cfdd1b0..043b4d2 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -183,11 +183,11 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         size = cbuf->size;
     size = hev_task_channel_data_copy (buffer, cbuf->data, size);
 
-    if (self->use_count == self->max_count) {
+    if (self->use_count + 1 >= self->max_count) {
         HevTaskChannel *peer = self->peer;
 
         if (peer) {
-            if (peer->select)
+            if (peer->select && self->use_count < self->max_count)
                 hev_task_channel_select_add_write (peer->select, peer);
             hev_task_channel_wakeup_writer (peer);
         }
-- 
2.43.0


From ea8354bf11beb53efc3e24595fae156446d658e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:53 +0000
Subject: [PATCH 10/35] fix: do not shorten a timed channel select at every
 early wakeup

---
 src/kern/itc/hev-task-channel-select.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kern/itc/hev-task-channel-select.c b/src/kern/itc/hev-task-channel-select.c
index e92bfb5..9812151 100644
--- a/src/kern/itc/hev-task-channel-select.c
+++ b/src/kern/itc/hev-task-channel-select.c
@@ -7,6 +7,7 @@
  ============================================================================
  */
 
+#include "kern/task/hev-task-private.h"
 #include "lib/misc/hev-compiler.h"
 #include "mem/api/hev-memory-allocator-api.h"
 
@@ -55,18 +56,18 @@ static HevListNode *
 hev_task_channel_select (HevTaskChannelSelect *self, HevList *list, int timeout)
 {
     HevListNode *node;
-    unsigned int milliseconds = timeout;
+    uint64_t left = timeout * 1000LL;
 
     if (!hev_list_first (&self->chan_list))
         return NULL;
 
-    while (!(node = hev_list_first (list)) && milliseconds) {
+    while (!(node = hev_list_first (list)) && left) {
         WRITE_ONCE (self->task, hev_task_self ());
         barrier ();
         if (timeout < 0)
             hev_task_yield (HEV_TASK_WAITIO);
         else
-            milliseconds = hev_task_sleep (milliseconds);
+            left = hev_task_sleep_us (left);
         barrier ();
         WRITE_ONCE (self->task, NULL);
     }
-- 
2.43.0


From b8cd796b116d68c2939bae615492b751a0d495ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:21 +0000
Subject: [PATCH 11/35] fix: pass message header fields and ancillary data
 through recvmsg/sendmsg

recvmsg works on a copy of the caller's header. The address length, the
ancillary data length and the flags filled in by the kernel never reached the
caller. They are now copied back.

With MSG_WAITALL, sendmsg repeated the ancillary data with every piece it
sent, so passed descriptors arrived several times. It now goes with the first
piece only. recvmsg appends the ancillary data of further pieces.
---
 src/lib/io/socket/hev-task-io-socket.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..9ed1d4d 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -262,6 +262,8 @@ hev_task_io_socket_recvmsg (int fd, struct msghdr *msg, int flags,
 {
     ssize_t s;
     size_t i, size = 0, len = 0;
+    size_t control_max = msg->msg_controllen;
+    size_t control_len = 0;
     struct msghdr mh;
     struct iovec iov[msg->msg_iovlen];
 
@@ -290,6 +292,17 @@ retry:
         goto retry;
     }
 
+    if (s >= 0) {
+        /* ancillary data of further pieces is appended */
+        control_len += mh.msg_controllen;
+        msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen = control_len;
+        msg->msg_flags = size ? msg->msg_flags | mh.msg_flags : mh.msg_flags;
+        if (mh.msg_control)
+            mh.msg_control += mh.msg_controllen;
+        mh.msg_controllen = control_max - control_len;
+    }
+
     if (!(flags & MSG_WAITALL))
         return s;
 
@@ -378,6 +391,10 @@ retry:
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
 
+        /* ancillary data goes with the first piece only */
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
+
         goto retry;
     }
 
-- 
2.43.0


From 67caa2af69b8074c4af326cfbc30132fa87d15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:27 +0000
Subject: [PATCH 12/35] fix: notice descriptors that are ready before the wait
 in hev_task_io_poll

With a time-out, poll registered the descriptors and went to sleep. A regular
file or an invalid descriptor never causes an event, so it was only noticed
when the time-out ended, and never without one.
---
 src/lib/io/poll/hev-task-io-poll.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d82421a..11953e5 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -28,6 +28,11 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
                 hev_task_add_fd (task, fds[i].fd, fds[i].events);
         }
 
+        /* something may be ready that never causes an event: files, bad fds */
+        res = poll (fds, nfds, 0);
+        if (res != 0)
+            return res;
+
         if (timeout > 0) {
             do {
                 timeout = hev_task_sleep (timeout);
-- 
2.43.0


From a0d0a4cabf8088b37de693f5dbc8d9f6606c8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:40 +0000
Subject: [PATCH 13/35] fix: do not shorten the time-out of hev_task_io_poll
 when woken early

The time left after an early wakeup was cut to whole milliseconds each time,
so poll could report a time-out before the time had passed.
---
 src/lib/io/poll/hev-task-io-poll.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index 11953e5..df45625 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -8,6 +8,7 @@
  */
 
 #include "kern/task/hev-task.h"
+#include "kern/task/hev-task-private.h"
 #include "lib/misc/hev-compiler.h"
 
 #include "hev-task-io-poll.h"
@@ -34,10 +35,12 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
             return res;
 
         if (timeout > 0) {
+            uint64_t left = (uint64_t)timeout * 1000;
+
             do {
-                timeout = hev_task_sleep (timeout);
+                left = hev_task_sleep_us (left);
                 res = poll (fds, nfds, 0);
-            } while (timeout > 0 && res == 0);
+            } while (left > 0 && res == 0);
         } else {
             do {
                 hev_task_yield (HEV_TASK_WAITIO);
-- 
2.43.0


From c9d01ed9a5594dbf8c3abfd3edfb4db4db84dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:08 +0000
Subject: [PATCH 14/35] fix: let hev_task_io_poll wait for all events of a
 descriptor listed twice

The second entry replaced the registration made for the first one, so a task
could keep waiting although the first entry was ready.
---
 src/lib/io/poll/hev-task-io-poll.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index df45625..4669055 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -22,11 +22,19 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
         res = poll (fds, nfds, 0);
     } else {
         HevTask *task = hev_task_self ();
-        unsigned int i;
+        unsigned int i, j;
 
         for (i = 0; i < nfds; i++) {
-            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
-                hev_task_add_fd (task, fds[i].fd, fds[i].events);
+            unsigned int events = fds[i].events;
+
+            /* a descriptor may be listed more than once */
+            for (j = 0; j < nfds; j++) {
+                if (fds[j].fd == fds[i].fd)
+                    events |= fds[j].events;
+            }
+
+            if (hev_task_mod_fd (task, fds[i].fd, events) < 0)
+                hev_task_add_fd (task, fds[i].fd, events);
         }
 
         /* something may be ready that never causes an event: files, bad fds */
-- 
2.43.0


From 6aa42021368fd34189f38b4da4dc8364c5fc0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:15 +0000
Subject: [PATCH 15/35] fix: close a descriptor used for both directions of a
 stream only once

---
 src/lib/cio/fd/hev-task-cio-fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 4d0ffb9..78ca7bf 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -126,7 +126,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
 
     if (self->fdi >= 0)
         close (self->fdi);
-    if (self->fdo >= 0)
+    if (self->fdo >= 0 && self->fdo != self->fdi)
         close (self->fdo);
 
     HEV_TASK_CIO_TYPE->destruct (base);
-- 
2.43.0


From 6acb43b83ff65b72b43b21c9ed1ef0cc316e8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:00 +0000
Subject: [PATCH 16/35] fix: skip empty elements in vector I/O on a buffered
 stream

An empty element made the buffered read and write of a vector return 0
before the rest of the vector was looked at.  Readers took that for the end
of the stream.  A read of no bytes could also block until data arrived.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..ba38aaf 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -108,6 +108,9 @@ _hev_task_cio_buffer_read (HevTaskCIO *base, void *buf, size_t count)
     if (!self->rbuf)
         return hev_task_cio_next_read (base, buf, count);
 
+    if (count == 0)
+        return 0;
+
     res = hev_circular_buffer_get_use_size (self->rbuf);
     if (res == 0) {
         ssize_t res;
@@ -178,6 +181,9 @@ _hev_task_cio_buffer_write (HevTaskCIO *base, const void *buf, size_t count)
     if (!self->wbuf)
         return hev_task_cio_next_write (base, buf, count);
 
+    if (count == 0)
+        return 0;
+
     iovcnt = hev_circular_buffer_writing (self->wbuf, iov);
     if (iovcnt == 0) {
         ssize_t res;
@@ -219,6 +225,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (v->iov_len == 0)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +258,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (v->iov_len == 0)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0


From 4b45c0b6024f6b8a090daf3cf64f55a03ec59040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:16 +0000
Subject: [PATCH 17/35] fix: flush a buffered stream until the layer below
 takes no more

A layer below may take only part of the data without being blocked, for
example when it is itself a smaller buffer.  The flush then reported EAGAIN
although no event was going to wake the task, and it hung.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 25 ++++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index ba38aaf..0b435aa 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -150,23 +150,22 @@ _hev_task_cio_buffer_flush (HevTaskCIOBuffer *self)
     if (!self->wbuf)
         return 0;
 
-    iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
-    if (iovcnt == 0)
-        return 0;
+    for (;;) {
+        iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
+        if (iovcnt == 0)
+            return 0;
 
-    res = hev_task_cio_next_writev (base, iov, iovcnt);
-    if (res < 0)
-        return res;
-
-    hev_circular_buffer_read_finish (self->wbuf, res);
+        res = hev_task_cio_next_writev (base, iov, iovcnt);
+        if (res < 0)
+            return res;
+        if (res == 0)
+            break;
 
-    res = hev_circular_buffer_get_use_size (self->wbuf);
-    if (res) {
-        base->err = EAGAIN;
-        return -1;
+        hev_circular_buffer_read_finish (self->wbuf, res);
     }
 
-    return 0;
+    base->err = EAGAIN;
+    return -1;
 }
 
 static ssize_t
-- 
2.43.0


From db2d024e66054f08708e9ae1be427011c74a2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:32 +0000
Subject: [PATCH 18/35] fix: let a stream relay finish flushing before it ends

The relay ignored the result of the flush after a write.  Data left in the
write buffer of the output stream was lost when the input ended, and was
held back until more input arrived otherwise.
---
 src/lib/cio/base/hev-task-cio.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f64cd73..39ade33 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -426,6 +426,7 @@ retry:
 static int
 task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 {
+    HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
     struct iovec iov[2];
     int res = 1, iovc;
 
@@ -445,7 +446,6 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 
     iovc = hev_circular_buffer_reading (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
         ssize_t s = kptr->writev (o, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (o->err == EAGAIN))
@@ -454,11 +454,17 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
                 res = -1;
         } else {
             hev_circular_buffer_read_finish (buf, s);
-            kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
             res = 1;
         }
     }
 
+    if (kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL) < 0) {
+        if (o->err != EAGAIN)
+            res = -1;
+        else if (res < 0)
+            res = 0;
+    }
+
     return res;
 }
 
-- 
2.43.0


From 776708aac77f7ec3b2c7cc1ca4f4a5cbb73931de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:44 +0000
Subject: [PATCH 19/35] fix: drop a reference of the next stream instead of
 destroying it

When a stream layer went away it destroyed the layer below even if that was
still referenced from elsewhere.
---
 src/lib/cio/base/hev-task-cio.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.h b/src/lib/cio/base/hev-task-cio.h
index 71979f6..3fb22a3 100644
--- a/src/lib/cio/base/hev-task-cio.h
+++ b/src/lib/cio/base/hev-task-cio.h
@@ -678,13 +678,11 @@ static inline void
 hev_task_cio_next_destruct (HevTaskCIO *self)
 {
     HevTaskCIO *next = self->next;
-    HevObjectClass *nkptr;
 
     if (!next)
         return;
 
-    nkptr = HEV_OBJECT_GET_CLASS (next);
-    nkptr->destruct (HEV_OBJECT (next));
+    hev_object_unref (HEV_OBJECT (next));
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 780b7e317de571d5c46950a241358c5c7488239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:25 +0000
Subject: [PATCH 20/35] fix: start the helper thread once and report when it
 cannot start

Two threads whose first lookups overlapped could both start a helper thread.
The second one replaced the event poller of the first, and lookups handed to
the first were then never answered. A thread that came second could also get
a failure although the helper was up.

A refused thread was taken for a success because pthread_create returns
positive error numbers. A helper without an event poller left its starter
waiting forever.
---
 src/kern/aide/hev-task-aide.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 95bc00c..d8b0e59 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -22,15 +22,22 @@ static pthread_t thread;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
+static int starting;
 
 static void *
 hev_task_aide_entry (void *data)
 {
+    HevTaskIOReactor *self = hev_task_io_reactor_new ();
+
     pthread_mutex_lock (&mutex);
-    reactor = hev_task_io_reactor_new ();
-    pthread_cond_signal (&cond);
+    reactor = self;
+    starting = 0;
+    pthread_cond_broadcast (&cond);
     pthread_mutex_unlock (&mutex);
 
+    if (!self)
+        return NULL;
+
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
         int i, count;
@@ -54,19 +61,21 @@ hev_task_aide_entry (void *data)
 int
 hev_task_aide_init (void)
 {
-    int res = -1;
-
-    if (reactor)
-        return 0;
+    int res;
 
     pthread_mutex_lock (&mutex);
+    while (starting)
+        pthread_cond_wait (&cond, &mutex);
     if (!reactor) {
         res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
         if (0 == res) {
-            while (!reactor)
+            pthread_detach (thread);
+            starting = 1;
+            while (starting)
                 pthread_cond_wait (&cond, &mutex);
         }
     }
+    res = reactor ? 0 : -1;
     pthread_mutex_unlock (&mutex);
 
     return res;
-- 
2.43.0


From 6ebdd78f25ca0cd0e2fa11504fc0ff3c1a94b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:04 +0000
Subject: [PATCH 21/35] fix: let allocation calls fail when a thread's
 allocator cannot be made

The first allocation of a thread creates the thread's default allocator. If
that was refused the call went on with a null allocator and crashed.
---
 src/mem/api/hev-memory-allocator-api.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..4c913ad 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -20,6 +20,9 @@ hev_malloc (size_t size)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     return hev_memory_allocator_alloc (allocator, size);
 }
 
@@ -30,6 +33,9 @@ hev_malloc0 (size_t size)
     void *data;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     data = hev_memory_allocator_alloc (allocator, size);
     if (data)
         memset (data, 0, size);
@@ -47,6 +53,9 @@ hev_calloc (size_t nmemb, size_t size)
 
     size *= nmemb;
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     data = hev_memory_allocator_alloc (allocator, size);
     if (data)
         memset (data, 0, size);
@@ -59,6 +68,9 @@ hev_realloc (void *ptr, size_t size)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     return hev_memory_allocator_realloc (allocator, ptr, size);
 }
 
@@ -68,5 +80,6 @@ hev_free (void *ptr)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
-    hev_memory_allocator_free (allocator, ptr);
+    if (allocator)
+        hev_memory_allocator_free (allocator, ptr);
 }
-- 
2.43.0


From e3eee19520dfc37d05cdafb9aa8ac190c501075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:09 +0000
Subject: [PATCH 22/35] fix: wait for a running handler before its helper work
 goes away

Shutting a task system down removed its lookup work from the helper thread,
closed the descriptors and freed the memory. The helper could still be between
fetching the event and the end of the handler. It then read freed memory and a
closed or reused descriptor number.

The helper now fetches one event at a time under the lock, and removal waits
until the handler of that work is done.
---
 src/kern/aide/hev-task-aide.c | 45 +++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index d8b0e59..6cf0e0d 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -22,6 +22,7 @@ static pthread_t thread;
 static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
+static HevTaskAideWork *current;
 static int starting;
 
 static void *
@@ -39,20 +40,33 @@ hev_task_aide_entry (void *data)
         return NULL;
 
     for (;;) {
-        HevTaskIOReactorWaitEvent events[256];
-        int i, count;
-
-        count = hev_task_io_reactor_wait (reactor, events, 256, -1);
+        HevTaskIOReactorWaitEvent event;
+        HevTaskAideWork *work = NULL;
+        unsigned int revents = 0;
+        struct pollfd pfd;
+
+        pfd.fd = hev_task_io_reactor_get_fd (self);
+        pfd.events = POLLIN;
+        poll (&pfd, 1, -1);
+
+        /* a work must not be deleted between its event and its handler */
+        pthread_mutex_lock (&mutex);
+        if (hev_task_io_reactor_wait (self, &event, 1, 0) > 0) {
+            work = hev_task_io_reactor_wait_event_get_data (&event);
+            revents = hev_task_io_reactor_wait_event_get_events (&event);
+        }
+        current = work;
+        pthread_mutex_unlock (&mutex);
 
-        for (i = 0; i < count; i++) {
-            HevTaskAideWork *work;
-            unsigned int revents;
+        if (!work)
+            continue;
 
-            work = hev_task_io_reactor_wait_event_get_data (&events[i]);
-            revents = hev_task_io_reactor_wait_event_get_events (&events[i]);
+        work->handler (revents, work->data);
 
-            work->handler (revents, work->data);
-        }
+        pthread_mutex_lock (&mutex);
+        current = NULL;
+        pthread_cond_broadcast (&cond);
+        pthread_mutex_unlock (&mutex);
     }
 
     return NULL;
@@ -98,9 +112,16 @@ hev_task_aide_del (HevTaskAideWork *work)
 {
     HevTaskIOReactorSetupEvent revents[HEV_TASK_IO_REACTOR_EVENT_GEN_MAX];
     int count;
+    int res;
 
     count = hev_task_io_reactor_setup_event_gen (
         revents, work->fd, HEV_TASK_IO_REACTOR_OP_DEL, 0, NULL);
 
-    return hev_task_io_reactor_setup (reactor, revents, count);
+    pthread_mutex_lock (&mutex);
+    res = hev_task_io_reactor_setup (reactor, revents, count);
+    while (current == work)
+        pthread_cond_wait (&cond, &mutex);
+    pthread_mutex_unlock (&mutex);
+
+    return res;
 }
-- 
2.43.0


From 6e0fbaa2128cb8563f79575121f4ebf5015db064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:24 +0000
Subject: [PATCH 23/35] fix: refuse an array allocation whose size overflows

---
 src/mem/api/hev-memory-allocator-api.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index 4c913ad..3901a6d 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -51,7 +51,9 @@ hev_calloc (size_t nmemb, size_t size)
     if (!nmemb || !size)
         return NULL;
 
-    size *= nmemb;
+    if (__builtin_mul_overflow (size, nmemb, &size))
+        return NULL;
+
     allocator = hev_memory_allocator_default ();
     if (!allocator)
         return NULL;
-- 
2.43.0


From ac94d68a0a281dad2bc761ff854ca966bd0da8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:38 +0000
Subject: [PATCH 24/35] fix: refuse slice requests too large for the size class
 arithmetic

A request beyond 256 GiB lost its upper bits and got a small block. A resize
to nearly the whole address space wrapped around and shrank the block.
---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..7e2fdbf 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -88,7 +88,7 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,7 +140,7 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
@@ -150,6 +150,8 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
+    if (0 == index)
+        return NULL;
 
     slice = realloc (slice, sizeof (HevMemorySlice) + size);
     if (!slice)
-- 
2.43.0


From f6c8752faa0b8b1160b09c457b6ff0a2055d172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:38 +0000
Subject: [PATCH 25/35] fix: accept null pointers in the slice allocator

Freeing or resizing a null pointer crashed with this allocator and worked with
the plain one.
---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 7e2fdbf..4d1babd 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -142,6 +142,9 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
     HevMemorySlice *slice;
     size_t index;
 
+    if (!ptr)
+        return _hev_memory_allocator_alloc (allocator, size);
+
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
         return NULL;
@@ -180,6 +183,9 @@ _hev_memory_allocator_free (HevMemoryAllocator *allocator, void *ptr)
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice = (HevMemorySlice *)ptr - 1;
 
+    if (!ptr)
+        return;
+
     if (slice->index < 0) {
         free (slice);
         return;
-- 
2.43.0


From 87ee8f154ff77ee0d2a80487bbdd2039b4a50bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:12 +0000
Subject: [PATCH 26/35] fix: keep the allocator when a second task system start
 fails

Starting a task system in a thread that already has one replaced the thread's
allocator before it noticed. If the new allocator was refused, live blocks
were then released to another kind of allocator. A failed start also left its
allocator behind.
---
 src/kern/core/hev-task-system.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..f0c2604 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -46,6 +46,11 @@ hev_task_system_init (void)
     HevMemoryAllocator *allocator = NULL;
     HevTaskSystemContext *context;
 
+    pthread_once (&key_once, pthread_key_creator);
+
+    if (hev_task_system_get_context ())
+        goto exit;
+
 #ifdef ENABLE_MEMALLOC_SLICE
     allocator = hev_memory_allocator_slice_new ();
 #endif
@@ -53,14 +58,9 @@ hev_task_system_init (void)
     if (allocator)
         hev_memory_allocator_unref (allocator);
 
-    pthread_once (&key_once, pthread_key_creator);
-
-    if (hev_task_system_get_context ())
-        goto exit;
-
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
-        goto exit;
+        goto free_allocator;
 
     if (hev_task_system_set_context (context) < 0)
         goto free_context;
@@ -87,6 +87,10 @@ rest_context:
     hev_task_system_set_context (NULL);
 free_context:
     hev_free (context);
+free_allocator:
+    allocator = hev_memory_allocator_set_default (NULL);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
 exit:
     return -1;
 }
-- 
2.43.0


From 4507397b4a53292c891803f216c1d61bc50cd018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:06 +0000
Subject: [PATCH 27/35] fix: close the reactor descriptor when its set-up fails

---
 src/kern/io/hev-task-io-reactor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor.c b/src/kern/io/hev-task-io-reactor.c
index 8abf1d3..4f0d698 100644
--- a/src/kern/io/hev-task-io-reactor.c
+++ b/src/kern/io/hev-task-io-reactor.c
@@ -32,12 +32,14 @@ hev_task_io_reactor_new (void)
 
     flags = fcntl (self->fd, F_GETFD);
     if (flags < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
 
     flags |= FD_CLOEXEC;
     if (fcntl (self->fd, F_SETFD, flags) < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
-- 
2.43.0


From 468634ad4335ea0411af9c1c27e8f690bbc61550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:36 +0000
Subject: [PATCH 28/35] fix: fail a poll whose descriptors cannot be registered

---
 src/lib/io/poll/hev-task-io-poll.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index 4669055..7d37b65 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <errno.h>
+
 #include "kern/task/hev-task.h"
 #include "kern/task/hev-task-private.h"
 #include "lib/misc/hev-compiler.h"
@@ -33,8 +35,13 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
                     events |= fds[j].events;
             }
 
-            if (hev_task_mod_fd (task, fds[i].fd, events) < 0)
-                hev_task_add_fd (task, fds[i].fd, events);
+            if (hev_task_mod_fd (task, fds[i].fd, events) == 0 ||
+                hev_task_add_fd (task, fds[i].fd, events) == 0)
+                continue;
+
+            /* poll deals with bad fds and with fds that cannot have events */
+            if (errno != EBADF && errno != EPERM)
+                return -1;
         }
 
         /* something may be ready that never causes an event: files, bad fds */
-- 
2.43.0


From d59c207919e6f1dbfd0ff2b386f7f5fe6bc6bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:42 +0000
Subject: [PATCH 29/35] fix: do not mark a heap stack that could not be
 allocated

---
 src/kern/task/hev-task-stack-heap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 63d9ffc..3357bbb 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -70,9 +70,10 @@ hev_task_stack_new (int size)
 
     size += STACK_OVERFLOW_DETECTION_SIZE;
     self = hev_malloc (sizeof (HevTaskStack) + size);
-    if (self)
-        self->size = size;
+    if (!self)
+        return NULL;
 
+    self->size = size;
     hev_task_stack_detection_mark (self);
     return self;
 }
-- 
2.43.0


From 95212ed40e43ee4a314b03c9a387d186bd38b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:57 +0000
Subject: [PATCH 30/35] fix: set up the class tables when loaded instead of on
 first use

Threads whose first streams or objects were created at the same time could
see a table that another thread was still filling, and use the operations
of the parent class or none at all.
---
 src/lib/cio/base/hev-task-cio.c          | 2 +-
 src/lib/cio/buffer/hev-task-cio-buffer.c | 2 +-
 src/lib/cio/fd/hev-task-cio-fd.c         | 2 +-
 src/lib/cio/null/hev-task-cio-null.c     | 2 +-
 src/lib/cio/socket/hev-task-cio-socket.c | 2 +-
 src/lib/misc/hev-compiler.h              | 5 +++++
 src/lib/object/hev-object-atomic.c       | 2 +-
 src/lib/object/hev-object.c              | 2 +-
 8 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index 39ade33..6ff2572 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -549,7 +549,7 @@ _hev_task_cio_destruct (HevObject *base)
     HEV_OBJECT_TYPE->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL CONSTRUCTOR HevObjectClass *
 hev_task_cio_class (void)
 {
     static HevTaskCIOClass klass;
diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 0b435aa..4daac9c 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -325,7 +325,7 @@ _hev_task_cio_buffer_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL CONSTRUCTOR HevObjectClass *
 hev_task_cio_buffer_class (void)
 {
     static HevTaskCIOBufferClass klass;
diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 78ca7bf..507ae78 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -133,7 +133,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL CONSTRUCTOR HevObjectClass *
 hev_task_cio_fd_class (void)
 {
     static HevTaskCIOFdClass klass;
diff --git a/src/lib/cio/null/hev-task-cio-null.c b/src/lib/cio/null/hev-task-cio-null.c
index c185e80..fd0499a 100644
--- a/src/lib/cio/null/hev-task-cio-null.c
+++ b/src/lib/cio/null/hev-task-cio-null.c
@@ -130,7 +130,7 @@ _hev_task_cio_null_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL CONSTRUCTOR HevObjectClass *
 hev_task_cio_null_class (void)
 {
     static HevTaskCIONullClass klass;
diff --git a/src/lib/cio/socket/hev-task-cio-socket.c b/src/lib/cio/socket/hev-task-cio-socket.c
index 02271a4..cf6afa7 100644
--- a/src/lib/cio/socket/hev-task-cio-socket.c
+++ b/src/lib/cio/socket/hev-task-cio-socket.c
@@ -214,7 +214,7 @@ _hev_task_cio_socket_destruct (HevObject *base)
     hev_free (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL CONSTRUCTOR HevObjectClass *
 hev_task_cio_socket_class (void)
 {
     static HevTaskCIOSocketClass klass;
diff --git a/src/lib/misc/hev-compiler.h b/src/lib/misc/hev-compiler.h
index 93aca9d..68bdc39 100644
--- a/src/lib/misc/hev-compiler.h
+++ b/src/lib/misc/hev-compiler.h
@@ -27,6 +27,11 @@ extern "C" {
 #define EXPORT_SYMBOL __attribute__ ((visibility ("default")))
 #endif
 
+/* runs when loaded, before there are any threads */
+#ifndef CONSTRUCTOR
+#define CONSTRUCTOR __attribute__ ((constructor))
+#endif
+
 #define barrier() __asm__ __volatile__ ("" : : : "memory")
 
 static inline void
diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 4d93ba7..60cc51c 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -54,7 +54,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
     kptr->destruct (base);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL CONSTRUCTOR HevObjectClass *
 hev_object_atomic_class (void)
 {
     static HevObjectAtomicClass klass;
diff --git a/src/lib/object/hev-object.c b/src/lib/object/hev-object.c
index 910cd2f..c85553b 100644
--- a/src/lib/object/hev-object.c
+++ b/src/lib/object/hev-object.c
@@ -42,7 +42,7 @@ _hev_object_ref (HevObject *self, int ref)
     kptr->destruct (self);
 }
 
-EXPORT_SYMBOL HevObjectClass *
+EXPORT_SYMBOL CONSTRUCTOR HevObjectClass *
 hev_object_class (void)
 {
     static HevObjectClass klass;
-- 
2.43.0


From a8ad39a7f13c351f570667f09d85098c2879f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:11 +0000
Subject: [PATCH 31/35] fix: release a thread's allocator when the thread ends

---
 src/mem/base/hev-memory-allocator.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mem/base/hev-memory-allocator.c b/src/mem/base/hev-memory-allocator.c
index 7262928..211d6f2 100644
--- a/src/mem/base/hev-memory-allocator.c
+++ b/src/mem/base/hev-memory-allocator.c
@@ -19,10 +19,16 @@
 static pthread_key_t key;
 static pthread_once_t key_once = PTHREAD_ONCE_INIT;
 
+static void
+pthread_key_destructor (void *data)
+{
+    hev_memory_allocator_unref (data);
+}
+
 static void
 pthread_key_creator (void)
 {
-    pthread_key_create (&key, NULL);
+    pthread_key_create (&key, pthread_key_destructor);
 }
 
 EXPORT_SYMBOL HevMemoryAllocator *
-- 
2.43.0


From 7ddbe9aae98252bd466eb53d97c455e51005b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:38 +0000
Subject: [PATCH 32/35] fix: install the overflow signal handlers once for all
 threads

The handlers belong to the process. Each task system saved and restored them
as if they were its own, so when the first of two threads shut down the other
lost them, and afterwards a handler stayed that needs a task system.
---
 src/lib/misc/hev-task-stack-detector.c | 37 +++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..269cc57 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -10,6 +10,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <signal.h>
+#include <pthread.h>
 
 #if defined(__APPLE__)
 #include <Availability.h>
@@ -26,12 +27,16 @@
 
 struct _HevTaskStackDetector
 {
-    struct sigaction bus_sa;
-    struct sigaction segv_sa;
     stack_t oss;
     char stack[SIGSTKSZ];
 };
 
+/* signal actions belong to the process, not to a thread */
+static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
+static struct sigaction bus_sa;
+static struct sigaction segv_sa;
+static unsigned int users;
+
 static int
 setaltstack (const stack_t *ss, stack_t *oss)
 {
@@ -46,8 +51,7 @@ static void
 signal_handler (int signo, siginfo_t *si, void *unused)
 {
     HevTaskSystemContext *context = hev_task_system_get_context ();
-    HevListNode *node = hev_list_first (&context->all_tasks);
-    HevTaskStackDetector *self = context->stack_detector;
+    HevListNode *node = context ? hev_list_first (&context->all_tasks) : NULL;
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
@@ -67,10 +71,10 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 
     switch (signo) {
     case SIGBUS:
-        self->bus_sa.sa_sigaction (signo, si, unused);
+        bus_sa.sa_sigaction (signo, si, unused);
         break;
     case SIGSEGV:
-        self->segv_sa.sa_sigaction (signo, si, unused);
+        segv_sa.sa_sigaction (signo, si, unused);
         break;
     default:
         return;
@@ -82,7 +86,7 @@ hev_task_stack_detector_new (void)
 {
     HevTaskStackDetector *self;
     struct sigaction sa;
-    int res = 0;
+    int res;
     stack_t ss;
 
     self = malloc (sizeof (HevTaskStackDetector));
@@ -97,12 +101,17 @@ hev_task_stack_detector_new (void)
     sa.sa_sigaction = signal_handler;
     sigemptyset (&sa.sa_mask);
 
-    res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
+    res = setaltstack (&ss, &self->oss);
     if (res < 0)
         goto free;
 
+    pthread_mutex_lock (&mutex);
+    if (!users++) {
+        sigaction (SIGBUS, &sa, &bus_sa);
+        sigaction (SIGSEGV, &sa, &segv_sa);
+    }
+    pthread_mutex_unlock (&mutex);
+
     return self;
 
 free:
@@ -114,8 +123,12 @@ exit:
 void
 hev_task_stack_detector_destroy (HevTaskStackDetector *self)
 {
-    sigaction (SIGBUS, &self->bus_sa, NULL);
-    sigaction (SIGSEGV, &self->segv_sa, NULL);
+    pthread_mutex_lock (&mutex);
+    if (!--users) {
+        sigaction (SIGBUS, &bus_sa, NULL);
+        sigaction (SIGSEGV, &segv_sa, NULL);
+    }
+    pthread_mutex_unlock (&mutex);
     setaltstack (&self->oss, NULL);
     free (self);
 }
-- 
2.43.0


From a4ba839ce47ddc902a58f3cbb0847657b791a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:26 +0000
Subject: [PATCH 33/35] fix: let a circular buffer without room report that it
 is full

The write position was computed before the check for a full buffer, which
divides by zero when the buffer was created with a size of zero.
---
 src/lib/io/buffer/hev-circular-buffer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..7ba2337 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -99,13 +99,16 @@ hev_circular_buffer_read_finish (HevCircularBuffer *self, size_t size)
 EXPORT_SYMBOL int
 hev_circular_buffer_writing (HevCircularBuffer *self, struct iovec *iov)
 {
-    size_t wp = (self->rp + self->use_size) % self->max_size;
-    size_t upper_size = self->max_size - wp;
     size_t spc_size = self->max_size - self->use_size;
+    size_t upper_size;
+    size_t wp;
 
-    if (self->use_size == self->max_size)
+    if (0 == spc_size)
         return 0;
 
+    wp = (self->rp + self->use_size) % self->max_size;
+    upper_size = self->max_size - wp;
+
     iov[0].iov_base = self->data + wp;
     if (spc_size <= upper_size) {
         iov[0].iov_len = spc_size;
-- 
2.43.0


From f4a0e6b093cc87fb1c599b192ded25a896b5ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:26 +0000
Subject: [PATCH 34/35] fix: refuse circular buffer sizes that do not fit in
 memory

The size of the block wrapped around, so a small block was allocated for a
buffer that reported a huge capacity.
---
 src/lib/io/buffer/hev-circular-buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 7ba2337..e34f3aa 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <stdint.h>
+
 #include "lib/misc/hev-compiler.h"
 #include "mem/api/hev-memory-allocator-api.h"
 
@@ -27,6 +29,9 @@ hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
 
+    if (max_size > SIZE_MAX - sizeof (HevCircularBuffer))
+        return NULL;
+
     self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
     if (!self)
         return NULL;
-- 
2.43.0


From 5b620968eb6e1768321528134be8241adfceb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:43 +0000
Subject: [PATCH 35/35] fix: compute the size of channel buffers without
 wrapping around

The sizes were computed in 32 bits, so a channel with many or large buffers
was created in a block that is far too small. Sizes that cannot be
represented are refused.
---
 src/kern/itc/hev-task-channel.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 043b4d2..87b177e 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -7,6 +7,9 @@
  ============================================================================
  */
 
+#include <limits.h>
+#include <stdint.h>
+
 #include "kern/task/hev-task.h"
 #include "lib/misc/hev-compiler.h"
 #include "mem/api/hev-memory-allocator-api.h"
@@ -28,12 +31,19 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t buffers_size;
+    size_t data_size = 0;
+
+    if (buffers == UINT_MAX)
+        goto err0;
 
     buffers += 1;
     if (buffers > 1)
-        data_size = size * buffers;
+        data_size = size;
+    if (buffers > (SIZE_MAX - sizeof (HevTaskChannel)) /
+                      (sizeof (HevTaskChannelBuffer) + data_size))
+        goto err0;
+    data_size *= buffers;
     buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
 
     c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
@@ -60,8 +70,10 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
         unsigned int i;
 
         for (i = 0; i < buffers; i++) {
-            c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-            c2->buffers[i].data = (void *)c2->buffers + buffers_size + size * i;
+            c1->buffers[i].data =
+                (void *)c1->buffers + buffers_size + (size_t)size * i;
+            c2->buffers[i].data =
+                (void *)c2->buffers + buffers_size + (size_t)size * i;
         }
     }
 
-- 
2.43.0

