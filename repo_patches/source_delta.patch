From 577517c29fc836f7025d6c52824a8723095d4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 01/39] fix: finalize exactly once when weak refs race with the
 last unref

When a weak ref extended the life of an object while its count was at zero
and the new reference was released before the first thread got the object
lock, either nobody finalized the object (the watermark did not match) or the
object was freed while the first thread was still about to lock it. Count the
threads that are on their way to the slow path and let the last one finalize.
---
 src/dex-object-private.h |  1 +
 src/dex-object.c         | 53 ++++++++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/dex-object-private.h b/src/dex-object-private.h
index 81a2f36..abfca38 100644
--- a/src/dex-object-private.h
+++ b/src/dex-object-private.h
@@ -95,6 +95,7 @@ typedef struct _DexObject
   GMutex           mutex;
   DexWeakRef      *weak_refs;
   guint            weak_refs_watermark;
+  guint            n_unref_slow;
   _Atomic int      ref_count;
 #ifdef HAVE_SYSPROF
   gint64           ctime;
diff --git a/src/dex-object.c b/src/dex-object.c
index db45b1c..4b2bacd 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -91,48 +91,63 @@ dex_unref (gpointer object)
   DexObject *obj = object;
   DexObjectClass *object_class;
   DexWeakRef *weak_refs;
-  guint watermark;
+  gboolean is_zero;
+  gboolean is_last;
+  int ref_count;
 
   g_return_if_fail (object != NULL);
   g_return_if_fail (DEX_IS_OBJECT (object));
 
-  /* Fetch a watermark before we decrement so that we can be
-   * sure that if we reached zero, that anything that extended
-   * the life of the mem_block will be responsible to free
-   * the object in the end.
+  /* If there are other references, just drop ours. Once it has been dropped
+   * we must not touch the object again because another thread may release
+   * what is left. Fast path.
    */
-  watermark = g_atomic_int_get (&obj->weak_refs_watermark);
+  ref_count = atomic_load_explicit (&obj->ref_count, memory_order_relaxed);
+  while G_LIKELY (ref_count > 1)
+    {
+      if (atomic_compare_exchange_weak_explicit (&obj->ref_count,
+                                                 &ref_count,
+                                                 ref_count - 1,
+                                                 memory_order_release,
+                                                 memory_order_relaxed))
+        return;
+    }
 
-  /* If we decrement and it's not zero, then there is nothing
-   * for this thread to do. Fast path.
+  /* This is likely the last reference. Before releasing it, announce that
+   * we will look at the object afterwards. While the count is at zero a weak
+   * ref may extend liveness and that new reference may be released too,
+   * potentially before we have even acquired the object lock below. Whoever
+   * is last to get through that lock is responsible to finalize.
    */
-  if G_LIKELY (atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_release) != 1)
-    return;
+  g_atomic_int_inc (&obj->n_unref_slow);
 
+  atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_release);
   atomic_thread_fence (memory_order_acquire);
 
   object_class = DEX_OBJECT_GET_CLASS (object);
 
-  /* We reached zero. We need to go through our weak references and
+  /* We might have reached zero. We need to go through our weak references and
    * acquire each of their mutexes so that we can be sure none of them
    * have raced against us to increment the value beyond 0. If they did,
    * then we can bail early and ignore any request to finalize.
-   *
-   * If the watermark is beyond ours, then we know that the weak-ref
-   * extended liveness beyond this call and we are not responsible
-   * for finalizing this object.
    */
   dex_object_lock (object);
   for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
     g_mutex_lock (&wr->mutex);
 
-  /* If we increased our reference count on another thread by extending the
+  /* Look at the count first. If it is zero now then it stays at zero and
+   * whoever released it has already announced itself.
+   */
+  is_zero = g_atomic_int_get (&obj->ref_count) == 0;
+  is_last = g_atomic_int_dec_and_test (&obj->n_unref_slow);
+
+  /* If our reference count was increased on another thread by extending the
    * lifetime of the mem_block using a weak_ref-to-full_ref, then we don't need
    * to do anything here. Just bail and move along allowing a future unref to
-   * finalize when it once again approaches zero.
+   * finalize when it once again approaches zero. The same goes for when another
+   * thread is about to get here, as it still needs the object.
    */
-  if (g_atomic_int_get (&obj->ref_count) > 0 ||
-      g_atomic_int_get (&obj->weak_refs_watermark) != watermark)
+  if (!is_zero || !is_last)
     {
       for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
         g_mutex_unlock (&wr->mutex);
-- 
2.43.0


From e9023abef9c438884fd17043194ec188e433d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 02/39] fix: take the object lock before the weak ref mutex in
 dex_weak_ref_set()

dex_weak_ref_set() locked the weak ref and then the object while dex_unref()
does it the other way round, so that setting a weak ref could deadlock with
the last unref of the object it points to.
---
 src/dex-object.c | 95 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 33 deletions(-)

diff --git a/src/dex-object.c b/src/dex-object.c
index 4b2bacd..b7b6a40 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -203,28 +203,41 @@ dex_object_init (DexObject      *self,
   self->weak_refs_watermark = 1;
 }
 
-static void
+/* Lock order is always object lock first, then weak_ref->mutex, which
+ * is the same order used by dex_unref().
+ */
+
+static gboolean
 dex_object_add_weak (gpointer    mem_block,
                       DexWeakRef *weak_ref)
 {
   DexObject *object = mem_block;
+  gboolean added = FALSE;
 
   g_assert (object != NULL);
   g_assert (weak_ref != NULL);
-  g_assert (weak_ref->prev == NULL);
-  g_assert (weak_ref->next == NULL);
-  g_assert (weak_ref->mem_block == mem_block);
 
   /* Must own a full ref to acquire a weak ref */
-  g_return_if_fail (object->ref_count > 0);
+  g_return_val_if_fail (object->ref_count > 0, FALSE);
 
   dex_object_lock (object);
-  weak_ref->prev = NULL;
-  weak_ref->next = object->weak_refs;
-  if (object->weak_refs != NULL)
-    object->weak_refs->prev = weak_ref;
-  object->weak_refs = weak_ref;
+  g_mutex_lock (&weak_ref->mutex);
+  if (weak_ref->mem_block == NULL)
+    {
+      g_assert (weak_ref->prev == NULL);
+      g_assert (weak_ref->next == NULL);
+
+      weak_ref->mem_block = mem_block;
+      weak_ref->next = object->weak_refs;
+      if (object->weak_refs != NULL)
+        object->weak_refs->prev = weak_ref;
+      object->weak_refs = weak_ref;
+      added = TRUE;
+    }
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
+
+  return added;
 }
 
 static void
@@ -240,23 +253,28 @@ dex_object_remove_weak (gpointer    mem_block,
   g_return_if_fail (object->ref_count > 0);
 
   dex_object_lock (object);
+  g_mutex_lock (&weak_ref->mutex);
 
-  if (weak_ref->prev != NULL)
-    weak_ref->prev->next = weak_ref->next;
+  if (weak_ref->mem_block == mem_block)
+    {
+      if (weak_ref->prev != NULL)
+        weak_ref->prev->next = weak_ref->next;
 
-  if (weak_ref->next != NULL)
-    weak_ref->next->prev = weak_ref->prev;
+      if (weak_ref->next != NULL)
+        weak_ref->next->prev = weak_ref->prev;
 
-  if (object->weak_refs == weak_ref)
-    object->weak_refs = weak_ref->next;
+      if (object->weak_refs == weak_ref)
+        object->weak_refs = weak_ref->next;
 
-  g_assert (object->weak_refs == NULL ||
-            object->weak_refs->prev == NULL);
+      g_assert (object->weak_refs == NULL ||
+                object->weak_refs->prev == NULL);
 
-  weak_ref->next = NULL;
-  weak_ref->prev = NULL;
-  weak_ref->mem_block = NULL;
+      weak_ref->next = NULL;
+      weak_ref->prev = NULL;
+      weak_ref->mem_block = NULL;
+    }
 
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
 }
 
@@ -423,22 +441,33 @@ dex_weak_ref_set (DexWeakRef *weak_ref,
   g_return_if_fail (!mem_block || DEX_IS_OBJECT (mem_block));
   g_return_if_fail (!mem_block || DEX_OBJECT (mem_block)->ref_count > 0);
 
-  g_mutex_lock (&weak_ref->mutex);
+  for (;;)
+    {
+      gboolean done;
 
-  old_mem_block = dex_weak_ref_get_locked (weak_ref);
+      /* Own a full reference so that the previous object cannot go away
+       * while detaching from it.
+       */
+      old_mem_block = dex_weak_ref_get (weak_ref);
+      done = old_mem_block == mem_block;
 
-  if (old_mem_block != mem_block)
-    {
-      if (old_mem_block != NULL)
-        dex_object_remove_weak (old_mem_block, weak_ref);
-      weak_ref->mem_block = mem_block;
-      if (mem_block != NULL)
-        dex_object_add_weak (mem_block, weak_ref);
-    }
+      if (!done)
+        {
+          if (old_mem_block != NULL)
+            dex_object_remove_weak (old_mem_block, weak_ref);
 
-  g_mutex_unlock (&weak_ref->mutex);
+          /* Try again if another thread was faster */
+          if (mem_block != NULL)
+            done = dex_object_add_weak (mem_block, weak_ref);
+          else
+            done = TRUE;
+        }
+
+      dex_clear (&old_mem_block);
 
-  dex_clear (&old_mem_block);
+      if (done)
+        break;
+    }
 }
 
 static void
-- 
2.43.0


From 876d281ede59faa7172319591ceb6d4a803b4cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 03/39] fix: decide which completion settles a future set while
 holding its lock

---
 src/dex-future-set.c | 53 +++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 8dd1d4a..9bff3b8 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -46,7 +46,8 @@ typedef struct _DexFutureSet
   guint               n_resolved;
   guint               n_rejected;
   DexFutureSetFlags   flags : 4;
-  guint               padding : 28;
+  guint               settled : 1;
+  guint               padding : 27;
   /* If n_futures <= 2, we use this instead of mallocing. We could
    * potentially get a 3rd without breaking 2-cachelines (128 bytes)
    * if we used a bit above to manage a union of futures/embedded.
@@ -72,8 +73,9 @@ dex_future_set_propagate (DexFuture *future,
 {
   DexFutureSet *future_set = DEX_FUTURE_SET (future);
   const GValue *resolved = NULL;
+  DexFutureSetFlags flags;
   DexFutureStatus status;
-  gboolean do_discard = FALSE;
+  gboolean do_settle = FALSE;
   GError *rejected = NULL;
   guint n_active = 0;
 
@@ -83,8 +85,10 @@ dex_future_set_propagate (DexFuture *future,
 
   dex_object_lock (future_set);
 
-  /* Short-circuit if we've already returned a value */
-  if (future->status != DEX_FUTURE_STATUS_PENDING)
+  /* Short-circuit if we've already returned a value, or if another thread
+   * has decided the value and is about to return it.
+   */
+  if (future_set->settled || future->status != DEX_FUTURE_STATUS_PENDING)
     {
       dex_object_unlock (future_set);
       return TRUE;
@@ -112,22 +116,32 @@ dex_future_set_propagate (DexFuture *future,
   g_assert (future_set->n_resolved + future_set->n_rejected <= future_set->n_futures);
   g_assert (rejected != NULL || resolved != NULL);
 
+  /* Decide while locked which completion settles the set. Completing the
+   * set happens without the lock, so another thread completing the last
+   * future must not overtake the one which is to be propagated.
+   */
+  flags = future_set->flags;
+  if (n_active == 0)
+    do_settle = TRUE;
+  else if (flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST)
+    do_settle = (resolved && (flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0) ||
+                (rejected && (flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0);
+  future_set->settled = do_settle;
+
   dex_object_unlock (future_set);
 
-  if (n_active == 0)
+  if (do_settle)
     {
-      do_discard = TRUE;
-
       if (resolved != NULL)
         {
-          if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE)
+          if (flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE)
             dex_future_complete (future, resolved, NULL);
           else
             dex_future_complete (future, &success_value, NULL);
         }
       else
         {
-          if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT)
+          if (flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT)
             dex_future_complete (future, NULL, g_steal_pointer (&rejected));
           else
             dex_future_complete (future,
@@ -136,30 +150,13 @@ dex_future_set_propagate (DexFuture *future,
                                                       DEX_ERROR_DEPENDENCY_FAILED,
                                                       "Too many futures failed"));
         }
-    }
-  else if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST)
-    {
-      do_discard = TRUE;
 
-      if (resolved && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0)
-        dex_future_complete (future, resolved, NULL);
-      else if (rejected && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0)
-        dex_future_complete (future, NULL, g_steal_pointer (&rejected));
-      else
-        do_discard = FALSE;
+      for (guint i = 0; i < future_set->n_futures; i++)
+        dex_future_discard (future_set->futures[i], future);
     }
 
   g_clear_error (&rejected);
 
-  if (do_discard)
-    {
-      if (dex_future_get_status (future) != DEX_FUTURE_STATUS_PENDING)
-        {
-          for (guint i = 0; i < future_set->n_futures; i++)
-            dex_future_discard (future_set->futures[i], future);
-        }
-    }
-
   return TRUE;
 }
 
-- 
2.43.0


From 3ad33658e1d510be8b68b0e37e2333d92991dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 04/39] fix: chain delayed futures to their source and wait for
 it after release

---
 src/dex-delayed.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dex-delayed.c b/src/dex-delayed.c
index e71806b..769cf16 100644
--- a/src/dex-delayed.c
+++ b/src/dex-delayed.c
@@ -92,7 +92,11 @@ dex_delayed_finalize (DexObject *object)
 {
   DexDelayed *delayed = DEX_DELAYED (object);
 
-  dex_clear (&delayed->future);
+  if (delayed->future != NULL)
+    {
+      dex_future_discard (delayed->future, DEX_FUTURE (delayed));
+      dex_clear (&delayed->future);
+    }
 
   DEX_OBJECT_CLASS (dex_delayed_parent_class)->finalize (object);
 }
@@ -125,7 +129,7 @@ dex_delayed_new (DexFuture *future)
   delayed->corked = TRUE;
   delayed->future = dex_ref (future);
 
-  dex_future_chain (DEX_FUTURE (delayed), future);
+  dex_future_chain (future, DEX_FUTURE (delayed));
 
   return DEX_FUTURE (delayed);
 }
@@ -142,14 +146,18 @@ dex_delayed_release (DexDelayed *delayed)
   if (delayed->corked)
     {
       delayed->corked = FALSE;
-      complete = g_steal_pointer (&delayed->future);
+      complete = delayed->future ? dex_ref (delayed->future) : NULL;
     }
 
   dex_object_unlock (delayed);
 
+  /* If the future is still pending, its completion will be propagated
+   * to us as we're no longer corked.
+   */
   if (complete != NULL)
     {
-      dex_future_complete_from (DEX_FUTURE (delayed), complete);
+      if (!dex_future_is_pending (complete))
+        dex_future_complete_from (DEX_FUTURE (delayed), complete);
       dex_clear (&complete);
     }
 }
@@ -174,7 +182,7 @@ dex_delayed_dup_future (DexDelayed *delayed)
   g_return_val_if_fail (DEX_IS_DELAYED (delayed), NULL);
 
   dex_object_lock (delayed);
-  ret = delayed->future ? dex_ref (delayed->future) : NULL;
+  ret = delayed->corked && delayed->future ? dex_ref (delayed->future) : NULL;
   dex_object_unlock (delayed);
 
   return ret;
-- 
2.43.0


From f585f72482e8eb159a5b33c609d87c6806960dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 05/39] fix: discard only when no other chained future is
 awaiting

---
 src/dex-future.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index e3e46a0..fd9984d 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -425,11 +425,13 @@ dex_future_discard (DexFuture *future,
               cf->awaiting = FALSE;
             }
 
-          has_awaiting |= cf->awaiting;
-
           g_queue_unlink (&future->chained, &cf->link);
           g_queue_push_tail_link (&discarded, &cf->link);
         }
+      else
+        {
+          has_awaiting |= cf->awaiting;
+        }
     }
 
   dex_object_unlock (future);
-- 
2.43.0


From 1b278c661e7d5fb276e0230c40ee115e6c877dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 06/39] fix: discard the awaited future when a block is
 released

---
 src/dex-block.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index 3203ff8..541f460 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -226,7 +226,12 @@ dex_block_finalize (DexObject *object)
       block->callback = NULL;
     }
 
-  dex_clear (&block->awaiting);
+  if (block->awaiting != NULL)
+    {
+      dex_future_discard (block->awaiting, DEX_FUTURE (block));
+      dex_clear (&block->awaiting);
+    }
+
   dex_clear (&block->scheduler);
 
   DEX_OBJECT_CLASS (dex_block_parent_class)->finalize (object);
-- 
2.43.0


From 47aff4a382f4dc14a196839bf15e50a8100a1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 07/39] fix: let blocked senders advance when a channel is
 emptied by receive_all()

Taking every item out of the queue frees the capacity of the channel, but
senders waiting in the send queue were left there: their futures stayed
pending and a following receive would wait although items were available.
---
 src/dex-channel.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 99f617e..2512a80 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -443,11 +443,13 @@ DexFuture *
 dex_channel_receive_all (DexChannel *channel)
 {
   g_autoptr(GPtrArray) ret = NULL;
+  g_autoptr(GPtrArray) to_resolve = NULL;
   GQueue stolen = G_QUEUE_INIT;
 
   g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
 
   ret = g_ptr_array_new_with_free_func (dex_unref);
+  to_resolve = g_ptr_array_new_with_free_func (dex_unref);
 
   dex_object_lock (channel);
 
@@ -465,11 +467,24 @@ dex_channel_receive_all (DexChannel *channel)
       g_ptr_array_add (ret, g_steal_pointer (&item->future));
     }
 
+  /* Advance @sendq items into the capacity we just made available */
+  while (channel->sendq.length > 0 && channel->queue.length < channel->capacity)
+    {
+      GList *link = g_queue_pop_head_link (&channel->sendq);
+      DexChannelItem *item = link->data;
+
+      g_queue_push_tail_link (&channel->queue, link);
+      g_ptr_array_add (to_resolve, dex_ref (item->send));
+    }
+
   dex_object_unlock (channel);
 
   while (stolen.length > 0)
     dex_channel_item_free (g_queue_pop_head_link (&stolen)->data);
 
+  for (guint i = 0; i < to_resolve->len; i++)
+    dex_promise_resolve_uint (g_ptr_array_index (to_resolve, i), i + 1);
+
   return dex_future_allv ((DexFuture **)ret->pdata, ret->len);
 
 reject_receive:
-- 
2.43.0


From 6e54fba010374fe7fd2391cca4f76efd1de786ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 08/39] fix: make waiting in dex_channel_receive_all() atomic
 with finding the channel empty

The channel was unlocked between noticing that there are no items and
queueing the receiver. Items sent and received in between made the operation
return only some of the buffered items, which no order of the operations
explains.
---
 src/dex-channel.c | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 2512a80..a8b62e3 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -372,28 +372,15 @@ dex_channel_send (DexChannel *channel,
   return ret;
 }
 
-/**
- * dex_channel_receive:
- * @channel: a #DexChannel
- *
- * Receives the next item from the channel.
- *
- * The resulting future will resolve or reject when an item is available
- * to the channel or when send side has closed (in that order).
- *
- * Returns: (transfer full): a #DexFuture
- */
-DexFuture *
-dex_channel_receive (DexChannel *channel)
+static DexFuture *
+dex_channel_receive_and_unlock (DexChannel *channel)
 {
   DexChannelReceiver *recv;
 
-  g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
+  g_assert (DEX_IS_CHANNEL (channel));
 
   recv = dex_channel_receiver_new ();
 
-  dex_object_lock (channel);
-
   if ((channel->flags & DEX_CHANNEL_STATE_CAN_RECEIVE) == 0)
     goto reject_receive;
 
@@ -421,6 +408,27 @@ reject_receive:
   return DEX_FUTURE (recv);
 }
 
+/**
+ * dex_channel_receive:
+ * @channel: a #DexChannel
+ *
+ * Receives the next item from the channel.
+ *
+ * The resulting future will resolve or reject when an item is available
+ * to the channel or when send side has closed (in that order).
+ *
+ * Returns: (transfer full): a #DexFuture
+ */
+DexFuture *
+dex_channel_receive (DexChannel *channel)
+{
+  g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
+
+  dex_object_lock (channel);
+
+  return dex_channel_receive_and_unlock (channel);
+}
+
 /**
  * dex_channel_receive_all:
  * @channel: a #DexChannel
@@ -492,8 +500,7 @@ reject_receive:
   return dex_future_new_for_error (g_error_copy (&channel_closed_error));
 
 wait_for_result:
-  dex_object_unlock (channel);
-  return dex_future_all (dex_channel_receive (channel), NULL);
+  return dex_future_all (dex_channel_receive_and_unlock (channel), NULL);
 }
 
 static void
-- 
2.43.0


From 360e43ee3c94582680fa0e73c97a23dc775ed463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 09/39] fix: reject outstanding waits when a semaphore is
 finalized

The waiters were only released in builds without eventfd, although the
eventfd is only used together with the io_uring backend. Otherwise they
stayed pending forever and were leaked.
---
 src/dex-semaphore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 76d80b9..2c1d60d 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -150,7 +150,8 @@ dex_semaphore_finalize (DexObject *object)
       close (semaphore->eventfd);
       semaphore->eventfd = -1;
     }
-#else
+#endif
+
   while (semaphore->waiters.length > 0)
     {
       DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&semaphore->waiters)->data;
@@ -159,7 +160,6 @@ dex_semaphore_finalize (DexObject *object)
                            g_error_copy (&semaphore_closed_error));
       dex_unref (waiter);
     }
-#endif
 
   DEX_OBJECT_CLASS (dex_semaphore_parent_class)->finalize (object);
 }
-- 
2.43.0


From 6eac2a680c070bbb0fb1a8a5d07e48431b6c26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 10/39] fix: publish the grown array of a work stealing queue
 with release semantics

A thief which reads the new array pointer (but still the old bottom index)
does not synchronize with the fence at the end of push and could find the
array's mask and items uninitialized.
---
 src/dex-work-stealing-queue-private.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-work-stealing-queue-private.h b/src/dex-work-stealing-queue-private.h
index cfdf39e..ad5e816 100644
--- a/src/dex-work-stealing-queue-private.h
+++ b/src/dex-work-stealing-queue-private.h
@@ -196,7 +196,7 @@ dex_work_stealing_queue_push (DexWorkStealingQueue *work_stealing_queue,
       DexWorkStealingArray *tmp = dex_work_stealing_array_resize (a, b, t);
       g_ptr_array_add (work_stealing_queue->garbage, a);
       a = tmp;
-      atomic_store_explicit (&work_stealing_queue->array, a, memory_order_relaxed);
+      atomic_store_explicit (&work_stealing_queue->array, a, memory_order_release);
     }
 
   dex_work_stealing_array_push (a, b, work_item);
-- 
2.43.0


From af5694bf998a390239eac6aa0a4c74e4bd866f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 11/39] fix: give the worker's work stealing queue a power of
 two capacity

Positions are mapped to slots with (capacity - 1) as a bit mask. With 255
two neighbouring positions shared a slot, so that the second of two items a
worker pushed to itself ran twice and the first one never.
---
 src/dex-thread-pool-worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2d2a3d6..d37a45e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -520,7 +520,7 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->main_context = g_main_context_new ();
   thread_pool_worker->main_loop = g_main_loop_new (thread_pool_worker->main_context, FALSE);
   thread_pool_worker->global_work_queue = dex_ref (work_queue);
-  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (255);
+  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (256);
   thread_pool_worker->set = set;
 
   /* Now spawn our thread to process events via GSource */
-- 
2.43.0


From 4771dc128f1c8ba4195f2f07fb7f90d1005d1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 12/39] fix: terminate the workers of a thread pool when it is
 released

The workers are referenced by the futures running on their own threads, so
they were never finalized and outlived the worker set and the queue they use.
---
 src/dex-thread-pool-scheduler.c      |  8 ++++--
 src/dex-thread-pool-worker-private.h |  1 +
 src/dex-thread-pool-worker.c         | 41 ++++++++++++++++++++++++----
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 7926420..a38de6f 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -127,10 +127,14 @@ dex_thread_pool_scheduler_finalize (DexObject *object)
 {
   DexThreadPoolScheduler *thread_pool_scheduler = (DexThreadPoolScheduler *)object;
 
-  dex_clear (&thread_pool_scheduler->global_work_queue);
+  /* The threads use both the set and the global work queue until they exit */
+  for (guint i = 0; i < thread_pool_scheduler->workers->len; i++)
+    dex_thread_pool_worker_shutdown (g_ptr_array_index (thread_pool_scheduler->workers, i));
 
-  g_clear_pointer (&thread_pool_scheduler->set, dex_thread_pool_worker_set_unref);
   g_clear_pointer (&thread_pool_scheduler->workers, g_ptr_array_unref);
+  g_clear_pointer (&thread_pool_scheduler->set, dex_thread_pool_worker_set_unref);
+
+  dex_clear (&thread_pool_scheduler->global_work_queue);
 
   DEX_OBJECT_CLASS (dex_thread_pool_scheduler_parent_class)->finalize (object);
 }
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index eae2f78..a2d7be2 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,7 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+void                    dex_thread_pool_worker_shutdown  (DexThreadPoolWorker    *thread_pool_worker);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_set_unref (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index d37a45e..4506dba 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -47,6 +47,7 @@ struct _DexThreadPoolWorker
   DexThreadPoolWorkerSet    *set;
 
   GThread                   *thread;
+  gboolean                   joined;
   GMainContext              *main_context;
   GMainLoop                 *main_loop;
   DexAioContext             *aio_context;
@@ -144,15 +145,28 @@ dex_thread_pool_worker_finalize_cb (gpointer data)
   return G_SOURCE_REMOVE;
 }
 
-static void
-dex_thread_pool_worker_finalize (DexObject *object)
+/**
+ * dex_thread_pool_worker_shutdown:
+ * @thread_pool_worker: a #DexThreadPoolWorker
+ *
+ * Requests that the worker finish its queued work and joins its thread.
+ *
+ * The thread of the worker owns futures that in turn own a reference to the
+ * worker, so this must be called to have the worker finalized.
+ */
+void
+dex_thread_pool_worker_shutdown (DexThreadPoolWorker *thread_pool_worker)
 {
-  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
   GSource *idle_source;
 
+  g_return_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
+
+  if (thread_pool_worker->joined)
+    return;
+
   g_assert (thread_pool_worker->thread != g_thread_self ());
 
-  /* To finalize the worker, we need to push a work item to the thread
+  /* To stop the worker, we need to push a work item to the thread
    * that will cause it to stop processing and then wait for the thread
    * to exit after processing the rest of the queue. We change the finalizing
    * bit on the worker thread so the common case (it's FALSE) doesn't require
@@ -169,6 +183,15 @@ dex_thread_pool_worker_finalize (DexObject *object)
 
   /* Now wait for the thread to process items and exit the thread */
   g_thread_join (thread_pool_worker->thread);
+  thread_pool_worker->joined = TRUE;
+}
+
+static void
+dex_thread_pool_worker_finalize (DexObject *object)
+{
+  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
+
+  dex_thread_pool_worker_shutdown (thread_pool_worker);
 
 #ifdef G_ENABLE_DEBUG
   atomic_thread_fence (memory_order_seq_cst);
@@ -182,7 +205,6 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
 
-  g_clear_pointer (&thread_pool_worker->thread, g_thread_unref);
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
@@ -260,6 +282,7 @@ dex_thread_pool_worker_thread_func (gpointer data)
   DexAioBackend *aio_backend;
   DexAioContext *aio_context;
   DexFuture *global_work_queue_loop;
+  DexWorkItem work_item;
   GSource *source;
 
   g_mutex_lock (&thread_pool_worker->setup_mutex);
@@ -327,9 +350,16 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Process main context until we are told to shutdown */
   g_main_loop_run (thread_pool_worker->main_loop);
 
+  /* Stop looking for work of our peers, that source is always ready */
+  g_source_destroy (thread_pool_worker->set_source);
+
   /* Discard our work queue loop */
   dex_clear (&global_work_queue_loop);
 
+  /* Items pushed before the shutdown are still to be run */
+  while (dex_work_queue_try_pop (thread_pool_worker->global_work_queue, &work_item))
+    dex_work_item_invoke (&work_item);
+
   /* Flush out any pending operations */
   while (g_main_context_pending (thread_pool_worker->main_context))
     g_main_context_iteration (thread_pool_worker->main_context, FALSE);
@@ -338,7 +368,6 @@ dex_thread_pool_worker_thread_func (gpointer data)
   dex_thread_pool_worker_set_remove (thread_pool_worker->set, thread_pool_worker);
 
   /* Ensure our sources will not continue on */
-  g_source_destroy (thread_pool_worker->set_source);
   g_source_destroy (thread_pool_worker->local_source);
   g_source_destroy (thread_pool_worker->fiber_scheduler);
 
-- 
2.43.0


From 2e668d591b34b1682d614cb1bf818db916df4312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 13/39] fix: keep work bound to a thread pool worker on that
 worker

Continuations attached on a worker are pushed to that worker as a scheduler.
When they were pushed from its own thread they went to the work stealing
queue and could be run by another worker.
---
 src/dex-thread-pool-scheduler.c      |  2 +-
 src/dex-thread-pool-worker-private.h |  2 +
 src/dex-thread-pool-worker.c         | 67 +++++++++++++++++-----------
 3 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index a38de6f..19d73d1 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -74,7 +74,7 @@ dex_thread_pool_scheduler_push (DexScheduler *scheduler,
   DexThreadPoolWorker *worker = DEX_THREAD_POOL_WORKER_CURRENT;
 
   if (worker != NULL)
-    DEX_SCHEDULER_GET_CLASS (worker)->push (DEX_SCHEDULER (worker), work_item);
+    dex_thread_pool_worker_push_local (worker, work_item);
   else
     dex_work_queue_push (thread_pool_scheduler->global_work_queue, work_item);
 }
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index a2d7be2..fc2d28e 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,8 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+void                    dex_thread_pool_worker_push_local (DexThreadPoolWorker    *thread_pool_worker,
+                                                           DexWorkItem             work_item);
 void                    dex_thread_pool_worker_shutdown  (DexThreadPoolWorker    *thread_pool_worker);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 4506dba..4249055 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -93,39 +93,54 @@ dex_thread_pool_worker_push (DexScheduler *scheduler,
                              DexWorkItem   work_item)
 {
   DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (scheduler);
+  GSource *source;
 
   g_assert (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
 
+  /* Pushing a work item directly onto a worker is generally going
+   * to be related to completing work items. Treat those as extremely
+   * high priority as they will delay further processing of futures.
+   *
+   * This is currently a workaround to improve the situation with
+   * issue #17 when we're on fallback configurations. If we want
+   * to improve that situation further, we can reduce some overhead
+   * here by creating a dedicated GSource like DexMainScheduler does
+   * for work items instead of a 1:1 GSource creation.
+   *
+   * But this at least improves the situation immediately that is
+   * causing potential lock-ups.
+   */
+
+  source = g_idle_source_new ();
+  g_source_set_priority (source, G_MININT);
+  g_source_set_callback (source,
+                         dex_thread_pool_worker_work_item_cb,
+                         g_memdup2 (&work_item, sizeof work_item),
+                         g_free);
+  g_source_attach (source, thread_pool_worker->main_context);
+  g_source_unref (source);
+}
+
+/**
+ * dex_thread_pool_worker_push_local:
+ * @thread_pool_worker: a #DexThreadPoolWorker
+ * @work_item: the work item to push
+ *
+ * Like pushing to the worker as a #DexScheduler except that other workers
+ * of the pool may run @work_item. Use this for work which is not bound to
+ * the thread of @thread_pool_worker.
+ */
+void
+dex_thread_pool_worker_push_local (DexThreadPoolWorker *thread_pool_worker,
+                                   DexWorkItem          work_item)
+{
+  g_return_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
+
   if G_LIKELY (g_thread_self () == thread_pool_worker->thread &&
                thread_pool_worker->status == DEX_THREAD_POOL_WORKER_RUNNING)
     dex_work_stealing_queue_push (thread_pool_worker->work_stealing_queue, work_item);
   else
-    {
-      GSource *source;
-
-      /* Pushing a work item directly onto a worker is generally going
-       * to be related to completing work items. Treat those as extremely
-       * high priority as they will delay further processing of futures.
-       *
-       * This is currently a workaround to improve the situation with
-       * issue #17 when we're on fallback configurations. If we want
-       * to improve that situation further, we can reduce some overhead
-       * here by creating a dedicated GSource like DexMainScheduler does
-       * for work items instead of a 1:1 GSource creation.
-       *
-       * But this at least improves the situation immediately that is
-       * causing potential lock-ups.
-       */
-
-      source = g_idle_source_new ();
-      g_source_set_priority (source, G_MININT);
-      g_source_set_callback (source,
-                             dex_thread_pool_worker_work_item_cb,
-                             g_memdup2 (&work_item, sizeof work_item),
-                             g_free);
-      g_source_attach (source, thread_pool_worker->main_context);
-      g_source_unref (source);
-    }
+    dex_thread_pool_worker_push (DEX_SCHEDULER (thread_pool_worker), work_item);
 }
 
 static gboolean
-- 
2.43.0


From d4d3c43e3b2e62726365a31870b9faf53002d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 14/39] fix: push to the thread pool the work was meant for

Pushing to one thread pool from the worker of another one ran the work item
on that worker, regardless of which pool it was pushed to.
---
 src/dex-thread-pool-scheduler.c      | 3 ++-
 src/dex-thread-pool-worker-private.h | 2 ++
 src/dex-thread-pool-worker.c         | 9 +++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 19d73d1..f8ecf07 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -73,7 +73,8 @@ dex_thread_pool_scheduler_push (DexScheduler *scheduler,
   DexThreadPoolScheduler *thread_pool_scheduler = DEX_THREAD_POOL_SCHEDULER (scheduler);
   DexThreadPoolWorker *worker = DEX_THREAD_POOL_WORKER_CURRENT;
 
-  if (worker != NULL)
+  if (worker != NULL &&
+      dex_thread_pool_worker_is_in_set (worker, thread_pool_scheduler->set))
     dex_thread_pool_worker_push_local (worker, work_item);
   else
     dex_work_queue_push (thread_pool_scheduler->global_work_queue, work_item);
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index fc2d28e..55ef59b 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,8 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+gboolean                dex_thread_pool_worker_is_in_set (DexThreadPoolWorker    *thread_pool_worker,
+                                                          DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_push_local (DexThreadPoolWorker    *thread_pool_worker,
                                                            DexWorkItem             work_item);
 void                    dex_thread_pool_worker_shutdown  (DexThreadPoolWorker    *thread_pool_worker);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 4249055..b696b2e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -143,6 +143,15 @@ dex_thread_pool_worker_push_local (DexThreadPoolWorker *thread_pool_worker,
     dex_thread_pool_worker_push (DEX_SCHEDULER (thread_pool_worker), work_item);
 }
 
+gboolean
+dex_thread_pool_worker_is_in_set (DexThreadPoolWorker    *thread_pool_worker,
+                                  DexThreadPoolWorkerSet *set)
+{
+  g_return_val_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker), FALSE);
+
+  return thread_pool_worker->set == set;
+}
+
 static gboolean
 dex_thread_pool_worker_finalize_cb (gpointer data)
 {
-- 
2.43.0


From a4d1f9fc89331a7949b3718a6397755c4ec41339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 15/39] fix: lock the fiber scheduler to read the number of
 runnable fibers

---
 src/dex-fiber.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 5f0ea52..5bd649f 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -333,7 +333,9 @@ dex_fiber_scheduler_dispatch (GSource     *source,
    * the queue so that we don't exhaust the main loop endlessly
    * processing completed fibers w/o yielding to other GSource.
    */
+  g_mutex_lock (&fiber_scheduler->mutex);
   max_iterations = MAX (1, fiber_scheduler->runnable.length);
+  g_mutex_unlock (&fiber_scheduler->mutex);
 
   dex_thread_storage_get ()->fiber_scheduler = fiber_scheduler;
   while (max_iterations && dex_fiber_scheduler_iteration (fiber_scheduler))
-- 
2.43.0


From 473bd3c9f24dadebbd34516c3da7aa89c2111a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:19 +0000
Subject: [PATCH 16/39] fix: keep the main context alive while waking it up for
 a fiber

As soon as the fiber is runnable it may exit and its scheduler be released,
after which the source no longer has a context to wake up.
---
 src/dex-fiber.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 5bd649f..2eda2b8 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -82,7 +82,7 @@ dex_fiber_propagate (DexFuture *future,
                      DexFuture *completed)
 {
   DexFiber *fiber = DEX_FIBER (future);
-  GSource *source = NULL;
+  GMainContext *main_context = NULL;
 
   g_assert (DEX_IS_FIBER (fiber));
   g_assert (DEX_IS_FUTURE (completed));
@@ -98,16 +98,17 @@ dex_fiber_propagate (DexFuture *future,
   g_queue_unlink (&fiber->fiber_scheduler->blocked, &fiber->link);
   g_queue_push_tail_link (&fiber->fiber_scheduler->runnable, &fiber->link);
 
+  /* Once the fiber may run it can exit and the scheduler be released */
   if (dex_thread_storage_get ()->fiber_scheduler != fiber->fiber_scheduler)
-    source = g_source_ref ((GSource *)fiber->fiber_scheduler);
+    main_context = g_main_context_ref (g_source_get_context ((GSource *)fiber->fiber_scheduler));
 
   g_mutex_unlock (&fiber->fiber_scheduler->mutex);
   dex_object_unlock (fiber);
 
-  if (source != NULL)
+  if (main_context != NULL)
     {
-      g_main_context_wakeup (g_source_get_context (source));
-      g_source_unref (source);
+      g_main_context_wakeup (main_context);
+      g_main_context_unref (main_context);
     }
 
   return TRUE;
-- 
2.43.0


From 212f5a5dac28607b8472c0ec35fa952e6f661807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 17/39] fix: do not share a word between fiber state and the
 cancelled flag

The flag is set from any thread while the scheduler updates its neighbours
holding another lock or none, so either update could be lost.
---
 src/dex-fiber-private.h | 4 +++-
 src/dex-fiber.c         | 7 +++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index 12a6304..7c9f3b2 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -54,7 +54,9 @@ struct _DexFiber
   guint runnable : 1;
   guint exited : 1;
   guint released : 1;
-  guint cancelled : 1;
+
+  /* If nobody is interested in the result anymore, set from any thread */
+  gint cancelled;
 
   /* The requested stack size */
   gsize stack_size;
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 2eda2b8..de1737d 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -72,9 +72,8 @@ dex_fiber_discard (DexFuture *future)
 
   g_assert (DEX_IS_FIBER (fiber));
 
-  dex_object_lock (fiber);
-  fiber->cancelled = TRUE;
-  dex_object_unlock (fiber);
+  /* The other flags of the fiber belong to the thread of its scheduler */
+  g_atomic_int_set (&fiber->cancelled, TRUE);
 }
 
 static gboolean
@@ -440,7 +439,7 @@ dex_fiber_await (DexFiber  *fiber,
   /* Move fiber from runnable to blocked queue */
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
-  cancelled = fiber->cancelled;
+  cancelled = g_atomic_int_get (&fiber->cancelled);
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
-- 
2.43.0


From f3a70b27801432d3f4171388bec4d12e572bf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 18/39] fix: report the cancellation to a fiber that awaits
 after being cancelled

The wait returned the result of the future that was not waited for, which is
an error about it being pending.
---
 src/dex-fiber.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index de1737d..79e2179 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -166,8 +166,9 @@ dex_fiber_start (DexFiber *fiber)
   /* Await any future returned from the fiber */
   if (future != NULL)
     {
-      dex_await_borrowed (future, NULL);
-      dex_future_complete_from (DEX_FUTURE (fiber), future);
+      GError *error = NULL;
+      const GValue *value = dex_await_borrowed (future, &error);
+      dex_future_complete (DEX_FUTURE (fiber), value, error);
       dex_unref (future);
     }
   else
@@ -427,31 +428,32 @@ dex_fiber_current (void)
   return fiber_scheduler ? fiber_scheduler->running : NULL;
 }
 
-static inline void
+static inline DexFuture *
 dex_fiber_await (DexFiber  *fiber,
                  DexFuture *future)
 {
   DexFiberScheduler *fiber_scheduler = fiber->fiber_scheduler;
-  gboolean cancelled;
 
   g_assert (DEX_IS_FIBER (fiber));
 
+  if (g_atomic_int_get (&fiber->cancelled))
+    future = cancelled_future;
+
   /* Move fiber from runnable to blocked queue */
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
-  cancelled = g_atomic_int_get (&fiber->cancelled);
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
 
   /* Now request the future notify us of completion */
-  if (cancelled)
-    dex_future_chain (cancelled_future, DEX_FUTURE (fiber));
-  else
-    dex_future_chain (future, DEX_FUTURE (fiber));
+  dex_future_chain (future, DEX_FUTURE (fiber));
 
   /* Swap to the scheduler to continue processing fibers */
   dex_fiber_context_switch (&fiber->context, &fiber_scheduler->context);
+
+  /* This is the future that completed, to take the result from */
+  return future;
 }
 
 const GValue *
@@ -474,7 +476,7 @@ dex_await_borrowed (DexFuture  *future,
       return NULL;
     }
 
-  dex_fiber_await (fiber, future);
+  future = dex_fiber_await (fiber, future);
 
   return dex_future_get_value (future, error);
 }
-- 
2.43.0


From 29142d4dca210d7b126b7343f8d3bf478994d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 19/39] fix: do not initialize the name of timeout sources
 without synchronization

---
 src/dex-timeout.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index d0a787c..b928631 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -131,14 +131,10 @@ dex_timeout_source_func (gpointer data)
 DexFuture *
 dex_timeout_new_deadline (gint64 deadline)
 {
-  static const char *name;
   DexScheduler *scheduler;
   DexTimeout *timeout;
   DexWeakRef *wr;
 
-  if G_UNLIKELY (name == NULL)
-    name = g_intern_static_string ("[dex-timeout]");
-
   timeout = (DexTimeout *)dex_object_create_instance (DEX_TYPE_TIMEOUT);
 
   wr = g_new0 (DexWeakRef, 1);
@@ -146,7 +142,7 @@ dex_timeout_new_deadline (gint64 deadline)
 
   timeout->source = g_timeout_source_new (0);
   g_source_set_ready_time (timeout->source, deadline);
-  _g_source_set_static_name (timeout->source, name);
+  _g_source_set_static_name (timeout->source, "[dex-timeout]");
   g_source_set_priority (timeout->source, G_PRIORITY_DEFAULT);
   g_source_set_callback (timeout->source,
                          dex_timeout_source_func,
-- 
2.43.0


From 62842f3eed72b8f981ec36925287a2b773f164a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 20/39] fix: lock the timeout to access its source when it is
 discarded

---
 src/dex-timeout.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index b928631..cfb2dd4 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -53,9 +53,19 @@ static void
 dex_timeout_discard (DexFuture *future)
 {
   DexTimeout *timeout = DEX_TIMEOUT (future);
+  GSource *source = NULL;
 
+  /* The source is released when it is dispatched, possibly on another thread */
+  dex_object_lock (timeout);
   if (timeout->source != NULL)
-    g_source_destroy (timeout->source);
+    source = g_source_ref (timeout->source);
+  dex_object_unlock (timeout);
+
+  if (source != NULL)
+    {
+      g_source_destroy (source);
+      g_source_unref (source);
+    }
 }
 
 static void
-- 
2.43.0


From fbdd0e184f819fc06a92253ec4b8bf264930fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:42 +0000
Subject: [PATCH 21/39] fix: do not wait for a running cancellation when
 releasing a cancellable future

The handler id was cleared from the callback, racing with the thread which
stores it, and after the callback had run the handler was left connected.
Releasing the last reference from within the cancellation deadlocked.
---
 src/dex-cancellable.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dex-cancellable.c b/src/dex-cancellable.c
index 2c0ed74..c238e4b 100644
--- a/src/dex-cancellable.c
+++ b/src/dex-cancellable.c
@@ -56,8 +56,11 @@ dex_cancellable_finalize (DexObject *object)
 {
   DexCancellable *self = (DexCancellable *)object;
 
+  /* Do not wait for a running cancellation to finish as we might have
+   * been released from it. The callback only has a weak reference.
+   */
   if (self->handler)
-    g_cancellable_disconnect (self->cancellable, self->handler);
+    g_signal_handler_disconnect (self->cancellable, self->handler);
 
   g_clear_object (&self->cancellable);
 
@@ -93,14 +96,11 @@ dex_cancellable_cancelled_cb (GCancellable *cancellable,
   g_assert (wr != NULL);
 
   if ((self = dex_weak_ref_get (wr)))
-    {
-      self->handler = 0;
-      dex_future_complete (DEX_FUTURE (self),
-                           NULL,
-                           g_error_new_literal (G_IO_ERROR,
-                                                G_IO_ERROR_CANCELLED,
-                                                "Operation cancelled"));
-    }
+    dex_future_complete (DEX_FUTURE (self),
+                         NULL,
+                         g_error_new_literal (G_IO_ERROR,
+                                              G_IO_ERROR_CANCELLED,
+                                              "Operation cancelled"));
 }
 
 static void
-- 
2.43.0


From 5a7eb77fb0c6f5f0f874cb6ce6f472f50b7adf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 22/39] fix: release the unix signal future after its signal
 was delivered

The reference from the weak reference was leaked, and the watch with it.
---
 src/dex-unix-signal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index 532110c..e54f7be 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -95,6 +95,8 @@ dex_unix_signal_source_func (gpointer data)
       g_value_init (&value, G_TYPE_INT);
       g_value_set_int (&value, unix_signal->signum);
       dex_future_complete (DEX_FUTURE (unix_signal), &value, NULL);
+
+      dex_unref (unix_signal);
     }
 
   return G_SOURCE_REMOVE;
-- 
2.43.0


From 150288ef3b035083d7003ad786d5e6980f7ec442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:34 +0000
Subject: [PATCH 23/39] fix: implement dex_unix_signal_get_signum()

It is declared in the public header but was never defined.
---
 src/dex-unix-signal.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index e54f7be..f4ad0e2 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -162,3 +162,19 @@ dex_unix_signal_new (int signum)
 
   return DEX_FUTURE (unix_signal);
 }
+
+/**
+ * dex_unix_signal_get_signum:
+ * @unix_signal: a #DexUnixSignal
+ *
+ * Gets the signal number @unix_signal completes for.
+ *
+ * Returns: a unix signal number
+ */
+int
+dex_unix_signal_get_signum (DexUnixSignal *unix_signal)
+{
+  g_return_val_if_fail (DEX_IS_UNIX_SIGNAL (unix_signal), 0);
+
+  return unix_signal->signum;
+}
-- 
2.43.0


From 130f8238659262ed633a701aeb02fe845c4dcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:39 +0000
Subject: [PATCH 24/39] fix: run continuations of threads without a scheduler
 on the default one

They were lost when a thread with a scheduler completed the future.
---
 src/dex-block.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index 541f460..2edd29b 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -200,10 +200,12 @@ dex_block_propagate (DexFuture *future,
           return ret;
         }
 
-      /* Otherwise we must defer it to the scheduler */
+      /* Otherwise we must defer it to the scheduler, or the default one
+       * if the thread which created this block has no scheduler.
+       */
       dex_ref (block);
       dex_ref (completed);
-      dex_scheduler_push (block->scheduler,
+      dex_scheduler_push (block->scheduler ? block->scheduler : dex_scheduler_get_default (),
                           dex_block_propagate_within_scheduler,
                           g_memdup2 (&state, sizeof state));
 
-- 
2.43.0


From 5d4f0b0e1212baef25b05a1ebc3849a89574c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 25/39] fix: store the awaited future before the async result
 can complete

The callback could run on the thread that owns the main context before the
future was stored, or before it was completed, and find it still pending.
---
 src/dex-async-result.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index e416c86..5eeee86 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -327,6 +327,7 @@ static gboolean
 dex_async_result_complete_in_idle_cb (gpointer user_data)
 {
   DexAsyncResult *async_result = user_data;
+  DexFuture *future;
 
   g_assert (DEX_IS_ASYNC_RESULT (async_result));
 
@@ -334,7 +335,11 @@ dex_async_result_complete_in_idle_cb (gpointer user_data)
                           G_ASYNC_RESULT (async_result),
                           g_steal_pointer (&async_result->user_data));
 
-  dex_clear (&async_result->future);
+  g_mutex_lock (&async_result->mutex);
+  future = g_steal_pointer (&async_result->future);
+  g_mutex_unlock (&async_result->mutex);
+
+  dex_clear (&future);
 
   return G_SOURCE_REMOVE;
 }
@@ -416,19 +421,23 @@ dex_async_result_await (DexAsyncResult *async_result,
   else
     cancellable = dex_cancellable_new_from_cancellable (async_result->cancellable);
 
-  /* We have to be careful about ownership here and ensure we
-   * drop our references when the callback is executed.
+  new_future = dex_future_first (future, cancellable, NULL);
+
+  /* The callback might be executed on another thread before this function
+   * returns, so the future must be available for it beforehand.
    */
-  g_object_ref (async_result);
-  new_future = dex_future_finally (dex_future_first (future, cancellable, NULL),
-                                   dex_async_result_await_cb,
-                                   g_object_ref (async_result),
-                                   g_object_unref);
   g_mutex_lock (&async_result->mutex);
   g_assert (async_result->future == NULL);
-  async_result->future = g_steal_pointer (&new_future);
+  async_result->future = dex_ref (new_future);
   g_mutex_unlock (&async_result->mutex);
-  g_object_unref (async_result);
+
+  /* We have to be careful about ownership here and ensure we
+   * drop our references when the callback is executed.
+   */
+  dex_future_disown (dex_future_finally (new_future,
+                                         dex_async_result_await_cb,
+                                         g_object_ref (async_result),
+                                         g_object_unref));
 }
 
 void
-- 
2.43.0


From 4c8dcc2d6526912dc44d07c9b5195ec417b2063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 26/39] fix: allow async pairs without an instance to complete

dex_async_pair_new() accepts a NULL instance, but the callback aborted.
---
 src/dex-async-pair.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-async-pair.c b/src/dex-async-pair.c
index d9a218a..1abb166 100644
--- a/src/dex-async-pair.c
+++ b/src/dex-async-pair.c
@@ -80,7 +80,7 @@ dex_async_pair_ready_callback (GObject      *object,
   GError *error = NULL;
   GType gtype;
 
-  g_assert (G_IS_OBJECT (object));
+  g_assert (!object || G_IS_OBJECT (object));
   g_assert (G_IS_ASYNC_RESULT (result));
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
 
-- 
2.43.0


From 76d5ad09c0766100512fde004cf3edd1705ce8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 27/39] fix: lock the async pair to check if discarding it
 cancels

dex_async_pair_set_cancel_on_discard() may be called from another thread.
---
 src/dex-async-pair.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dex-async-pair.c b/src/dex-async-pair.c
index 1abb166..dd1a527 100644
--- a/src/dex-async-pair.c
+++ b/src/dex-async-pair.c
@@ -35,8 +35,13 @@ static void
 dex_async_pair_discard (DexFuture *future)
 {
   DexAsyncPair *async_pair = DEX_ASYNC_PAIR (future);
+  gboolean cancel_on_discard;
 
-  if (async_pair->cancel_on_discard)
+  dex_object_lock (async_pair);
+  cancel_on_discard = async_pair->cancel_on_discard;
+  dex_object_unlock (async_pair);
+
+  if (cancel_on_discard)
     g_cancellable_cancel (async_pair->cancellable);
 }
 
-- 
2.43.0


From fe5a26975df5ec98db906edb06e8098d11dce382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 28/39] fix: keep the main context referenced while waking it
 after POSIX AIO

Once the completed request is queued and the mutex released, the request
may be dispatched and released by the thread of its main context, which
then may also release the main context before it is woken up.
---
 src/dex-posix-aio-backend.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index 77e91a8..bdcb7f8 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -77,11 +77,16 @@ dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
 
   g_mutex_lock (&posix_aio_context->mutex);
   g_queue_push_tail (&posix_aio_context->completed, posix_aio_future);
-  main_context = dex_posix_aio_future_get_main_context (posix_aio_future);
+  /* Once unlocked, the future may be dispatched and released */
+  if ((main_context = dex_posix_aio_future_get_main_context (posix_aio_future)))
+    g_main_context_ref (main_context);
   g_mutex_unlock (&posix_aio_context->mutex);
 
   if (main_context)
-    g_main_context_wakeup (main_context);
+    {
+      g_main_context_wakeup (main_context);
+      g_main_context_unref (main_context);
+    }
 }
 
 static inline void
-- 
2.43.0


From 2fd7f94873684fa404e57f0f14c2c2690019c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 29/39] fix: report the error of a failed io_uring request

create_error() takes the negated errno found in the completion and negates
it again, so it must not be called with the errno.
---
 src/dex-uring-future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 5e3010b..cd98d57 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -90,7 +90,7 @@ complete_ssize (DexUringFuture *uring_future,
   if (value < 0)
     dex_future_complete (DEX_FUTURE (uring_future),
                          NULL,
-                         create_error (-value));
+                         create_error (value));
   else
     dex_future_complete (DEX_FUTURE (uring_future),
                          &(GValue) { G_TYPE_INT64, {{.v_int64 = value}}},
-- 
2.43.0


From a74e503e3c81ac4b4ea6099263bb25b913c03257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 30/39] fix: do not leak io_uring requests which had to be
 queued

The queue owns a reference to the request already which is transferred to
the submission.
---
 src/dex-uring-aio-backend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index e189e7e..59fe69c 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -171,7 +171,7 @@ dex_uring_aio_context_prepare (GSource *source,
 
       future = g_queue_pop_head (&aio_context->queued);
       dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, dex_ref (future));
+      io_uring_sqe_set_data (sqe, g_steal_pointer (&future));
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
-- 
2.43.0


From 6ac04e212935162f66978b2c87665a3b0ea6b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 31/39] fix: compare the minor version of the kernel

Kernel 6.0 was taken for 6.1 or newer as its major version is equal.
---
 src/dex-uring-aio-backend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index 59fe69c..a1ab5fd 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -87,7 +87,7 @@ dex_uring_check_kernel_version (int major,
   if (kernel_major == 0)
     return FALSE;
 
-  return kernel_major >= major ||
+  return kernel_major > major ||
          (kernel_major == major && kernel_minor >= minor);
 }
 
-- 
2.43.0


From 00ccf4bb022161baee953a74b1e845a4ee4668f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 32/39] fix: release the AIO context of thread pool workers

The context (on io_uring the ring and its eventfd) was never released, so
every thread pool left one behind for each of its workers.
---
 src/dex-thread-pool-worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index b696b2e..0bba03d 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -228,6 +228,7 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->set_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
+  g_clear_pointer ((GSource **)&thread_pool_worker->aio_context, g_source_unref);
 
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
@@ -394,6 +395,7 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Ensure our sources will not continue on */
   g_source_destroy (thread_pool_worker->local_source);
   g_source_destroy (thread_pool_worker->fiber_scheduler);
+  g_source_destroy ((GSource *)thread_pool_worker->aio_context);
 
   thread_pool_worker->status = DEX_THREAD_POOL_WORKER_FINISHED;
   g_main_context_pop_thread_default (thread_pool_worker->main_context);
-- 
2.43.0


From a53ceed55e6df4e9ef89d6700f7e03e13b6ac01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 33/39] fix: wait for the thread pool worker to be set up, not
 for any wakeup

g_cond_wait() may return spuriously, in which case the worker was used
before its sources exist.
---
 src/dex-thread-pool-worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 0bba03d..edb9281 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -583,7 +583,8 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->thread = g_thread_new ("dex-thread-pool-worker",
                                              dex_thread_pool_worker_thread_func,
                                              thread_pool_worker);
-  g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
+  while (thread_pool_worker->status == DEX_THREAD_POOL_WORKER_INITIAL)
+    g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
   failed = thread_pool_worker->status == DEX_THREAD_POOL_WORKER_FINISHED;
   g_mutex_unlock (&thread_pool_worker->setup_mutex);
 
-- 
2.43.0


From ca75e6a11cf8b20da2eab726b751f6cdee858b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 34/39] fix: resolve D-Bus calls with file descriptors to their
 reply

The future set of dex_dbus_connection_call_with_unix_fd_list() is documented
to resolve to the reply, but resolved to TRUE, and rejected with
DEX_ERROR_DEPENDENCY_FAILED instead of the error of the call.
---
 src/dex-gio.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dex-gio.c b/src/dex-gio.c
index 87f6d30..884dd66 100644
--- a/src/dex-gio.c
+++ b/src/dex-gio.c
@@ -23,7 +23,7 @@
 
 #include "dex-async-pair-private.h"
 #include "dex-future-private.h"
-#include "dex-future-set.h"
+#include "dex-future-set-private.h"
 #include "dex-gio.h"
 #include "dex-promise.h"
 
@@ -1145,6 +1145,7 @@ dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
 
   if (error == NULL)
     {
+      /* The set resolves to whatever completes last, the reply */
       dex_promise_resolve_object (promise, fd_list);
       dex_async_pair_return_variant (async_pair, reply);
     }
@@ -1191,6 +1192,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
 {
   DexAsyncPair *async_pair;
   DexPromise *promise;
+  DexFuture *futures[2];
   DexFuture *ret;
 
   g_return_val_if_fail (G_IS_DBUS_CONNECTION (connection), NULL);
@@ -1203,7 +1205,13 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   promise = dex_promise_new ();
 
   /* Sent to user. Resolving will contain variant. */
-  ret = dex_future_all (DEX_FUTURE (async_pair), DEX_FUTURE (promise), NULL);
+  futures[0] = DEX_FUTURE (async_pair);
+  futures[1] = DEX_FUTURE (promise);
+  ret = DEX_FUTURE (dex_future_set_new (futures, G_N_ELEMENTS (futures),
+                                        (DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE |
+                                         DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT)));
+  dex_unref (async_pair);
+  dex_unref (promise);
 
   g_dbus_connection_call_with_unix_fd_list (connection,
                                             bus_name,
-- 
2.43.0


From 1cd17c513973a471be910f978c91df34cdc26137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 35/39] fix: cancel D-Bus calls with file descriptors when
 discarded

The callback of the call owned the future set returned to the caller, so
releasing the set did not discard the call in flight.
---
 src/dex-gio.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/dex-gio.c b/src/dex-gio.c
index 884dd66..28c5324 100644
--- a/src/dex-gio.c
+++ b/src/dex-gio.c
@@ -1117,24 +1117,25 @@ dex_dbus_connection_call (GDBusConnection    *connection,
 }
 
 #ifdef G_OS_UNIX
+typedef struct
+{
+  DexAsyncPair *async_pair;
+  DexPromise   *promise;
+} CallWithUnixFDList;
+
 static void
 dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
                                                GAsyncResult *result,
                                                gpointer      user_data)
 {
-  DexFutureSet *future_set = user_data;
-  DexAsyncPair *async_pair;
-  DexPromise *promise;
+  CallWithUnixFDList *state = user_data;
+  DexAsyncPair *async_pair = state->async_pair;
+  DexPromise *promise = state->promise;
   GUnixFDList *fd_list = NULL;
   GVariant *reply = NULL;
   GError *error = NULL;
 
   g_assert (G_IS_DBUS_CONNECTION (object));
-  g_assert (DEX_IS_FUTURE_SET (future_set));
-
-  async_pair = DEX_ASYNC_PAIR (dex_future_set_get_future_at (future_set, 0));
-  promise = DEX_PROMISE (dex_future_set_get_future_at (future_set, 1));
-
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
   g_assert (DEX_IS_PROMISE (promise));
 
@@ -1155,7 +1156,9 @@ dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
       dex_async_pair_return_error (async_pair, error);
     }
 
-  dex_unref (future_set);
+  dex_unref (async_pair);
+  dex_unref (promise);
+  g_free (state);
 }
 
 /**
@@ -1194,6 +1197,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   DexPromise *promise;
   DexFuture *futures[2];
   DexFuture *ret;
+  CallWithUnixFDList *state;
 
   g_return_val_if_fail (G_IS_DBUS_CONNECTION (connection), NULL);
   g_return_val_if_fail (!fd_list || G_IS_UNIX_FD_LIST (fd_list), NULL);
@@ -1210,8 +1214,13 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   ret = DEX_FUTURE (dex_future_set_new (futures, G_N_ELEMENTS (futures),
                                         (DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE |
                                          DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT)));
-  dex_unref (async_pair);
-  dex_unref (promise);
+
+  /* Do not own the set while the call is in flight, so that releasing it
+   * discards the call.
+   */
+  state = g_new0 (CallWithUnixFDList, 1);
+  state->async_pair = async_pair;
+  state->promise = promise;
 
   g_dbus_connection_call_with_unix_fd_list (connection,
                                             bus_name,
@@ -1225,7 +1234,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             fd_list,
                                             async_pair->cancellable,
                                             dex_dbus_connection_call_with_unix_fd_list_cb,
-                                            dex_ref (ret));
+                                            state);
 
   return ret;
 }
-- 
2.43.0


From e70d3b5c45625418d6cecdc0cdaac02be09e3db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 36/39] fix: hand out a file-descriptor only once when awaited
 from multiple threads

dex_await_fd() steals the descriptor from the result of the future, which
may be shared with other threads awaiting it or copying it into another
future. Without synchronization two of them could receive the same
descriptor, or duplicate one which its new owner closed already.
---
 src/dex-fd.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/dex-fd.c b/src/dex-fd.c
index bf32bce..edbd7cc 100644
--- a/src/dex-fd.c
+++ b/src/dex-fd.c
@@ -24,22 +24,40 @@
 
 #include "dex-fd-private.h"
 
+/* The same DexFD may be stolen from and copied by multiple threads when it
+ * is the result of a future. Protect against stealing the file-descriptor
+ * twice or closing it (by the new owner) while it is being duplicated.
+ */
+G_LOCK_DEFINE_STATIC (dex_fd);
+
 int
 dex_fd_peek (const DexFD *fd)
 {
+  int ret;
+
   if (fd == NULL)
     return -1;
 
-  return *(int *)fd;
+  G_LOCK (dex_fd);
+  ret = *(int *)fd;
+  G_UNLOCK (dex_fd);
+
+  return ret;
 }
 
 int
 dex_fd_steal (DexFD *fd)
 {
+  int ret;
+
   if (fd == NULL)
     return -1;
 
-  return g_steal_fd ((int *)fd);
+  G_LOCK (dex_fd);
+  ret = g_steal_fd ((int *)fd);
+  G_UNLOCK (dex_fd);
+
+  return ret;
 }
 
 void
@@ -54,14 +72,21 @@ dex_fd_free (DexFD *fd)
 DexFD *
 dex_fd_dup (const DexFD *fd)
 {
-  int real = dex_fd_peek (fd);
+  int copy = -1;
+  int real;
 
-  if (real == -1)
+  if (fd == NULL)
     return NULL;
 
-  real = dup (real);
+  G_LOCK (dex_fd);
+  if ((real = *(int *)fd) != -1)
+    copy = dup (real);
+  G_UNLOCK (dex_fd);
+
+  if (real == -1)
+    return NULL;
 
-  return g_memdup2 (&real, sizeof real);
+  return g_memdup2 (&copy, sizeof copy);
 }
 
 G_DEFINE_BOXED_TYPE (DexFD, dex_fd, dex_fd_dup, dex_fd_free)
-- 
2.43.0


From 3bf76c279e6e52ec601d0ad95c4b03f6e0a1a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 37/39] fix: lock the block when reading its kind

---
 src/dex-block.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index 2edd29b..fb8c284 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -311,9 +311,16 @@ dex_block_new (DexFuture         *future,
 DexBlockKind
 dex_block_get_kind (DexBlock *block)
 {
+  DexBlockKind kind;
+
   g_return_val_if_fail (DEX_IS_BLOCK (block), 0);
 
-  return block->kind;
+  /* Shares its storage unit with the handled bit */
+  dex_object_lock (block);
+  kind = block->kind;
+  dex_object_unlock (block);
+
+  return kind;
 }
 
 /**
-- 
2.43.0


From 303997894fae38b6a9783031dee30f49c9238355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 38/39] fix: release the work stealing queue with its source

---
 src/dex-work-stealing-queue.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dex-work-stealing-queue.c b/src/dex-work-stealing-queue.c
index ef58cca..0c13c0c 100644
--- a/src/dex-work-stealing-queue.c
+++ b/src/dex-work-stealing-queue.c
@@ -119,10 +119,19 @@ dex_work_stealing_queue_source_dispatch (GSource     *source,
   return G_SOURCE_CONTINUE;
 }
 
+static void
+dex_work_stealing_queue_source_finalize (GSource *source)
+{
+  DexWorkStealingQueueSource *real_source = (DexWorkStealingQueueSource *)source;
+
+  g_clear_pointer (&real_source->work_stealing_queue, dex_work_stealing_queue_unref);
+}
+
 static GSourceFuncs dex_work_stealing_queue_source_funcs = {
   .prepare = dex_work_stealing_queue_source_prepare,
   .check = dex_work_stealing_queue_source_check,
   .dispatch = dex_work_stealing_queue_source_dispatch,
+  .finalize = dex_work_stealing_queue_source_finalize,
 };
 
 GSource *
-- 
2.43.0


From 0eabee0cafef5e69f67abb0513f32fe8c890a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 39/39] fix: do not truncate the length of large io_uring
 requests

---
 src/dex-uring-future.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index cd98d57..9ece464 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -134,6 +134,16 @@ dex_uring_future_cqe (DexUringFuture      *uring_future,
     }
 }
 
+/* The submission entry has 32 bits for the length and the completion entry
+ * has a signed 32-bit result. Longer requests become short ones, just like
+ * read() and write() do, instead of having their length truncated.
+ */
+static inline unsigned
+sqe_length (gsize count)
+{
+  return MIN (count, G_MAXINT32);
+}
+
 void
 dex_uring_future_sqe (DexUringFuture      *uring_future,
                       struct io_uring_sqe *sqe)
@@ -144,7 +154,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_read (sqe,
                           uring_future->read.fd,
                           uring_future->read.buffer,
-                          uring_future->read.count,
+                          sqe_length (uring_future->read.count),
                           uring_future->read.offset);
       break;
 
@@ -152,7 +162,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_write (sqe,
                            uring_future->write.fd,
                            uring_future->write.buffer,
-                           uring_future->write.count,
+                           sqe_length (uring_future->write.count),
                            uring_future->write.offset);
       break;
 
-- 
2.43.0

