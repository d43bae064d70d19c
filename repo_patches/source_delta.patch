From c0fac78da41ccfead394b970d9e05f1072d4b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 01/33] fix: object: make dex_unref() and weak refs safe
 against each other

A thread that dropped the last reference could still be about to lock the
object when a weak ref extended its life and the new owner finalized it.
Additionally dex_weak_ref_set() locked the weak ref before the object while
dex_unref() locks the object before its weak refs.
---
 src/dex-object-private.h |   1 +
 src/dex-object.c         | 188 ++++++++++++++++++++++-----------------
 2 files changed, 107 insertions(+), 82 deletions(-)

diff --git a/src/dex-object-private.h b/src/dex-object-private.h
index 81a2f36..f0ff36d 100644
--- a/src/dex-object-private.h
+++ b/src/dex-object-private.h
@@ -96,6 +96,7 @@ typedef struct _DexObject
   DexWeakRef      *weak_refs;
   guint            weak_refs_watermark;
   _Atomic int      ref_count;
+  _Atomic guint    n_unrefs; /* dex_unref() in progress << 1 | is-dead */
 #ifdef HAVE_SYSPROF
   gint64           ctime;
 #endif
diff --git a/src/dex-object.c b/src/dex-object.c
index db45b1c..a7e3aaf 100644
--- a/src/dex-object.c
+++ b/src/dex-object.c
@@ -91,78 +91,81 @@ dex_unref (gpointer object)
   DexObject *obj = object;
   DexObjectClass *object_class;
   DexWeakRef *weak_refs;
-  guint watermark;
+  int ref_count;
 
   g_return_if_fail (object != NULL);
   g_return_if_fail (DEX_IS_OBJECT (object));
 
-  /* Fetch a watermark before we decrement so that we can be
-   * sure that if we reached zero, that anything that extended
-   * the life of the mem_block will be responsible to free
-   * the object in the end.
-   */
-  watermark = g_atomic_int_get (&obj->weak_refs_watermark);
-
   /* If we decrement and it's not zero, then there is nothing
-   * for this thread to do. Fast path.
+   * for this thread to do. Fast path. We may not access @object
+   * after such a decrement because another thread might finalize it.
    */
-  if G_LIKELY (atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_release) != 1)
-    return;
-
-  atomic_thread_fence (memory_order_acquire);
+  ref_count = atomic_load_explicit (&obj->ref_count, memory_order_relaxed);
+  while (ref_count > 1)
+    {
+      if (atomic_compare_exchange_weak_explicit (&obj->ref_count,
+                                                 &ref_count,
+                                                 ref_count - 1,
+                                                 memory_order_release,
+                                                 memory_order_relaxed))
+        return;
+    }
 
   object_class = DEX_OBJECT_GET_CLASS (object);
 
-  /* We reached zero. We need to go through our weak references and
-   * acquire each of their mutexes so that we can be sure none of them
-   * have raced against us to increment the value beyond 0. If they did,
-   * then we can bail early and ignore any request to finalize.
-   *
-   * If the watermark is beyond ours, then we know that the weak-ref
-   * extended liveness beyond this call and we are not responsible
-   * for finalizing this object.
+  /* We are likely going to reach zero. A weak ref may extend liveness past
+   * that and the new owner may reach zero again before we've had a chance to
+   * look at @object. Announce ourselves (while we still own a reference) so
+   * that @object is not finalized until every dex_unref() left it alone.
    */
-  dex_object_lock (object);
-  for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
-    g_mutex_lock (&wr->mutex);
+  atomic_fetch_add_explicit (&obj->n_unrefs, 2, memory_order_relaxed);
 
-  /* If we increased our reference count on another thread by extending the
-   * lifetime of the mem_block using a weak_ref-to-full_ref, then we don't need
-   * to do anything here. Just bail and move along allowing a future unref to
-   * finalize when it once again approaches zero.
-   */
-  if (g_atomic_int_get (&obj->ref_count) > 0 ||
-      g_atomic_int_get (&obj->weak_refs_watermark) != watermark)
+  if (atomic_fetch_sub_explicit (&obj->ref_count, 1, memory_order_acq_rel) == 1)
     {
+      /* We reached zero. We need to go through our weak references and
+       * acquire each of their mutexes so that we can be sure none of them
+       * have raced against us to increment the value beyond 0. If they did,
+       * then we can bail early and allow a future unref to finalize when it
+       * once again approaches zero.
+       */
+      dex_object_lock (object);
       for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
-        g_mutex_unlock (&wr->mutex);
-      dex_object_unlock (object);
-      return;
-    }
+        g_mutex_lock (&wr->mutex);
 
-  weak_refs = g_steal_pointer (&obj->weak_refs);
+      if (atomic_load_explicit (&obj->ref_count, memory_order_acquire) > 0)
+        {
+          for (DexWeakRef *wr = obj->weak_refs; wr; wr = wr->next)
+            g_mutex_unlock (&wr->mutex);
+        }
+      else
+        {
+          weak_refs = g_steal_pointer (&obj->weak_refs);
 
-  /* So we have locks on everything we can, we still are at zero, so that
-   * means we need to zero out all our weak refs and then finalize the
-   * object using the provided @clear_func.
-   */
-  while (weak_refs != NULL)
-    {
-      DexWeakRef *wr = weak_refs;
+          /* So we have locks on everything we can, we still are at zero, so
+           * that means we need to zero out all our weak refs after which
+           * nothing can extend the liveness of the object.
+           */
+          while (weak_refs != NULL)
+            {
+              DexWeakRef *wr = weak_refs;
 
-      weak_refs = weak_refs->next;
+              weak_refs = weak_refs->next;
 
-      wr->prev = NULL;
-      wr->next = NULL;
-      wr->mem_block = NULL;
+              wr->prev = NULL;
+              wr->next = NULL;
+              wr->mem_block = NULL;
 
-      g_mutex_unlock (&wr->mutex);
-    }
+              g_mutex_unlock (&wr->mutex);
+            }
 
-  dex_object_unlock (object);
+          atomic_fetch_or_explicit (&obj->n_unrefs, 1, memory_order_relaxed);
+        }
+
+      dex_object_unlock (object);
+    }
 
-  /* If we did not create an immortal ref, then we are safe to finalize */
-  if (g_atomic_int_get (&obj->ref_count) == 0)
+  /* The last one to leave a dead object finalizes it */
+  if (atomic_fetch_sub_explicit (&obj->n_unrefs, 2, memory_order_acq_rel) == (2 | 1))
     object_class->finalize (object);
 }
 
@@ -188,28 +191,40 @@ dex_object_init (DexObject      *self,
   self->weak_refs_watermark = 1;
 }
 
-static void
+/* The object lock is always acquired before the mutex of any weak ref,
+ * which is also what dex_unref() does.
+ */
+static gboolean
 dex_object_add_weak (gpointer    mem_block,
                       DexWeakRef *weak_ref)
 {
   DexObject *object = mem_block;
+  gboolean added = FALSE;
 
   g_assert (object != NULL);
   g_assert (weak_ref != NULL);
-  g_assert (weak_ref->prev == NULL);
-  g_assert (weak_ref->next == NULL);
-  g_assert (weak_ref->mem_block == mem_block);
 
   /* Must own a full ref to acquire a weak ref */
-  g_return_if_fail (object->ref_count > 0);
+  g_return_val_if_fail (object->ref_count > 0, TRUE);
 
   dex_object_lock (object);
-  weak_ref->prev = NULL;
-  weak_ref->next = object->weak_refs;
-  if (object->weak_refs != NULL)
-    object->weak_refs->prev = weak_ref;
-  object->weak_refs = weak_ref;
+  g_mutex_lock (&weak_ref->mutex);
+  if (weak_ref->mem_block == NULL)
+    {
+      g_assert (weak_ref->prev == NULL);
+      g_assert (weak_ref->next == NULL);
+
+      weak_ref->mem_block = mem_block;
+      weak_ref->next = object->weak_refs;
+      if (object->weak_refs != NULL)
+        object->weak_refs->prev = weak_ref;
+      object->weak_refs = weak_ref;
+      added = TRUE;
+    }
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
+
+  return added;
 }
 
 static void
@@ -225,23 +240,28 @@ dex_object_remove_weak (gpointer    mem_block,
   g_return_if_fail (object->ref_count > 0);
 
   dex_object_lock (object);
+  g_mutex_lock (&weak_ref->mutex);
 
-  if (weak_ref->prev != NULL)
-    weak_ref->prev->next = weak_ref->next;
+  if (weak_ref->mem_block == mem_block)
+    {
+      if (weak_ref->prev != NULL)
+        weak_ref->prev->next = weak_ref->next;
 
-  if (weak_ref->next != NULL)
-    weak_ref->next->prev = weak_ref->prev;
+      if (weak_ref->next != NULL)
+        weak_ref->next->prev = weak_ref->prev;
 
-  if (object->weak_refs == weak_ref)
-    object->weak_refs = weak_ref->next;
+      if (object->weak_refs == weak_ref)
+        object->weak_refs = weak_ref->next;
 
-  g_assert (object->weak_refs == NULL ||
-            object->weak_refs->prev == NULL);
+      g_assert (object->weak_refs == NULL ||
+                object->weak_refs->prev == NULL);
 
-  weak_ref->next = NULL;
-  weak_ref->prev = NULL;
-  weak_ref->mem_block = NULL;
+      weak_ref->next = NULL;
+      weak_ref->prev = NULL;
+      weak_ref->mem_block = NULL;
+    }
 
+  g_mutex_unlock (&weak_ref->mutex);
   dex_object_unlock (object);
 }
 
@@ -408,20 +428,24 @@ dex_weak_ref_set (DexWeakRef *weak_ref,
   g_return_if_fail (!mem_block || DEX_IS_OBJECT (mem_block));
   g_return_if_fail (!mem_block || DEX_OBJECT (mem_block)->ref_count > 0);
 
-  g_mutex_lock (&weak_ref->mutex);
+  /* The object lock must be acquired before that of the weak ref, so
+   * take a full reference first. Try again should another thread change
+   * the weak ref in the mean time.
+   */
+  for (;;)
+    {
+      old_mem_block = dex_weak_ref_get (weak_ref);
 
-  old_mem_block = dex_weak_ref_get_locked (weak_ref);
+      if (old_mem_block == mem_block)
+        break;
 
-  if (old_mem_block != mem_block)
-    {
       if (old_mem_block != NULL)
         dex_object_remove_weak (old_mem_block, weak_ref);
-      weak_ref->mem_block = mem_block;
-      if (mem_block != NULL)
-        dex_object_add_weak (mem_block, weak_ref);
-    }
+      else if (dex_object_add_weak (mem_block, weak_ref))
+        break;
 
-  g_mutex_unlock (&weak_ref->mutex);
+      dex_clear (&old_mem_block);
+    }
 
   dex_clear (&old_mem_block);
 }
-- 
2.43.0


From fb81c31d7432207fa06848f16667c33e11748c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 02/33] fix: future: keep other consumers in mind when
 discarding

dex_future_discard() only looked at the consumer being discarded, so an
operation was cancelled while others still awaited it.
---
 src/dex-future.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dex-future.c b/src/dex-future.c
index e3e46a0..fd9984d 100644
--- a/src/dex-future.c
+++ b/src/dex-future.c
@@ -425,11 +425,13 @@ dex_future_discard (DexFuture *future,
               cf->awaiting = FALSE;
             }
 
-          has_awaiting |= cf->awaiting;
-
           g_queue_unlink (&future->chained, &cf->link);
           g_queue_push_tail_link (&discarded, &cf->link);
         }
+      else
+        {
+          has_awaiting |= cf->awaiting;
+        }
     }
 
   dex_object_unlock (future);
-- 
2.43.0


From 5c7a4aeb4704fbc1cac634450e0bb4e1da2a4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 03/33] fix: block: discard the awaited future when a block is
 finalized

Dropping a pending dex_future_then() chain left a stale entry behind, which
aborted when the awaited future was finalized while pending and prevented
the awaited operation from ever being cancelled.
---
 src/dex-block.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dex-block.c b/src/dex-block.c
index 3203ff8..0f40b7a 100644
--- a/src/dex-block.c
+++ b/src/dex-block.c
@@ -226,7 +226,13 @@ dex_block_finalize (DexObject *object)
       block->callback = NULL;
     }
 
-  dex_clear (&block->awaiting);
+  /* We no longer need the result of the future so let it know */
+  if (block->awaiting != NULL)
+    {
+      dex_future_discard (block->awaiting, DEX_FUTURE (block));
+      dex_clear (&block->awaiting);
+    }
+
   dex_clear (&block->scheduler);
 
   DEX_OBJECT_CLASS (dex_block_parent_class)->finalize (object);
-- 
2.43.0


From 4cfded8cbe0d1c8bdf89c26c3952508b9bf08822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 04/33] fix: future-set: let exactly one future decide the
 outcome

Completions from multiple threads could race such that any() rejected even
though a future resolved or all_race() resolved though one was rejected.
Futures chained after the set had been decided were never discarded.
---
 src/dex-future-set.c | 60 ++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/dex-future-set.c b/src/dex-future-set.c
index 8dd1d4a..f29a495 100644
--- a/src/dex-future-set.c
+++ b/src/dex-future-set.c
@@ -46,7 +46,8 @@ typedef struct _DexFutureSet
   guint               n_resolved;
   guint               n_rejected;
   DexFutureSetFlags   flags : 4;
-  guint               padding : 28;
+  guint               decided : 1;
+  guint               padding : 27;
   /* If n_futures <= 2, we use this instead of mallocing. We could
    * potentially get a 3rd without breaking 2-cachelines (128 bytes)
    * if we used a bit above to manage a union of futures/embedded.
@@ -66,6 +67,13 @@ DEX_DEFINE_FINAL_TYPE (DexFutureSet, dex_future_set, DEX_TYPE_FUTURE)
 
 static GValue success_value = G_VALUE_INIT;
 
+static void
+dex_future_set_discard_all (DexFutureSet *future_set)
+{
+  for (guint i = 0; i < future_set->n_futures; i++)
+    dex_future_discard (future_set->futures[i], DEX_FUTURE (future_set));
+}
+
 static gboolean
 dex_future_set_propagate (DexFuture *future,
                           DexFuture *completed)
@@ -73,7 +81,7 @@ dex_future_set_propagate (DexFuture *future,
   DexFutureSet *future_set = DEX_FUTURE_SET (future);
   const GValue *resolved = NULL;
   DexFutureStatus status;
-  gboolean do_discard = FALSE;
+  gboolean decides = FALSE;
   GError *rejected = NULL;
   guint n_active = 0;
 
@@ -112,12 +120,24 @@ dex_future_set_propagate (DexFuture *future,
   g_assert (future_set->n_resolved + future_set->n_rejected <= future_set->n_futures);
   g_assert (rejected != NULL || resolved != NULL);
 
+  /* Only one of the futures may decide our outcome, even if others
+   * complete before we've had a chance to leave the pending state.
+   */
+  if (!future_set->decided)
+    {
+      if (n_active == 0)
+        decides = TRUE;
+      else if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST)
+        decides = (resolved && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0) ||
+                  (rejected && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0);
+
+      future_set->decided = decides;
+    }
+
   dex_object_unlock (future_set);
 
-  if (n_active == 0)
+  if (decides)
     {
-      do_discard = TRUE;
-
       if (resolved != NULL)
         {
           if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE)
@@ -137,28 +157,10 @@ dex_future_set_propagate (DexFuture *future,
                                                       "Too many futures failed"));
         }
     }
-  else if (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_FIRST)
-    {
-      do_discard = TRUE;
-
-      if (resolved && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_RESOLVE) != 0)
-        dex_future_complete (future, resolved, NULL);
-      else if (rejected && (future_set->flags & DEX_FUTURE_SET_FLAGS_PROPAGATE_REJECT) != 0)
-        dex_future_complete (future, NULL, g_steal_pointer (&rejected));
-      else
-        do_discard = FALSE;
-    }
-
   g_clear_error (&rejected);
 
-  if (do_discard)
-    {
-      if (dex_future_get_status (future) != DEX_FUTURE_STATUS_PENDING)
-        {
-          for (guint i = 0; i < future_set->n_futures; i++)
-            dex_future_discard (future_set->futures[i], future);
-        }
-    }
+  if (decides)
+    dex_future_set_discard_all (future_set);
 
   return TRUE;
 }
@@ -256,6 +258,10 @@ dex_future_set_new (DexFuture * const *futures,
   for (guint i = 0; i < n_futures; i++)
     dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
 
+  /* If we completed meanwhile, futures chained afterwards are not needed */
+  if (dex_future_get_status (DEX_FUTURE (future_set)) != DEX_FUTURE_STATUS_PENDING)
+    dex_future_set_discard_all (future_set);
+
   return future_set;
 }
 
@@ -303,6 +309,10 @@ dex_future_set_new_va (DexFuture         *first_future,
   for (guint i = 0; i < future_set->n_futures; i++)
     dex_future_chain (future_set->futures[i], DEX_FUTURE (future_set));
 
+  /* If we completed meanwhile, futures chained afterwards are not needed */
+  if (dex_future_get_status (DEX_FUTURE (future_set)) != DEX_FUTURE_STATUS_PENDING)
+    dex_future_set_discard_all (future_set);
+
   return future_set;
 }
 
-- 
2.43.0


From 3092ac1e4c8f014a6c3163c148e43923eebcb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 05/33] fix: channel: keep received items alive until they
 complete

A receiver paired with a pending future did not own it, so the future was
finalized with the receiver still chained to it if only the channel had
a reference.
---
 src/dex-channel.c | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 99f617e..19eef71 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -42,6 +42,11 @@ typedef struct _DexChannelReceiver
 {
   DexFuture parent_instance;
   GList link;
+
+  /* The item we were paired with until it completes. This keeps the
+   * future alive while the channel no longer knows about it.
+   */
+  DexFuture *awaiting;
 } DexChannelReceiver;
 
 typedef struct _DexChannelReceiverClass
@@ -73,9 +78,46 @@ steal_queue (GQueue *queue)
   };
 }
 
+static gboolean
+dex_channel_receiver_propagate (DexFuture *future,
+                                DexFuture *completed)
+{
+  DexChannelReceiver *channel_receiver = (DexChannelReceiver *)future;
+  DexFuture *awaiting;
+
+  dex_object_lock (channel_receiver);
+  awaiting = g_steal_pointer (&channel_receiver->awaiting);
+  dex_object_unlock (channel_receiver);
+
+  dex_clear (&awaiting);
+
+  return FALSE;
+}
+
+static void
+dex_channel_receiver_finalize (DexObject *object)
+{
+  DexChannelReceiver *channel_receiver = (DexChannelReceiver *)object;
+
+  if (channel_receiver->awaiting != NULL)
+    {
+      dex_future_discard (channel_receiver->awaiting, DEX_FUTURE (channel_receiver));
+      dex_clear (&channel_receiver->awaiting);
+    }
+
+  DEX_OBJECT_CLASS (dex_channel_receiver_parent_class)->finalize (object);
+}
+
 static void
 dex_channel_receiver_class_init (DexChannelReceiverClass *channel_receiver_class)
 {
+  DexObjectClass *object_class = DEX_OBJECT_CLASS (channel_receiver_class);
+  DexFutureClass *future_class = DEX_FUTURE_CLASS (channel_receiver_class);
+
+  object_class->finalize = dex_channel_receiver_finalize;
+
+  future_class->propagate = dex_channel_receiver_propagate;
+
   success_value = (GValue) {G_TYPE_BOOLEAN, {{.v_int = TRUE}}};
 }
 
@@ -298,6 +340,7 @@ dex_channel_one_receive_and_unlock (DexChannel *channel)
 
   if (item != NULL)
     {
+      recv->awaiting = dex_ref (item->future);
       dex_future_chain (item->future, DEX_FUTURE (recv));
       dex_channel_item_free (item);
       dex_unref (recv);
-- 
2.43.0


From a584f01bb77e643b186effd8351494fa50c2a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 06/33] fix: channel: let senders advance after
 dex_channel_receive_all()

Nothing moved waiting senders into the emptied queue, which blocked them and
every later sender and receiver.
---
 src/dex-channel.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dex-channel.c b/src/dex-channel.c
index 19eef71..895bd0d 100644
--- a/src/dex-channel.c
+++ b/src/dex-channel.c
@@ -486,11 +486,13 @@ DexFuture *
 dex_channel_receive_all (DexChannel *channel)
 {
   g_autoptr(GPtrArray) ret = NULL;
+  g_autoptr(GPtrArray) to_resolve = NULL;
   GQueue stolen = G_QUEUE_INIT;
 
   g_return_val_if_fail (DEX_IS_CHANNEL (channel), NULL);
 
   ret = g_ptr_array_new_with_free_func (dex_unref);
+  to_resolve = g_ptr_array_new_with_free_func (dex_unref);
 
   dex_object_lock (channel);
 
@@ -508,8 +510,20 @@ dex_channel_receive_all (DexChannel *channel)
       g_ptr_array_add (ret, g_steal_pointer (&item->future));
     }
 
+  /* We made room in @queue, so advance @sendq items into it */
+  while (channel->sendq.length > 0 && channel->queue.length < channel->capacity)
+    {
+      DexChannelItem *sendq_item = g_queue_peek_head (&channel->sendq);
+      g_queue_unlink (&channel->sendq, &sendq_item->link);
+      g_queue_push_tail_link (&channel->queue, &sendq_item->link);
+      g_ptr_array_add (to_resolve, dex_ref (sendq_item->send));
+    }
+
   dex_object_unlock (channel);
 
+  for (guint i = 0; i < to_resolve->len; i++)
+    dex_promise_resolve_uint (g_ptr_array_index (to_resolve, i), i + 1);
+
   while (stolen.length > 0)
     dex_channel_item_free (g_queue_pop_head_link (&stolen)->data);
 
-- 
2.43.0


From 5b8b759a00a0eaba898527ebef80e282cea6e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 07/33] fix: delayed: chain the delayed future to the future
 behind it

The arguments were reversed, so releasing completed the future behind with
the outcome of the delayed one, a release before that future completed was
lost and dropping an unreleased delayed future aborted.
---
 src/dex-delayed.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/dex-delayed.c b/src/dex-delayed.c
index e71806b..52ce8d3 100644
--- a/src/dex-delayed.c
+++ b/src/dex-delayed.c
@@ -53,6 +53,7 @@ dex_delayed_propagate (DexFuture *future,
                        DexFuture *completed)
 {
   DexDelayed *delayed = DEX_DELAYED (future);
+  DexFuture *release = NULL;
   gboolean ret = FALSE;
 
   g_assert (DEX_IS_DELAYED (delayed));
@@ -62,9 +63,11 @@ dex_delayed_propagate (DexFuture *future,
   if (delayed->corked)
     ret = TRUE;
   else
-    dex_clear (&delayed->future);
+    release = g_steal_pointer (&delayed->future);
   dex_object_unlock (delayed);
 
+  dex_clear (&release);
+
   return ret;
 }
 
@@ -77,12 +80,16 @@ dex_delayed_discard (DexFuture *future)
   g_assert (DEX_IS_DELAYED (delayed));
 
   dex_object_lock (delayed);
-  awaiting = g_steal_pointer (&delayed->future);
+  awaiting = delayed->future ? dex_ref (delayed->future) : NULL;
   dex_object_unlock (delayed);
 
   if (awaiting != NULL)
     {
       dex_future_discard (awaiting, future);
+
+      /* Whoever still holds a reference to us may look at the outcome */
+      dex_future_chain (awaiting, future);
+
       dex_clear (&awaiting);
     }
 }
@@ -92,7 +99,11 @@ dex_delayed_finalize (DexObject *object)
 {
   DexDelayed *delayed = DEX_DELAYED (object);
 
-  dex_clear (&delayed->future);
+  if (delayed->future != NULL)
+    {
+      dex_future_discard (delayed->future, DEX_FUTURE (delayed));
+      dex_clear (&delayed->future);
+    }
 
   DEX_OBJECT_CLASS (dex_delayed_parent_class)->finalize (object);
 }
@@ -125,7 +136,7 @@ dex_delayed_new (DexFuture *future)
   delayed->corked = TRUE;
   delayed->future = dex_ref (future);
 
-  dex_future_chain (DEX_FUTURE (delayed), future);
+  dex_future_chain (future, DEX_FUTURE (delayed));
 
   return DEX_FUTURE (delayed);
 }
@@ -133,7 +144,7 @@ dex_delayed_new (DexFuture *future)
 void
 dex_delayed_release (DexDelayed *delayed)
 {
-  DexFuture *complete = NULL;
+  DexFuture *future = NULL;
 
   g_return_if_fail (DEX_IS_DELAYED (delayed));
 
@@ -142,15 +153,16 @@ dex_delayed_release (DexDelayed *delayed)
   if (delayed->corked)
     {
       delayed->corked = FALSE;
-      complete = g_steal_pointer (&delayed->future);
+      future = delayed->future ? dex_ref (delayed->future) : NULL;
     }
 
   dex_object_unlock (delayed);
 
-  if (complete != NULL)
+  /* Chain again as we may have missed the completion while corked */
+  if (future != NULL)
     {
-      dex_future_complete_from (DEX_FUTURE (delayed), complete);
-      dex_clear (&complete);
+      dex_future_chain (future, DEX_FUTURE (delayed));
+      dex_clear (&future);
     }
 }
 
@@ -174,7 +186,7 @@ dex_delayed_dup_future (DexDelayed *delayed)
   g_return_val_if_fail (DEX_IS_DELAYED (delayed), NULL);
 
   dex_object_lock (delayed);
-  ret = delayed->future ? dex_ref (delayed->future) : NULL;
+  ret = delayed->corked && delayed->future ? dex_ref (delayed->future) : NULL;
   dex_object_unlock (delayed);
 
   return ret;
-- 
2.43.0


From 163bd47bfefe29cfd542e7ecd6c56ef47d90c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 08/33] fix: thread-pool: give workers a power-of-two sized
 work stealing queue

The array index is computed with capacity-1 as a bit mask, so that 255
entries made neighbouring items overwrite each other.
---
 src/dex-thread-pool-worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 2d2a3d6..d37a45e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -520,7 +520,7 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->main_context = g_main_context_new ();
   thread_pool_worker->main_loop = g_main_loop_new (thread_pool_worker->main_context, FALSE);
   thread_pool_worker->global_work_queue = dex_ref (work_queue);
-  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (255);
+  thread_pool_worker->work_stealing_queue = dex_work_stealing_queue_new (256);
   thread_pool_worker->set = set;
 
   /* Now spawn our thread to process events via GSource */
-- 
2.43.0


From 37a76dd5a09a0f758b48074a402e91e653a7b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 09/33] fix: thread-pool: push work from another pool's worker
 to this pool

---
 src/dex-thread-pool-scheduler.c      | 4 +++-
 src/dex-thread-pool-worker-private.h | 2 ++
 src/dex-thread-pool-worker.c         | 9 +++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 7926420..5295f43 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -73,7 +73,9 @@ dex_thread_pool_scheduler_push (DexScheduler *scheduler,
   DexThreadPoolScheduler *thread_pool_scheduler = DEX_THREAD_POOL_SCHEDULER (scheduler);
   DexThreadPoolWorker *worker = DEX_THREAD_POOL_WORKER_CURRENT;
 
-  if (worker != NULL)
+  /* Workers of another thread pool must go through our global queue */
+  if (worker != NULL &&
+      dex_thread_pool_worker_in_set (worker, thread_pool_scheduler->set))
     DEX_SCHEDULER_GET_CLASS (worker)->push (DEX_SCHEDULER (worker), work_item);
   else
     dex_work_queue_push (thread_pool_scheduler->global_work_queue, work_item);
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index eae2f78..8df10d8 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,8 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+gboolean                dex_thread_pool_worker_in_set    (DexThreadPoolWorker    *thread_pool_worker,
+                                                          DexThreadPoolWorkerSet *set);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_ref   (DexThreadPoolWorkerSet *set);
 void                    dex_thread_pool_worker_set_unref (DexThreadPoolWorkerSet *set);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index d37a45e..af23f0e 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -413,6 +413,15 @@ dex_thread_pool_worker_set_remove (DexThreadPoolWorkerSet *set,
   g_rw_lock_writer_unlock (&set->rwlock);
 }
 
+gboolean
+dex_thread_pool_worker_in_set (DexThreadPoolWorker    *thread_pool_worker,
+                               DexThreadPoolWorkerSet *set)
+{
+  g_return_val_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker), FALSE);
+
+  return thread_pool_worker->set == set;
+}
+
 DexThreadPoolWorkerSet *
 dex_thread_pool_worker_set_ref (DexThreadPoolWorkerSet *set)
 {
-- 
2.43.0


From b9232cd7026d6df91187fbe8b9846e44a21b047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 10/33] fix: thread-pool: wait for a worker's setup in a loop

g_cond_wait() may wake up spuriously, in which case the pool would use a
worker which is not ready yet or miss that it failed.
---
 src/dex-thread-pool-worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index af23f0e..d2eb330 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -537,7 +537,8 @@ dex_thread_pool_worker_new (DexWorkQueue           *work_queue,
   thread_pool_worker->thread = g_thread_new ("dex-thread-pool-worker",
                                              dex_thread_pool_worker_thread_func,
                                              thread_pool_worker);
-  g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
+  while (thread_pool_worker->status == DEX_THREAD_POOL_WORKER_INITIAL)
+    g_cond_wait (&thread_pool_worker->setup_cond, &thread_pool_worker->setup_mutex);
   failed = thread_pool_worker->status == DEX_THREAD_POOL_WORKER_FINISHED;
   g_mutex_unlock (&thread_pool_worker->setup_mutex);
 
-- 
2.43.0


From 7413483e1697f83883420ffaf39e2492677aa6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 11/33] fix: thread-pool: do not return a pool without any
 workers

If no worker could be set up, spawning a fiber divided by zero and work
items were queued forever. Report the failure instead.
---
 src/dex-thread-pool-scheduler.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 5295f43..9b27be6 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -164,7 +164,10 @@ dex_thread_pool_scheduler_init (DexThreadPoolScheduler *thread_pool_scheduler)
  *
  * Creates a new #DexScheduler that executes work items on a thread pool.
  *
- * Returns: (transfer full): a #DexThreadPoolScheduler
+ * If the resources for not even a single worker thread are available,
+ * %NULL is returned.
+ *
+ * Returns: (transfer full) (nullable): a #DexThreadPoolScheduler
  */
 DexScheduler *
 dex_thread_pool_scheduler_new (void)
@@ -207,6 +210,14 @@ dex_thread_pool_scheduler_new (void)
         break;
     }
 
+  /* Nothing would ever process our work items */
+  if (thread_pool_scheduler->workers->len == 0)
+    {
+      g_warning ("Failed to create workers for thread pool");
+      dex_clear (&thread_pool_scheduler);
+      return NULL;
+    }
+
   return DEX_SCHEDULER (thread_pool_scheduler);
 }
 
@@ -229,6 +240,11 @@ dex_thread_pool_scheduler_get_default (void)
   if (g_once_init_enter (&default_thread_pool))
     {
       DexScheduler *instance = dex_thread_pool_scheduler_new ();
+
+      /* Without any workers, fallback to the main thread */
+      if (instance == NULL)
+        instance = dex_ref (dex_scheduler_get_default ());
+
       g_once_init_leave (&default_thread_pool, instance);
     }
 
-- 
2.43.0


From 0b2488b633f886a57ce5a5dbd7e297b9e85928c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 12/33] fix: thread-pool: stop the workers when the pool is
 finalized

The work queue loop of a worker is a block created on it, which keeps the
worker alive, so that dropping the pool never stopped its threads while
the set of workers they use was released.
---
 src/dex-thread-pool-scheduler.c      |  7 +++--
 src/dex-thread-pool-worker-private.h |  1 +
 src/dex-thread-pool-worker.c         | 39 ++++++++++++++++++++++------
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/dex-thread-pool-scheduler.c b/src/dex-thread-pool-scheduler.c
index 9b27be6..e431d14 100644
--- a/src/dex-thread-pool-scheduler.c
+++ b/src/dex-thread-pool-scheduler.c
@@ -129,10 +129,13 @@ dex_thread_pool_scheduler_finalize (DexObject *object)
 {
   DexThreadPoolScheduler *thread_pool_scheduler = (DexThreadPoolScheduler *)object;
 
-  dex_clear (&thread_pool_scheduler->global_work_queue);
+  /* Stop all threads before releasing what they share */
+  for (guint i = 0; i < thread_pool_scheduler->workers->len; i++)
+    dex_thread_pool_worker_stop (g_ptr_array_index (thread_pool_scheduler->workers, i));
 
-  g_clear_pointer (&thread_pool_scheduler->set, dex_thread_pool_worker_set_unref);
   g_clear_pointer (&thread_pool_scheduler->workers, g_ptr_array_unref);
+  g_clear_pointer (&thread_pool_scheduler->set, dex_thread_pool_worker_set_unref);
+  dex_clear (&thread_pool_scheduler->global_work_queue);
 
   DEX_OBJECT_CLASS (dex_thread_pool_scheduler_parent_class)->finalize (object);
 }
diff --git a/src/dex-thread-pool-worker-private.h b/src/dex-thread-pool-worker-private.h
index 8df10d8..7c0489e 100644
--- a/src/dex-thread-pool-worker-private.h
+++ b/src/dex-thread-pool-worker-private.h
@@ -37,6 +37,7 @@ typedef struct _DexThreadPoolWorkerSet DexThreadPoolWorkerSet;
 GType                   dex_thread_pool_worker_get_type  (void) G_GNUC_CONST;
 DexThreadPoolWorker    *dex_thread_pool_worker_new       (DexWorkQueue           *work_queue,
                                                           DexThreadPoolWorkerSet *set);
+void                    dex_thread_pool_worker_stop      (DexThreadPoolWorker    *thread_pool_worker);
 gboolean                dex_thread_pool_worker_in_set    (DexThreadPoolWorker    *thread_pool_worker,
                                                           DexThreadPoolWorkerSet *set);
 DexThreadPoolWorkerSet *dex_thread_pool_worker_set_new   (void);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index d2eb330..cdf7c51 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -144,15 +144,29 @@ dex_thread_pool_worker_finalize_cb (gpointer data)
   return G_SOURCE_REMOVE;
 }
 
-static void
-dex_thread_pool_worker_finalize (DexObject *object)
+/**
+ * dex_thread_pool_worker_stop:
+ * @thread_pool_worker: a #DexThreadPoolWorker
+ *
+ * Requests that the worker thread stop and waits for it to exit.
+ *
+ * The worker itself may be referenced by others for longer than its
+ * thread pool, blocks created on the thread for example, so it cannot be
+ * relied upon to be finalized with the thread pool.
+ */
+void
+dex_thread_pool_worker_stop (DexThreadPoolWorker *thread_pool_worker)
 {
-  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
   GSource *idle_source;
 
+  g_return_if_fail (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
+
+  if (thread_pool_worker->thread == NULL)
+    return;
+
   g_assert (thread_pool_worker->thread != g_thread_self ());
 
-  /* To finalize the worker, we need to push a work item to the thread
+  /* To stop the worker, we need to push a work item to the thread
    * that will cause it to stop processing and then wait for the thread
    * to exit after processing the rest of the queue. We change the finalizing
    * bit on the worker thread so the common case (it's FALSE) doesn't require
@@ -168,13 +182,21 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_source_unref (idle_source);
 
   /* Now wait for the thread to process items and exit the thread */
-  g_thread_join (thread_pool_worker->thread);
+  g_thread_join (g_steal_pointer (&thread_pool_worker->thread));
+}
+
+static void
+dex_thread_pool_worker_finalize (DexObject *object)
+{
+  DexThreadPoolWorker *thread_pool_worker = DEX_THREAD_POOL_WORKER (object);
+
+  dex_thread_pool_worker_stop (thread_pool_worker);
 
 #ifdef G_ENABLE_DEBUG
   atomic_thread_fence (memory_order_seq_cst);
 
   g_assert (thread_pool_worker->status == DEX_THREAD_POOL_WORKER_FINISHED);
-  g_assert (dex_work_stealing_queue_empty (thread_pool_worker->queue));
+  g_assert (dex_work_stealing_queue_empty (thread_pool_worker->work_stealing_queue));
 #endif
 
   /* These are all destroyed during thread shutdown */
@@ -182,7 +204,6 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
 
-  g_clear_pointer (&thread_pool_worker->thread, g_thread_unref);
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
@@ -330,6 +351,9 @@ dex_thread_pool_worker_thread_func (gpointer data)
   /* Discard our work queue loop */
   dex_clear (&global_work_queue_loop);
 
+  /* Stop stealing from others, this source would always be ready */
+  g_source_destroy (thread_pool_worker->set_source);
+
   /* Flush out any pending operations */
   while (g_main_context_pending (thread_pool_worker->main_context))
     g_main_context_iteration (thread_pool_worker->main_context, FALSE);
@@ -338,7 +362,6 @@ dex_thread_pool_worker_thread_func (gpointer data)
   dex_thread_pool_worker_set_remove (thread_pool_worker->set, thread_pool_worker);
 
   /* Ensure our sources will not continue on */
-  g_source_destroy (thread_pool_worker->set_source);
   g_source_destroy (thread_pool_worker->local_source);
   g_source_destroy (thread_pool_worker->fiber_scheduler);
 
-- 
2.43.0


From 06adc2352c6ffc82e33c608f1df9a699a64b3aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 13/33] fix: uring: do not leak a reference to operations
 queued for the ring

The queue owns a reference to the future, which is what the sqe needs to
own after the future was popped. Taking another one leaked every future
that was queued from another thread, or while the ring was full.
---
 src/dex-uring-aio-backend.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index e189e7e..b5561c5 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -169,9 +169,10 @@ dex_uring_aio_context_prepare (GSource *source,
             break;
         }
 
+      /* The reference held by the queue is handed over to the sqe */
       future = g_queue_pop_head (&aio_context->queued);
       dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, dex_ref (future));
+      io_uring_sqe_set_data (sqe, future);
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
-- 
2.43.0


From c85c57bc81b940b3011dec8a4125fbde54f9ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 14/33] fix: thread-pool: release the aio context of stopped
 workers

The aio context of a worker was never released, which leaked a ring, an
eventfd and the outstanding read of the work queue's semaphore for every
worker of every thread pool. Release it with the worker, and have the
uring context reject and release what was still in flight when its ring
goes away.
---
 src/dex-posix-aio-backend.c    |  1 +
 src/dex-thread-pool-worker.c   |  6 +++++
 src/dex-uring-aio-backend.c    | 48 +++++++++++++++++++++++++++++-----
 src/dex-uring-future-private.h |  2 ++
 src/dex-uring-future.c         | 19 ++++++++++++++
 5 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index 77e91a8..a86b3b1 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -147,6 +147,7 @@ dex_posix_aio_context_finalize (GSource *source)
   g_assert (DEX_IS_POSIX_AIO_BACKEND (aio_context->parent.aio_backend));
   g_assert (aio_context->completed.length == 0);
 
+  dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
 }
 
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index cdf7c51..5db8ebf 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -204,6 +204,12 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
 
+  if (thread_pool_worker->aio_context != NULL)
+    {
+      g_source_destroy ((GSource *)thread_pool_worker->aio_context);
+      g_source_unref ((GSource *)g_steal_pointer (&thread_pool_worker->aio_context));
+    }
+
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index b5561c5..053f8b0 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -53,6 +53,7 @@ typedef struct _DexUringAioContext
   gpointer         eventfdtag;
   GMutex           mutex;
   GQueue           queued;
+  GQueue           in_flight;
   guint            ring_initialized : 1;
 } DexUringAioContext;
 
@@ -123,6 +124,15 @@ again:
         break;
     }
 
+  if (n_handled > 0)
+    {
+      g_mutex_lock (&aio_context->mutex);
+      for (guint i = 0; i < n_handled; i++)
+        g_queue_unlink (&aio_context->in_flight,
+                        dex_uring_future_get_link (handledstack[i]));
+      g_mutex_unlock (&aio_context->mutex);
+    }
+
   for (guint i = 0; i < n_handled; i++)
     {
       DexUringFuture *future = handledstack[i];
@@ -136,6 +146,18 @@ again:
   return G_SOURCE_CONTINUE;
 }
 
+/* Takes ownership of @future, must be called with the mutex held */
+static void
+dex_uring_aio_context_set_sqe (DexUringAioContext  *aio_context,
+                               struct io_uring_sqe *sqe,
+                               DexUringFuture      *future)
+{
+  dex_uring_future_sqe (future, sqe);
+  io_uring_sqe_set_data (sqe, future);
+  g_queue_push_tail_link (&aio_context->in_flight,
+                          dex_uring_future_get_link (future));
+}
+
 static gboolean
 dex_uring_aio_context_prepare (GSource *source,
                                int     *timeout)
@@ -171,8 +193,7 @@ dex_uring_aio_context_prepare (GSource *source,
 
       /* The reference held by the queue is handed over to the sqe */
       future = g_queue_pop_head (&aio_context->queued);
-      dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, future);
+      dex_uring_aio_context_set_sqe (aio_context, sqe, future);
     }
 
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
@@ -202,12 +223,26 @@ dex_uring_aio_context_finalize (GSource *source)
   g_assert (aio_context != NULL);
   g_assert (DEX_IS_URING_AIO_BACKEND (aio_context->parent.aio_backend));
 
-  if (aio_context->queued.length > 0)
-    g_critical ("Destroying DexAioContext with queued items!");
-
   if (aio_context->ring_initialized)
     io_uring_queue_exit (&aio_context->ring);
 
+  /* Nobody is left to reap operations that were not completed. Their thread
+   * has exited too, at which point the kernel has cancelled them.
+   */
+  while (aio_context->in_flight.length > 0)
+    {
+      DexUringFuture *future = g_queue_pop_head_link (&aio_context->in_flight)->data;
+      dex_uring_future_cancelled (future);
+      dex_unref (future);
+    }
+
+  while (aio_context->queued.length > 0)
+    {
+      DexUringFuture *future = g_queue_pop_head (&aio_context->queued);
+      dex_uring_future_cancelled (future);
+      dex_unref (future);
+    }
+
   dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
 
@@ -243,8 +278,7 @@ dex_uring_aio_context_queue (DexUringAioContext *aio_context,
                aio_context->queued.length == 0 &&
                (sqe = io_uring_get_sqe (&aio_context->ring)))
     {
-      dex_uring_future_sqe (future, sqe);
-      io_uring_sqe_set_data (sqe, dex_ref (future));
+      dex_uring_aio_context_set_sqe (aio_context, sqe, dex_ref (future));
     }
   else
     {
diff --git a/src/dex-uring-future-private.h b/src/dex-uring-future-private.h
index 68a71b3..f208767 100644
--- a/src/dex-uring-future-private.h
+++ b/src/dex-uring-future-private.h
@@ -46,5 +46,7 @@ void            dex_uring_future_sqe       (DexUringFuture      *uring_future,
 void            dex_uring_future_cqe       (DexUringFuture      *uring_future,
                                             struct io_uring_cqe *cqe);
 void            dex_uring_future_complete  (DexUringFuture      *uring_future);
+GList          *dex_uring_future_get_link  (DexUringFuture      *uring_future);
+void            dex_uring_future_cancelled (DexUringFuture      *uring_future);
 
 G_END_DECLS
diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 5e3010b..de29a57 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -36,6 +36,7 @@ typedef enum _DexUringType
 struct _DexUringFuture
 {
   DexFuture parent_instance;
+  GList link;
   DexUringType type;
   union {
     struct {
@@ -73,6 +74,7 @@ dex_uring_future_class_init (DexUringFutureClass *uring_future_class)
 static void
 dex_uring_future_init (DexUringFuture *uring_future)
 {
+  uring_future->link.data = uring_future;
 }
 
 static GError *
@@ -115,6 +117,23 @@ dex_uring_future_complete (DexUringFuture *uring_future)
     }
 }
 
+/* Link for use by the aio context owning the future while in flight */
+GList *
+dex_uring_future_get_link (DexUringFuture *uring_future)
+{
+  return &uring_future->link;
+}
+
+void
+dex_uring_future_cancelled (DexUringFuture *uring_future)
+{
+  dex_future_complete (DEX_FUTURE (uring_future),
+                       NULL,
+                       g_error_new_literal (G_IO_ERROR,
+                                            G_IO_ERROR_CANCELLED,
+                                            "Operation was cancelled"));
+}
+
 void
 dex_uring_future_cqe (DexUringFuture      *uring_future,
                       struct io_uring_cqe *cqe)
-- 
2.43.0


From ffeb748080e51da54859b7940e68c472b96380e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 15/33] fix: semaphore: release every waiter when closed or
 finalized

Waiters which are not backed by an eventfd were leaked and left pending
when the semaphore was finalized on systems that have eventfd, and
dex_semaphore_close() completed them with the object lock held, which
deadlocks when a callback uses the semaphore. Waiting on a semaphore
after it was closed never completed, or failed with EBADF, and posting
while another thread closes aborted the program as it used an eventfd
that was closed already.
---
 src/dex-semaphore.c | 81 ++++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index 76d80b9..ef0240f 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -121,6 +121,8 @@ struct _DexSemaphore
 
   gint64 counter;
   GQueue waiters;
+
+  guint closed : 1;
 };
 
 typedef struct _DexSemaphoreClass
@@ -139,6 +141,22 @@ dex_semaphore_new (void)
   return (DexSemaphore *)dex_object_create_instance (DEX_TYPE_SEMAPHORE);
 }
 
+/* Must be called without the object lock held, as completing a
+ * waiter may call back into the semaphore.
+ */
+static void
+dex_semaphore_reject_waiters (GQueue *waiters)
+{
+  while (waiters->length > 0)
+    {
+      DexSemaphoreWaiter *waiter = g_queue_pop_head_link (waiters)->data;
+      dex_future_complete (DEX_FUTURE (waiter),
+                           NULL,
+                           g_error_copy (&semaphore_closed_error));
+      dex_unref (waiter);
+    }
+}
+
 static void
 dex_semaphore_finalize (DexObject *object)
 {
@@ -150,17 +168,10 @@ dex_semaphore_finalize (DexObject *object)
       close (semaphore->eventfd);
       semaphore->eventfd = -1;
     }
-#else
-  while (semaphore->waiters.length > 0)
-    {
-      DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&semaphore->waiters)->data;
-      dex_future_complete (DEX_FUTURE (waiter),
-                           NULL,
-                           g_error_copy (&semaphore_closed_error));
-      dex_unref (waiter);
-    }
 #endif
 
+  dex_semaphore_reject_waiters (&semaphore->waiters);
+
   DEX_OBJECT_CLASS (dex_semaphore_parent_class)->finalize (object);
 }
 
@@ -270,6 +281,15 @@ dex_semaphore_wait (DexSemaphore *semaphore)
   if (semaphore->eventfd != -1)
     {
       static gint64 trash_value;
+      gboolean closed;
+
+      dex_object_lock (semaphore);
+      closed = semaphore->closed;
+      dex_object_unlock (semaphore);
+
+      if (closed)
+        return dex_future_new_for_error (g_error_copy (&semaphore_closed_error));
+
       return dex_aio_read (NULL,
                            semaphore->eventfd,
                            &trash_value,
@@ -286,7 +306,14 @@ dex_semaphore_wait (DexSemaphore *semaphore)
         dex_object_create_instance (DEX_TYPE_SEMAPHORE_WAITER);
 
       dex_object_lock (semaphore);
-      if (semaphore->counter > 0)
+      if (semaphore->closed)
+        {
+          dex_future_complete (DEX_FUTURE (waiter),
+                               NULL,
+                               g_error_copy (&semaphore_closed_error));
+          ret = DEX_FUTURE (g_steal_pointer (&waiter));
+        }
+      else if (semaphore->counter > 0)
         {
           semaphore->counter--;
           dex_future_complete (DEX_FUTURE (waiter), &semaphore_waiter_value, NULL);
@@ -321,32 +348,18 @@ dex_semaphore_wait (DexSemaphore *semaphore)
 void
 dex_semaphore_close (DexSemaphore *semaphore)
 {
+  GQueue waiters;
+
   g_return_if_fail (DEX_IS_SEMAPHORE (semaphore));
 
+  /* The eventfd must stay around until we finalize, it might be in
+   * use by dex_semaphore_post() or dex_semaphore_wait().
+   */
   dex_object_lock (semaphore);
-
-#ifdef HAVE_EVENTFD
-  if (semaphore->eventfd != -1)
-    {
-      close (semaphore->eventfd);
-      semaphore->eventfd = -1;
-    }
-#endif
-
-  if (semaphore->waiters.length > 0)
-    {
-      GQueue queue = semaphore->waiters;
-      semaphore->waiters = (GQueue) {NULL, NULL, 0};
-
-      while (queue.length)
-        {
-          DexSemaphoreWaiter *waiter = g_queue_pop_head_link (&queue)->data;
-          dex_future_complete (DEX_FUTURE (waiter),
-                               NULL,
-                               g_error_copy (&semaphore_closed_error));
-          dex_unref (waiter);
-        }
-    }
-
+  semaphore->closed = TRUE;
+  waiters = semaphore->waiters;
+  semaphore->waiters = (GQueue) {NULL, NULL, 0};
   dex_object_unlock (semaphore);
+
+  dex_semaphore_reject_waiters (&waiters);
 }
-- 
2.43.0


From 2c88cb02bcce86961744d9eb84488e0bb0c759ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 16/33] fix: uring: report the error of a failed operation

The error code was negated twice, so that every failed read or write was
rejected as G_IO_ERROR_FAILED with "Unknown error -N".
---
 src/dex-uring-future.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index de29a57..7efbed0 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -81,8 +81,8 @@ static GError *
 create_error (int error_code)
 {
   return g_error_new_literal (G_IO_ERROR,
-                              g_io_error_from_errno (-error_code),
-                              g_strerror (-error_code));
+                              g_io_error_from_errno (error_code),
+                              g_strerror (error_code));
 }
 
 static void
-- 
2.43.0


From e8ccc9046139a203f311913d1c21e0f042cfecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 17/33] fix: uring: do not truncate the size of large reads and
 writes

The length in the sqe has 32 bits, so a read of exactly 4 GiB became a
read of nothing and looked like the end of the file. Limit the transfer to
what read() and write() would do instead, which is a short one.
---
 src/dex-uring-future.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dex-uring-future.c b/src/dex-uring-future.c
index 7efbed0..e813914 100644
--- a/src/dex-uring-future.c
+++ b/src/dex-uring-future.c
@@ -27,6 +27,11 @@
 #include "dex-future-private.h"
 #include "dex-uring-future-private.h"
 
+/* The most that read() and write() will ever transfer on Linux. The length
+ * in the sqe is limited to 32-bit so larger counts must not be truncated.
+ */
+#define MAX_RW_COUNT 0x7ffff000
+
 typedef enum _DexUringType
 {
   DEX_URING_TYPE_READ = 1,
@@ -163,7 +168,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_read (sqe,
                           uring_future->read.fd,
                           uring_future->read.buffer,
-                          uring_future->read.count,
+                          MIN (uring_future->read.count, MAX_RW_COUNT),
                           uring_future->read.offset);
       break;
 
@@ -171,7 +176,7 @@ dex_uring_future_sqe (DexUringFuture      *uring_future,
       io_uring_prep_write (sqe,
                            uring_future->write.fd,
                            uring_future->write.buffer,
-                           uring_future->write.count,
+                           MIN (uring_future->write.count, MAX_RW_COUNT),
                            uring_future->write.offset);
       break;
 
-- 
2.43.0


From e2075106d95fd07494501d841dfb8e53a28ecc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 18/33] fix: uring: try again when the kernel did not take all
 submissions

io_uring_submit() may fail or take a part of the sqes when the kernel is
short on resources. Nothing submitted the rest until something else
happened to wake up the main context, so operations could stall forever.
---
 src/dex-uring-aio-backend.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index 053f8b0..869239f 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -199,6 +199,14 @@ dex_uring_aio_context_prepare (GSource *source,
   if (do_submit || io_uring_sq_ready (&aio_context->ring) > 0)
     io_uring_submit (&aio_context->ring);
 
+  /* The kernel may refuse to take (some of) the sqes when it is short on
+   * resources. If nothing is in flight then there is no completion to wake
+   * us up, so make sure to try again soon.
+   */
+  if G_UNLIKELY (aio_context->queued.length > 0 ||
+                 io_uring_sq_ready (&aio_context->ring) > 0)
+    *timeout = 1;
+
   g_mutex_unlock (&aio_context->mutex);
 
   return io_uring_cq_ready (&aio_context->ring) > 0;
-- 
2.43.0


From 97ea24bdb1795c107855d1532eeb1e0813cba6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 19/33] fix: aio: complete operations that finish after their
 worker was stopped

---
 src/dex-posix-aio-backend.c        | 24 ++++++++++++++++++++----
 src/dex-posix-aio-future-private.h |  2 +-
 src/dex-posix-aio-future.c         |  4 ++--
 src/dex-thread-pool-worker.c       | 10 ++++------
 src/dex-uring-aio-backend.c        |  4 +---
 5 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index a86b3b1..77b97fd 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -66,6 +66,7 @@ DEX_DEFINE_FINAL_TYPE (DexPosixAioBackend, dex_posix_aio_backend, DEX_TYPE_AIO_B
 
 static GThreadPool *io_thread_pool;
 
+/* Takes ownership of @posix_aio_context and @posix_aio_future */
 static void
 dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
                             DexPosixAioFuture  *posix_aio_future)
@@ -75,13 +76,21 @@ dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
   g_assert (posix_aio_context != NULL);
   g_assert (DEX_IS_POSIX_AIO_FUTURE (posix_aio_future));
 
+  /* The future might be completed and released as soon as it is queued */
+  if ((main_context = dex_posix_aio_future_get_main_context (posix_aio_future)))
+    g_main_context_ref (main_context);
+
   g_mutex_lock (&posix_aio_context->mutex);
   g_queue_push_tail (&posix_aio_context->completed, posix_aio_future);
-  main_context = dex_posix_aio_future_get_main_context (posix_aio_future);
   g_mutex_unlock (&posix_aio_context->mutex);
 
   if (main_context)
-    g_main_context_wakeup (main_context);
+    {
+      g_main_context_wakeup (main_context);
+      g_main_context_unref (main_context);
+    }
+
+  g_source_unref ((GSource *)posix_aio_context);
 }
 
 static inline void
@@ -145,7 +154,14 @@ dex_posix_aio_context_finalize (GSource *source)
 
   g_assert (aio_context != NULL);
   g_assert (DEX_IS_POSIX_AIO_BACKEND (aio_context->parent.aio_backend));
-  g_assert (aio_context->completed.length == 0);
+
+  /* These finished after our source was destroyed */
+  while (aio_context->completed.length > 0)
+    {
+      DexPosixAioFuture *posix_aio_future = g_queue_pop_head (&aio_context->completed);
+      dex_posix_aio_future_complete (posix_aio_future);
+      dex_unref (posix_aio_future);
+    }
 
   dex_clear (&aio_context->parent.aio_backend);
   g_mutex_clear (&aio_context->mutex);
@@ -217,8 +233,8 @@ dex_posix_aio_backend_worker (gpointer data,
 
   g_assert (DEX_IS_POSIX_AIO_FUTURE (posix_aio_future));
 
-  posix_aio_context = dex_posix_aio_future_get_aio_context (posix_aio_future);
   dex_posix_aio_future_run (posix_aio_future);
+  posix_aio_context = dex_posix_aio_future_steal_aio_context (posix_aio_future);
   dex_posix_aio_context_take (posix_aio_context, posix_aio_future);
 }
 
diff --git a/src/dex-posix-aio-future-private.h b/src/dex-posix-aio-future-private.h
index 737d7d0..2bd64a5 100644
--- a/src/dex-posix-aio-future-private.h
+++ b/src/dex-posix-aio-future-private.h
@@ -41,7 +41,7 @@ DexPosixAioFuture  *dex_posix_aio_future_new_write        (DexPosixAioContext  *
                                                            goffset              offset);
 void                dex_posix_aio_future_run              (DexPosixAioFuture   *posix_aio_future);
 void                dex_posix_aio_future_complete         (DexPosixAioFuture   *posix_aio_future);
-DexPosixAioContext *dex_posix_aio_future_get_aio_context  (DexPosixAioFuture *posix_aio_future);
+DexPosixAioContext *dex_posix_aio_future_steal_aio_context (DexPosixAioFuture *posix_aio_future);
 GMainContext       *dex_posix_aio_future_get_main_context (DexPosixAioFuture *posix_aio_future);
 
 G_END_DECLS
diff --git a/src/dex-posix-aio-future.c b/src/dex-posix-aio-future.c
index d136f1c..433366d 100644
--- a/src/dex-posix-aio-future.c
+++ b/src/dex-posix-aio-future.c
@@ -239,11 +239,11 @@ dex_posix_aio_future_complete (DexPosixAioFuture *posix_aio_future)
 }
 
 DexPosixAioContext *
-dex_posix_aio_future_get_aio_context (DexPosixAioFuture *posix_aio_future)
+dex_posix_aio_future_steal_aio_context (DexPosixAioFuture *posix_aio_future)
 {
   g_return_val_if_fail (DEX_IS_POSIX_AIO_FUTURE (posix_aio_future), NULL);
 
-  return posix_aio_future->aio_context;
+  return g_steal_pointer (&posix_aio_future->aio_context);
 }
 
 GMainContext *
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index 5db8ebf..af06471 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -204,12 +204,6 @@ dex_thread_pool_worker_finalize (DexObject *object)
   g_clear_pointer (&thread_pool_worker->local_source, g_source_unref);
   g_clear_pointer (&thread_pool_worker->fiber_scheduler, g_source_unref);
 
-  if (thread_pool_worker->aio_context != NULL)
-    {
-      g_source_destroy ((GSource *)thread_pool_worker->aio_context);
-      g_source_unref ((GSource *)g_steal_pointer (&thread_pool_worker->aio_context));
-    }
-
   g_clear_pointer (&thread_pool_worker->main_context, g_main_context_unref);
   g_clear_pointer (&thread_pool_worker->main_loop, g_main_loop_unref);
   g_clear_pointer (&thread_pool_worker->work_stealing_queue, dex_work_stealing_queue_unref);
@@ -378,6 +372,10 @@ dex_thread_pool_worker_thread_func (gpointer data)
   storage->scheduler = NULL;
   storage->aio_context = NULL;
 
+  /* Release our AIO source, nobody is left to complete AIO work with it */
+  g_source_destroy ((GSource *)thread_pool_worker->aio_context);
+  g_clear_pointer ((GSource **)&thread_pool_worker->aio_context, g_source_unref);
+
   return NULL;
 }
 
diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index 869239f..321775e 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -234,9 +234,7 @@ dex_uring_aio_context_finalize (GSource *source)
   if (aio_context->ring_initialized)
     io_uring_queue_exit (&aio_context->ring);
 
-  /* Nobody is left to reap operations that were not completed. Their thread
-   * has exited too, at which point the kernel has cancelled them.
-   */
+  /* Nobody is left to reap operations that were not completed */
   while (aio_context->in_flight.length > 0)
     {
       DexUringFuture *future = g_queue_pop_head_link (&aio_context->in_flight)->data;
-- 
2.43.0


From c8f2caefe683d4de4499401e0b3bad249a794786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 20/33] fix: fiber: keep the worker of a suspended fiber alive

---
 src/dex-fiber-private.h      | 5 +++++
 src/dex-fiber.c              | 1 +
 src/dex-thread-pool-worker.c | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index 12a6304..7b33265 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -65,6 +65,11 @@ struct _DexFiber
   /* The scheduler affinity */
   DexFiberScheduler *fiber_scheduler;
 
+  /* Keeps the owner of fiber_scheduler alive until the fiber has exited,
+   * as what the fiber is waiting for may complete at any time.
+   */
+  DexScheduler *scheduler;
+
   /* Origin function/data for the fiber */
   DexFiberFunc   func;
   gpointer       func_data;
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index 5f0ea52..d90f140 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -308,6 +308,7 @@ dex_fiber_scheduler_iteration (DexFiberScheduler *fiber_scheduler)
         g_clear_pointer (&fiber->stack, dex_stack_free);
 
       fiber->fiber_scheduler = NULL;
+      dex_clear (&fiber->scheduler);
       fiber->released = TRUE;
 
       dex_unref (fiber);
diff --git a/src/dex-thread-pool-worker.c b/src/dex-thread-pool-worker.c
index af06471..8ffdb6d 100644
--- a/src/dex-thread-pool-worker.c
+++ b/src/dex-thread-pool-worker.c
@@ -247,6 +247,8 @@ dex_thread_pool_worker_spawn (DexScheduler *scheduler,
 
   g_assert (DEX_IS_THREAD_POOL_WORKER (thread_pool_worker));
 
+  fiber->scheduler = dex_ref (scheduler);
+
   dex_fiber_scheduler_register ((DexFiberScheduler *)thread_pool_worker->fiber_scheduler, fiber);
 }
 
-- 
2.43.0


From 7c77cf1b1974498ae2fb26ff9af492174053bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 21/33] fix: timeout: do not race with the dispatch of the
 source on discard

---
 src/dex-timeout.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index d0a787c..e2d2c2d 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -53,9 +53,18 @@ static void
 dex_timeout_discard (DexFuture *future)
 {
   DexTimeout *timeout = DEX_TIMEOUT (future);
+  GSource *source;
 
-  if (timeout->source != NULL)
-    g_source_destroy (timeout->source);
+  /* The source might be dispatching from another thread */
+  dex_object_lock (timeout);
+  source = g_steal_pointer (&timeout->source);
+  dex_object_unlock (timeout);
+
+  if (source != NULL)
+    {
+      g_source_destroy (source);
+      g_source_unref (source);
+    }
 }
 
 static void
-- 
2.43.0


From 886220cd0a0df9632909b1a4dc1a953b26ceacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 22/33] fix: timeout: do not fire at once when the delay is
 very long

---
 src/dex-timeout.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/dex-timeout.c b/src/dex-timeout.c
index e2d2c2d..9864f56 100644
--- a/src/dex-timeout.c
+++ b/src/dex-timeout.c
@@ -182,24 +182,36 @@ dex_timeout_new_deadline (gint64 deadline)
   return DEX_FUTURE (timeout);
 }
 
+static gint64
+dex_timeout_deadline_after (gint64 usec)
+{
+  gint64 now = g_get_monotonic_time ();
+
+  /* A deadline that wrapped around would be in the past */
+  if (usec > G_MAXINT64 - now)
+    return G_MAXINT64;
+
+  return now + usec;
+}
+
 DexFuture *
 dex_timeout_new_seconds (int seconds)
 {
   gint64 usec = (gint64) G_USEC_PER_SEC * seconds;
-  return dex_timeout_new_deadline (g_get_monotonic_time () + usec);
+  return dex_timeout_new_deadline (dex_timeout_deadline_after (usec));
 }
 
 DexFuture *
 dex_timeout_new_msec (int msec)
 {
   gint64 usec = (G_USEC_PER_SEC/1000L) * msec;
-  return dex_timeout_new_deadline (g_get_monotonic_time () + usec);
+  return dex_timeout_new_deadline (dex_timeout_deadline_after (usec));
 }
 
 DexFuture *
 dex_timeout_new_usec (gint64 usec)
 {
-  return dex_timeout_new_deadline (g_get_monotonic_time () + usec);
+  return dex_timeout_new_deadline (dex_timeout_deadline_after (usec));
 }
 
 void
-- 
2.43.0


From 037c81c6d7f155a70977d212c0c488d4aabec9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 23/33] fix: fiber: report the cancellation to a cancelled
 fiber

---
 src/dex-fiber.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index d90f140..e011f2b 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -166,8 +166,10 @@ dex_fiber_start (DexFiber *fiber)
   /* Await any future returned from the fiber */
   if (future != NULL)
     {
-      dex_await_borrowed (future, NULL);
-      dex_future_complete_from (DEX_FUTURE (fiber), future);
+      GError *error = NULL;
+      const GValue *value = dex_await_borrowed (future, &error);
+
+      dex_future_complete (DEX_FUTURE (fiber), value, error);
       dex_unref (future);
     }
   else
@@ -426,7 +428,8 @@ dex_fiber_current (void)
   return fiber_scheduler ? fiber_scheduler->running : NULL;
 }
 
-static inline void
+/* Returns the future which resumed the fiber */
+static inline DexFuture *
 dex_fiber_await (DexFiber  *fiber,
                  DexFuture *future)
 {
@@ -445,12 +448,14 @@ dex_fiber_await (DexFiber  *fiber,
 
   /* Now request the future notify us of completion */
   if (cancelled)
-    dex_future_chain (cancelled_future, DEX_FUTURE (fiber));
-  else
-    dex_future_chain (future, DEX_FUTURE (fiber));
+    future = cancelled_future;
+
+  dex_future_chain (future, DEX_FUTURE (fiber));
 
   /* Swap to the scheduler to continue processing fibers */
   dex_fiber_context_switch (&fiber->context, &fiber_scheduler->context);
+
+  return future;
 }
 
 const GValue *
@@ -473,7 +478,7 @@ dex_await_borrowed (DexFuture  *future,
       return NULL;
     }
 
-  dex_fiber_await (fiber, future);
+  future = dex_fiber_await (fiber, future);
 
   return dex_future_get_value (future, error);
 }
-- 
2.43.0


From 04e569e0633a6f4a3d7f99ac8490952bffcd60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:42 +0000
Subject: [PATCH 24/33] fix: async-pair: allow operations without a source
 object

dex_async_pair_new() accepts a NULL instance, and the operation then calls
back with no source object, which aborted the program.
---
 src/dex-async-pair.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dex-async-pair.c b/src/dex-async-pair.c
index d9a218a..1abb166 100644
--- a/src/dex-async-pair.c
+++ b/src/dex-async-pair.c
@@ -80,7 +80,7 @@ dex_async_pair_ready_callback (GObject      *object,
   GError *error = NULL;
   GType gtype;
 
-  g_assert (G_IS_OBJECT (object));
+  g_assert (!object || G_IS_OBJECT (object));
   g_assert (G_IS_ASYNC_RESULT (result));
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
 
-- 
2.43.0


From a884bb336641943965321c0124ff5d109af88224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 25/33] fix: gio: cancel a D-Bus call with descriptors that
 nobody awaits

The callback of dex_dbus_connection_call_with_unix_fd_list() held the
future set it returned, so the set was not released before the call
ended and dropping it never cancelled the call.
---
 src/dex-gio.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/dex-gio.c b/src/dex-gio.c
index 87f6d30..9f8424e 100644
--- a/src/dex-gio.c
+++ b/src/dex-gio.c
@@ -1117,12 +1117,18 @@ dex_dbus_connection_call (GDBusConnection    *connection,
 }
 
 #ifdef G_OS_UNIX
+typedef struct _CallWithUnixFDList
+{
+  DexAsyncPair *async_pair;
+  DexPromise *promise;
+} CallWithUnixFDList;
+
 static void
 dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
                                                GAsyncResult *result,
                                                gpointer      user_data)
 {
-  DexFutureSet *future_set = user_data;
+  CallWithUnixFDList *state = user_data;
   DexAsyncPair *async_pair;
   DexPromise *promise;
   GUnixFDList *fd_list = NULL;
@@ -1130,10 +1136,10 @@ dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
   GError *error = NULL;
 
   g_assert (G_IS_DBUS_CONNECTION (object));
-  g_assert (DEX_IS_FUTURE_SET (future_set));
+  g_assert (state != NULL);
 
-  async_pair = DEX_ASYNC_PAIR (dex_future_set_get_future_at (future_set, 0));
-  promise = DEX_PROMISE (dex_future_set_get_future_at (future_set, 1));
+  async_pair = state->async_pair;
+  promise = state->promise;
 
   g_assert (DEX_IS_ASYNC_PAIR (async_pair));
   g_assert (DEX_IS_PROMISE (promise));
@@ -1154,7 +1160,9 @@ dex_dbus_connection_call_with_unix_fd_list_cb (GObject      *object,
       dex_async_pair_return_error (async_pair, error);
     }
 
-  dex_unref (future_set);
+  dex_unref (async_pair);
+  dex_unref (promise);
+  g_free (state);
 }
 
 /**
@@ -1189,6 +1197,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             int                 timeout_msec,
                                             GUnixFDList        *fd_list)
 {
+  CallWithUnixFDList *state;
   DexAsyncPair *async_pair;
   DexPromise *promise;
   DexFuture *ret;
@@ -1202,6 +1211,13 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
   /* Will hold our GUnixFDList result */
   promise = dex_promise_new ();
 
+  /* Only keep what is completed alive, so that the call is cancelled
+   * when nobody is interested in the future set anymore.
+   */
+  state = g_new0 (CallWithUnixFDList, 1);
+  state->async_pair = dex_ref (async_pair);
+  state->promise = dex_ref (promise);
+
   /* Sent to user. Resolving will contain variant. */
   ret = dex_future_all (DEX_FUTURE (async_pair), DEX_FUTURE (promise), NULL);
 
@@ -1217,7 +1233,7 @@ dex_dbus_connection_call_with_unix_fd_list (GDBusConnection    *connection,
                                             fd_list,
                                             async_pair->cancellable,
                                             dex_dbus_connection_call_with_unix_fd_list_cb,
-                                            dex_ref (ret));
+                                            state);
 
   return ret;
 }
-- 
2.43.0


From 1eeeb2ca7b9b8508cd72ffd37d3620692304fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 26/33] fix: cancellable: do not deadlock when finalized during
 the cancellation

Completing a future may release other futures of the same GCancellable,
which are then finalized from within the emission of "cancelled". There,
g_cancellable_disconnect() waits forever for the emission to end.
---
 src/dex-cancellable.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/dex-cancellable.c b/src/dex-cancellable.c
index 2c0ed74..40d67d2 100644
--- a/src/dex-cancellable.c
+++ b/src/dex-cancellable.c
@@ -56,8 +56,13 @@ dex_cancellable_finalize (DexObject *object)
 {
   DexCancellable *self = (DexCancellable *)object;
 
+  /* We might be finalized from within the emission of "cancelled", by our
+   * handler or another one, in which case g_cancellable_disconnect() would
+   * deadlock. The handler only holds a weak reference to us, so there is no
+   * need to wait for it if it is running in another thread.
+   */
   if (self->handler)
-    g_cancellable_disconnect (self->cancellable, self->handler);
+    g_signal_handler_disconnect (self->cancellable, self->handler);
 
   g_clear_object (&self->cancellable);
 
@@ -93,14 +98,11 @@ dex_cancellable_cancelled_cb (GCancellable *cancellable,
   g_assert (wr != NULL);
 
   if ((self = dex_weak_ref_get (wr)))
-    {
-      self->handler = 0;
-      dex_future_complete (DEX_FUTURE (self),
-                           NULL,
-                           g_error_new_literal (G_IO_ERROR,
-                                                G_IO_ERROR_CANCELLED,
-                                                "Operation cancelled"));
-    }
+    dex_future_complete (DEX_FUTURE (self),
+                         NULL,
+                         g_error_new_literal (G_IO_ERROR,
+                                              G_IO_ERROR_CANCELLED,
+                                              "Operation cancelled"));
 }
 
 static void
-- 
2.43.0


From 71801484de356aeaf480e4421bb5c8327b439807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:58 +0000
Subject: [PATCH 27/33] fix: async-result: have the future at hand when calling
 back

The callback may be dispatched in another thread before
dex_async_result_await() stored the future, or before the block that
schedules it has completed, so that propagating the result gave a spurious
"pending" error.
---
 src/dex-async-result.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dex-async-result.c b/src/dex-async-result.c
index e416c86..4ec10ac 100644
--- a/src/dex-async-result.c
+++ b/src/dex-async-result.c
@@ -416,19 +416,20 @@ dex_async_result_await (DexAsyncResult *async_result,
   else
     cancellable = dex_cancellable_new_from_cancellable (async_result->cancellable);
 
-  /* We have to be careful about ownership here and ensure we
-   * drop our references when the callback is executed.
+  new_future = dex_future_first (future, cancellable, NULL);
+
+  /* The future must be available, and complete, by the time the callback is
+   * executed, which may be in another thread and at any moment from here on.
    */
-  g_object_ref (async_result);
-  new_future = dex_future_finally (dex_future_first (future, cancellable, NULL),
-                                   dex_async_result_await_cb,
-                                   g_object_ref (async_result),
-                                   g_object_unref);
   g_mutex_lock (&async_result->mutex);
   g_assert (async_result->future == NULL);
-  async_result->future = g_steal_pointer (&new_future);
+  async_result->future = dex_ref (new_future);
   g_mutex_unlock (&async_result->mutex);
-  g_object_unref (async_result);
+
+  dex_future_disown (dex_future_finally (new_future,
+                                         dex_async_result_await_cb,
+                                         g_object_ref (async_result),
+                                         g_object_unref));
 }
 
 void
-- 
2.43.0


From 54ee33f1b47bb0be9c5a721560b0548e26f9d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 28/33] fix: unix-signal: release the future after completing
 it

The reference taken from the weak pointer was never given up, so every
future whose signal arrived was leaked.
---
 src/dex-unix-signal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dex-unix-signal.c b/src/dex-unix-signal.c
index 532110c..d5834c2 100644
--- a/src/dex-unix-signal.c
+++ b/src/dex-unix-signal.c
@@ -95,6 +95,7 @@ dex_unix_signal_source_func (gpointer data)
       g_value_init (&value, G_TYPE_INT);
       g_value_set_int (&value, unix_signal->signum);
       dex_future_complete (DEX_FUTURE (unix_signal), &value, NULL);
+      dex_unref (unix_signal);
     }
 
   return G_SOURCE_REMOVE;
-- 
2.43.0


From cd360353f5079d3249d056ba950489604a0835b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 29/33] fix: fd: hand out a descriptor only once

Fibers on different threads which await the same descriptor could both
take it, as stealing it was not atomic.
---
 src/dex-fd.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dex-fd.c b/src/dex-fd.c
index bf32bce..64817a1 100644
--- a/src/dex-fd.c
+++ b/src/dex-fd.c
@@ -30,16 +30,27 @@ dex_fd_peek (const DexFD *fd)
   if (fd == NULL)
     return -1;
 
-  return *(int *)fd;
+  return g_atomic_int_get ((int *)fd);
 }
 
 int
 dex_fd_steal (DexFD *fd)
 {
+  int real;
+
   if (fd == NULL)
     return -1;
 
-  return g_steal_fd ((int *)fd);
+  /* Fibers on different threads may await the same future */
+  do
+    {
+      real = g_atomic_int_get ((int *)fd);
+      if (real == -1)
+        return -1;
+    }
+  while (!g_atomic_int_compare_and_exchange ((int *)fd, real, -1));
+
+  return real;
 }
 
 void
-- 
2.43.0


From bdccf123f9aafb54910202978ec1dc41dde99122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 30/33] fix: semaphore: have the error of a closed eventfd
 semaphore at hand

The error was initialized with the class of the waiters, which are not
used with eventfd, so that waiting on a closed semaphore used an empty
error.
---
 src/dex-semaphore.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dex-semaphore.c b/src/dex-semaphore.c
index ef0240f..dc30b00 100644
--- a/src/dex-semaphore.c
+++ b/src/dex-semaphore.c
@@ -98,11 +98,6 @@ dex_semaphore_waiter_class_init (DexSemaphoreWaiterClass *semaphore_waiter_class
 {
   g_value_init (&semaphore_waiter_value, G_TYPE_BOOLEAN);
   g_value_set_boolean (&semaphore_waiter_value, TRUE);
-  semaphore_closed_error = (GError) {
-    .domain = DEX_ERROR,
-    .code = DEX_ERROR_SEMAPHORE_CLOSED,
-    .message = (char *)"Semaphore is closed",
-  };
 }
 
 static void
@@ -182,6 +177,13 @@ dex_semaphore_class_init (DexSemaphoreClass *semaphore_class)
 
   object_class->finalize = dex_semaphore_finalize;
 
+  /* The waiter class is not initialized when using eventfd */
+  semaphore_closed_error = (GError) {
+    .domain = DEX_ERROR,
+    .code = DEX_ERROR_SEMAPHORE_CLOSED,
+    .message = (char *)"Semaphore is closed",
+  };
+
   g_type_ensure (dex_semaphore_waiter_get_type ());
 }
 
-- 
2.43.0


From f3c621785419978b5329f8c72637a1b38ea7e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 31/33] fix: work-stealing-queue: release the queue with its
 source

---
 src/dex-work-stealing-queue.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dex-work-stealing-queue.c b/src/dex-work-stealing-queue.c
index ef58cca..0c13c0c 100644
--- a/src/dex-work-stealing-queue.c
+++ b/src/dex-work-stealing-queue.c
@@ -119,10 +119,19 @@ dex_work_stealing_queue_source_dispatch (GSource     *source,
   return G_SOURCE_CONTINUE;
 }
 
+static void
+dex_work_stealing_queue_source_finalize (GSource *source)
+{
+  DexWorkStealingQueueSource *real_source = (DexWorkStealingQueueSource *)source;
+
+  g_clear_pointer (&real_source->work_stealing_queue, dex_work_stealing_queue_unref);
+}
+
 static GSourceFuncs dex_work_stealing_queue_source_funcs = {
   .prepare = dex_work_stealing_queue_source_prepare,
   .check = dex_work_stealing_queue_source_check,
   .dispatch = dex_work_stealing_queue_source_dispatch,
+  .finalize = dex_work_stealing_queue_source_finalize,
 };
 
 GSource *
-- 
2.43.0


From efaad0d6182fba030bea07f8c6ed1ff1882f391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 32/33] fix: fiber: do not share the flag of the cancellation
 with other flags

Discarding a fiber sets the flag with the lock of the object held while
the fiber's scheduler updates the other flags of the same word with its
own lock held, or none. One of them could undo what the other did.
---
 src/dex-fiber-private.h | 7 ++++++-
 src/dex-fiber.c         | 6 ++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dex-fiber-private.h b/src/dex-fiber-private.h
index 7b33265..6b6f938 100644
--- a/src/dex-fiber-private.h
+++ b/src/dex-fiber-private.h
@@ -54,7 +54,12 @@ struct _DexFiber
   guint runnable : 1;
   guint exited : 1;
   guint released : 1;
-  guint cancelled : 1;
+
+  /* Set by whichever thread discards the fiber, which does not hold the
+   * lock of the DexFiberScheduler. It can not share its storage with the
+   * flags above, as updating one of them would write back all of them.
+   */
+  gint cancelled;
 
   /* The requested stack size */
   gsize stack_size;
diff --git a/src/dex-fiber.c b/src/dex-fiber.c
index e011f2b..364fe49 100644
--- a/src/dex-fiber.c
+++ b/src/dex-fiber.c
@@ -72,9 +72,7 @@ dex_fiber_discard (DexFuture *future)
 
   g_assert (DEX_IS_FIBER (fiber));
 
-  dex_object_lock (fiber);
-  fiber->cancelled = TRUE;
-  dex_object_unlock (fiber);
+  g_atomic_int_set (&fiber->cancelled, TRUE);
 }
 
 static gboolean
@@ -441,7 +439,7 @@ dex_fiber_await (DexFiber  *fiber,
   /* Move fiber from runnable to blocked queue */
   g_mutex_lock (&fiber_scheduler->mutex);
   fiber->runnable = FALSE;
-  cancelled = fiber->cancelled;
+  cancelled = g_atomic_int_get (&fiber->cancelled);
   g_queue_unlink (&fiber_scheduler->runnable, &fiber->link);
   g_queue_push_tail_link (&fiber_scheduler->blocked, &fiber->link);
   g_mutex_unlock (&fiber_scheduler->mutex);
-- 
2.43.0


From 03b2c78d782677800f9e8b21c563e6b918084294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 33/33] fix: aio: complete operations while a callback iterates
 the main context

The sources may be dispatched recursively, but completions were taken
from the ring or queue in batches. A callback that iterates the main
context until another operation has finished would never return if the
other one was further down in the same batch.
---
 src/dex-posix-aio-backend.c | 27 +++++++++++++++------------
 src/dex-uring-aio-backend.c | 36 +++++++++++++-----------------------
 2 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/src/dex-posix-aio-backend.c b/src/dex-posix-aio-backend.c
index 77b97fd..bc59086 100644
--- a/src/dex-posix-aio-backend.c
+++ b/src/dex-posix-aio-backend.c
@@ -93,29 +93,32 @@ dex_posix_aio_context_take (DexPosixAioContext *posix_aio_context,
   g_source_unref ((GSource *)posix_aio_context);
 }
 
-static inline void
-steal_queue (GQueue *from_queue,
-             GQueue *to_queue)
-{
-  *to_queue = *from_queue;
-  *from_queue = (GQueue) {NULL, NULL, 0};
-}
-
 static gboolean
 dex_posix_aio_context_dispatch (GSource     *source,
                                 GSourceFunc  callback,
                                 gpointer     user_data)
 {
   DexPosixAioContext *aio_context = (DexPosixAioContext *)source;
-  GQueue completed;
+  guint n_completed;
 
   g_mutex_lock (&aio_context->mutex);
-  steal_queue (&aio_context->completed, &completed);
+  n_completed = aio_context->completed.length;
   g_mutex_unlock (&aio_context->mutex);
 
-  while (completed.length > 0)
+  /* Take the futures one at a time. Completing one may iterate the main
+   * context again and that must be able to get at the others.
+   */
+  for (guint i = 0; i < n_completed; i++)
     {
-      DexPosixAioFuture *posix_aio_future = g_queue_pop_head (&completed);
+      DexPosixAioFuture *posix_aio_future;
+
+      g_mutex_lock (&aio_context->mutex);
+      posix_aio_future = g_queue_pop_head (&aio_context->completed);
+      g_mutex_unlock (&aio_context->mutex);
+
+      if (posix_aio_future == NULL)
+        break;
+
       dex_posix_aio_future_complete (posix_aio_future);
       dex_unref (posix_aio_future);
     }
diff --git a/src/dex-uring-aio-backend.c b/src/dex-uring-aio-backend.c
index 321775e..b322b30 100644
--- a/src/dex-uring-aio-backend.c
+++ b/src/dex-uring-aio-backend.c
@@ -98,10 +98,8 @@ dex_uring_aio_context_dispatch (GSource     *source,
                                 gpointer     user_data)
 {
   DexUringAioContext *aio_context = (DexUringAioContext *)source;
-  DexUringFuture *handledstack[32];
   struct io_uring_cqe *cqe;
   gint64 counter;
-  guint n_handled;
 
   if (g_source_query_unix_fd (source, aio_context->eventfdtag) & G_IO_IN)
     {
@@ -111,38 +109,25 @@ dex_uring_aio_context_dispatch (GSource     *source,
         }
     }
 
-again:
-  n_handled = 0;
+  /* Handle completions one at a time. Completing a future may iterate the
+   * main context again and that must be able to get at the others.
+   */
   while (io_uring_peek_cqe (&aio_context->ring, &cqe) == 0)
     {
       DexUringFuture *future = io_uring_cqe_get_data (cqe);
+
       dex_uring_future_cqe (future, cqe);
       io_uring_cqe_seen (&aio_context->ring, cqe);
-      handledstack[n_handled++] = future;
-
-      if G_UNLIKELY (n_handled == G_N_ELEMENTS (handledstack))
-        break;
-    }
 
-  if (n_handled > 0)
-    {
       g_mutex_lock (&aio_context->mutex);
-      for (guint i = 0; i < n_handled; i++)
-        g_queue_unlink (&aio_context->in_flight,
-                        dex_uring_future_get_link (handledstack[i]));
+      g_queue_unlink (&aio_context->in_flight,
+                      dex_uring_future_get_link (future));
       g_mutex_unlock (&aio_context->mutex);
-    }
 
-  for (guint i = 0; i < n_handled; i++)
-    {
-      DexUringFuture *future = handledstack[i];
       dex_uring_future_complete (future);
       dex_unref (future);
     }
 
-  if G_UNLIKELY (n_handled == G_N_ELEMENTS (handledstack))
-    goto again;
-
   return G_SOURCE_CONTINUE;
 }
 
@@ -163,6 +148,7 @@ dex_uring_aio_context_prepare (GSource *source,
                                int     *timeout)
 {
   DexUringAioContext *aio_context = (DexUringAioContext *)source;
+  struct io_uring_cqe *cqe;
   gboolean do_submit;
 
   g_assert (aio_context != NULL);
@@ -209,18 +195,22 @@ dex_uring_aio_context_prepare (GSource *source,
 
   g_mutex_unlock (&aio_context->mutex);
 
-  return io_uring_cq_ready (&aio_context->ring) > 0;
+  /* Unlike io_uring_cq_ready(), this considers completions which did not
+   * fit into the completion queue too.
+   */
+  return io_uring_peek_cqe (&aio_context->ring, &cqe) == 0;
 }
 
 static gboolean
 dex_uring_aio_context_check (GSource *source)
 {
   DexUringAioContext *aio_context = (DexUringAioContext *)source;
+  struct io_uring_cqe *cqe;
 
   g_assert (aio_context != NULL);
   g_assert (DEX_IS_URING_AIO_BACKEND (aio_context->parent.aio_backend));
 
-  return io_uring_cq_ready (&aio_context->ring) > 0;
+  return io_uring_peek_cqe (&aio_context->ring, &cqe) == 0;
 }
 
 static void
-- 
2.43.0

