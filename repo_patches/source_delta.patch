From 7cf7f4e54bd8f68ba771e2eda907d7d162a18460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 01/42] fix: rbtree_delete_fixup follows the sibling's colour
 and stops at the root

---
 src/rbtree/rbtree_delete_fixup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From af8fb436c8e9a3323742da6544de97504f841dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 02/42] fix: rbtree_swap leaves each tree with its own nil node

---
 src/rbtree/rbtree_swap.c | 80 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..47f4a5b 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -15,6 +15,12 @@
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+/* forward decls. */
+static void rbtree_nil_relocate(RCPR_SYM(rbtree)* tree);
+static void rbtree_nil_replace(
+    RCPR_SYM(rbtree_node)* n, const RCPR_SYM(rbtree_node)* old_nil,
+    RCPR_SYM(rbtree_node)* new_nil);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -46,7 +52,81 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each tree must use its own embedded nil node. */
+    rbtree_nil_relocate(left);
+    rbtree_nil_relocate(right);
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief Make a tree whose structure was just copied from another instance use
+ * its own embedded nil node.
+ *
+ * \param tree          The tree to update.
+ */
+static void rbtree_nil_relocate(RCPR_SYM(rbtree)* tree)
+{
+    rbtree_node* old_nil = tree->nil;
+    rbtree_node* new_nil = &tree->nil_impl;
+
+    /* nothing to do if this tree already uses its own nil node. */
+    if (old_nil == new_nil)
+    {
+        return;
+    }
+
+    /* fix up the nil node. */
+    new_nil->parent = new_nil;
+    new_nil->left = new_nil;
+    new_nil->right = new_nil;
+    new_nil->value = rbtree_node_resource_handle(new_nil);
+    tree->nil = new_nil;
+
+    /* fix up the nodes in the tree. */
+    if (tree->root == old_nil)
+    {
+        tree->root = new_nil;
+    }
+    else
+    {
+        rbtree_nil_replace(tree->root, old_nil, new_nil);
+    }
+}
+
+/**
+ * \brief Replace all references to the old nil node in the given subtree.
+ *
+ * \param n             The root of this subtree.
+ * \param old_nil       The nil node to replace.
+ * \param new_nil       The replacement nil node.
+ */
+static void rbtree_nil_replace(
+    RCPR_SYM(rbtree_node)* n, const RCPR_SYM(rbtree_node)* old_nil,
+    RCPR_SYM(rbtree_node)* new_nil)
+{
+    if (n->parent == old_nil)
+    {
+        n->parent = new_nil;
+    }
+
+    if (n->left == old_nil)
+    {
+        n->left = new_nil;
+    }
+    else
+    {
+        rbtree_nil_replace(n->left, old_nil, new_nil);
+    }
+
+    if (n->right == old_nil)
+    {
+        n->right = new_nil;
+    }
+    else
+    {
+        rbtree_nil_replace(n->right, old_nil, new_nil);
+    }
+}
-- 
2.43.0


From 37c63222d18b7f57bba0c10bd6abac05da66a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 03/42] fix: slist_swap and list_swap re-parent the swapped
 nodes

---
 src/list/list_swap.c   | 10 ++++++++++
 src/slist/slist_swap.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..37e8842 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* the nodes now belong to the other list. */
+    for (list_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (list_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..e8d1143 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* the nodes now belong to the other list. */
+    for (slist_node* n = left->head; NULL != n; n = n->next)
+    {
+        n->parent = left;
+    }
+    for (slist_node* n = right->head; NULL != n; n = n->next)
+    {
+        n->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
-- 
2.43.0


From 6c26f9397271b8a3f5e1aa43e2db806c66d7b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 04/42] fix: fiber_discipline_yield rejects the event one past
 the last callback

---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From b93149f561b55340e4fef3e9e513b54274d1e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 05/42] fix: releasing a disciplined scheduler reclaims its
 context

---
 .../common/fiber_scheduler_create_with_disciplines.c      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..3a415a8 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -492,6 +492,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status context_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -550,6 +551,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context structure itself. */
+    context_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -577,6 +581,10 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     {
         return context_vector_retval;
     }
+    else if (STATUS_SUCCESS != context_retval)
+    {
+        return context_retval;
+    }
     else
     {
         return STATUS_SUCCESS;
-- 
2.43.0


From f3d9a7428791081811ac126a099fe75d6c2baeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 06/42] fix: fiber_scheduler_create_with_disciplines reports a
 failed creation

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 3a415a8..7d60be6 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -349,7 +349,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 59e0f48251af2f019ef1dcfbc1394c3f2943a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 07/42] fix: a failed fiber_scheduler_discipline_add leaves the
 discipline with the caller

---
 .../common/fiber_scheduler_discipline_add.c    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..083524d 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -53,7 +53,7 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
     RCPR_SYM(fiber_scheduler)* sched,
     RCPR_SYM(fiber_scheduler_discipline)* disc)
 {
-    status retval;
+    status retval, release_retval;
     fiber_scheduler_disciplined_context* ctx = NULL;
 
     /* parameter sanity checks. */
@@ -119,7 +119,7 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
     /* did the (re)allocation fail? */
     if (STATUS_SUCCESS != retval)
     {
-        return retval;
+        goto remove_discipline;
     }
 
     /* create or reallocate the callback context vector to hold the context. */
@@ -141,7 +141,7 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
     /* did the (re)allocation fail? */
     if (STATUS_SUCCESS != retval)
     {
-        return retval;
+        goto remove_discipline;
     }
 
     /* update the callback vector size. */
@@ -160,4 +160,16 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
 
     /* success. */
     return STATUS_SUCCESS;
+
+remove_discipline:
+    /* the caller still owns the discipline, so take it out of the tree. */
+    release_retval =
+        rbtree_delete(
+            &discipline_resource, ctx->disciplines_by_uuid, &disc->id);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        return release_retval;
+    }
+
+    return retval;
 }
-- 
2.43.0


From d9267ca770f983969b570cd687973169b4e5e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 08/42] fix: a scheduler whose creation failed can be released

---
 .../common/fiber_scheduler_create_with_disciplines.c  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 7d60be6..2074cf0 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -988,10 +988,13 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_param;
 
     /* insert the yielding fiber into the beginning of the run queue. */
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL);
+    /* we must do this by hand because ctx->sched is not set if the scheduler
+     * could not be fully created. */
+    yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
+    yield_fib->restore_reason_code =
+        FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
+    yield_fib->restore_param = NULL;
+    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
 }
 
 /**
-- 
2.43.0


From 15c34a034856522b6b7aeab6f0a2669f3e7145ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 09/42] fix: a mailbox or conditional that could not be
 inserted is reported as failed

---
 .../fiber/condition_discipline_create_callback_handler.c        | 2 +-
 .../message_discipline_mailbox_create_callback_handler.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..27b04e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..122377b 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From f58ba753a926498257849cda297ed7a518ea910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 10/42] fix: an idle fiber added to its scheduler is released
 once

---
 .../common/fiber_scheduler_create_with_disciplines.c  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 2074cf0..52b8844 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -504,6 +504,17 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     /* cache the allocator. */
     allocator* alloc = ctx->alloc;
 
+    /* if the idle fiber was added to this scheduler, then it is released with
+     * the other fibers. */
+    resource* idle_fiber_resource = NULL;
+    if (NULL != ctx->idle_fiber
+     && STATUS_SUCCESS ==
+            rbtree_find(
+                &idle_fiber_resource, ctx->fibers_by_pointer, ctx->idle_fiber))
+    {
+        ctx->idle_fiber = NULL;
+    }
+
     /* release the fibers by pointer tree, releasing all fibers still associated
      * with it. */
     fibers_by_pointer_retval =
-- 
2.43.0


From 392754f726cd975949ae40e12690a79ad981bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 11/42] fix: a failed fiber_scheduler_add leaves the fiber with
 the caller

---
 .../fiber_scheduler_create_with_disciplines.c | 71 ++++++++++++-------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 52b8844..ea0871d 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -837,7 +837,8 @@ static status fiber_scheduler_disciplined_main_callback_handler(
 static status fiber_scheduler_disciplined_add_fiber_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, undo_retval;
+    resource* dummy = NULL;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* new_fib = (fiber*)yield_param;
@@ -859,25 +860,6 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
         return retval;
     }
 
-    /* append this fiber to the run queue. */
-    retval =
-        disciplined_fiber_scheduler_add_fiber_to_run_queue(
-            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
-    if (STATUS_SUCCESS != retval)
-    {
-        /* remove the fiber from the tree before returning an error status. */
-        resource* dummy = NULL;
-        status delete_retval = rbtree_delete(
-            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
-
-        /* return the last error code to occur. */
-        if (STATUS_SUCCESS != delete_retval)
-            return delete_retval;
-        else
-            return retval;
-    }
-
     /* insert the yielding fiber into the beginning of the run queue. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -885,9 +867,7 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
             FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
     if (STATUS_SUCCESS != retval)
     {
-        /* bubble up the error. */
-        /* TODO - deal with ownership issues for added fiber. */
-        return retval;
+        goto remove_new_fiber;
     }
 
     /* if the management fiber exists, */
@@ -902,15 +882,54 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
                 new_fib);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            goto remove_yield_fiber;
         }
+    }
 
-        /* clear the management fiber until it yields again. */
-        ctx->management_fiber = NULL;
+    /* append the new fiber to the run queue. */
+    retval =
+        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
+            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto remove_management_fiber;
     }
 
+    /* clear the management fiber until it yields again. */
+    ctx->management_fiber = NULL;
+
     /* success. */
     return STATUS_SUCCESS;
+
+remove_management_fiber:
+    if (NULL != ctx->management_fiber)
+    {
+        undo_retval = queue_pop(ctx->run_queue, &dummy);
+        if (STATUS_SUCCESS != undo_retval)
+        {
+            return undo_retval;
+        }
+    }
+
+remove_yield_fiber:
+    undo_retval = queue_pop(ctx->run_queue, &dummy);
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        return undo_retval;
+    }
+
+remove_new_fiber:
+    /* the caller still owns the new fiber, so take it out of the tree. */
+    undo_retval =
+        rbtree_delete(
+            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        return undo_retval;
+    }
+
+    return retval;
 }
 
 /**
-- 
2.43.0


From 7c8d1a0b9e0bc50527eb298de37b50584efee727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 12/42] fix: psock_br_create_from_psock reports a failed buffer
 allocation

---
 src/psock/psock_br_create_from_psock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..852bcfc 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -129,7 +129,7 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From a330b9c7eabe46d8d7655fb28807901555a4eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 13/42] fix: a blocking descriptor read continues until all
 bytes are read

---
 src/psock/psock_from_descriptor_read.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/psock/psock_from_descriptor_read.c b/src/psock/psock_from_descriptor_read.c
index 5b39baf..643db7b 100644
--- a/src/psock/psock_from_descriptor_read.c
+++ b/src/psock/psock_from_descriptor_read.c
@@ -23,7 +23,7 @@ RCPR_IMPORT_psock_internal;
  * \param ctx           User context (ignored).
  * \param data          Pointer to the buffer into which data should be read.
  * \param size          Pointer to the size to read, updated with the size read.
- * \param block         Ignored for raw descriptor reads.
+ * \param block         If true, a stream is read until all bytes are read.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
@@ -33,7 +33,6 @@ status RCPR_SYM(psock_from_descriptor_read)(
     RCPR_SYM(psock)* sock, void* ctx, void* data, size_t* size, bool block)
 {
     (void)ctx;
-    (void)block;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -58,8 +57,23 @@ status RCPR_SYM(psock_from_descriptor_read)(
         }
     }
 
+    /* a blocking read continues until all bytes of a stream are read. */
+    size_t read_size = (size_t)retval;
+    while (
+        block && PSOCK_SOCKET_TYPE_DATAGRAM != sock->socktype
+     && retval > 0 && read_size < *size)
+    {
+        retval =
+            read(
+                s->descriptor, (uint8_t*)data + read_size, *size - read_size);
+        if (retval > 0)
+        {
+            read_size += (size_t)retval;
+        }
+    }
+
     /* save the size read. */
-    *size = (size_t)retval;
+    *size = read_size;
 
     /* success, but the read might have been truncated; that's up to the
      * caller to sort out.
-- 
2.43.0


From 47e88615e757492fff8813245c38b843a18e5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 14/42] fix: an empty read at the end of a buffer psock
 succeeds

---
 src/psock/psock_from_buffer_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_from_buffer_read.c b/src/psock/psock_from_buffer_read.c
index 8dc8217..9017629 100644
--- a/src/psock/psock_from_buffer_read.c
+++ b/src/psock/psock_from_buffer_read.c
@@ -46,6 +46,12 @@ status RCPR_SYM(psock_from_buffer_read)(
     /* cast to the derived type. */
     psock_from_buffer* pb = (psock_from_buffer*)sock;
 
+    /* an empty read always succeeds. */
+    if (0 == *size)
+    {
+        return STATUS_SUCCESS;
+    }
+
     /* if we are at EOF, return EOF. */
     if (NULL == pb->input_buffer
      || pb->buffer_read_offset >= pb->input_buffer_size)
-- 
2.43.0


From 20cc64fe78ce55d4cc30db72ef4a2c94ca2f0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 15/42] fix: a short async read is delivered before the end of
 the stream

---
 src/psock/psock_wrap_async_read.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_wrap_async_read.c b/src/psock/psock_wrap_async_read.c
index 9f3c049..825b497 100644
--- a/src/psock/psock_wrap_async_read.c
+++ b/src/psock/psock_wrap_async_read.c
@@ -95,6 +95,12 @@ status RCPR_SYM(psock_wrap_async_read)(
                 return retval;
             }
         }
+        /* a short read is delivered before an error or the end is reported. */
+        else if (!block && *size > 0
+              && (STATUS_SUCCESS != retval || 0 == tmp_size))
+        {
+            return STATUS_SUCCESS;
+        }
         /* if a different error occurred in the read, return it.*/
         else if (STATUS_SUCCESS != retval)
         {
-- 
2.43.0


From dd77c1c69391bcd615bded90799b918a2477dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 16/42] fix: a buffered reader delivers buffered bytes before
 filling

---
 src/psock/psock_br_psock_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..3391bb5 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -49,8 +49,8 @@ status RCPR_SYM(psock_br_psock_read)(
     uint8_t* bdata = (uint8_t*)data;
 
     do {
-        /* attempt to fill the buffer if we don't have enough bytes. */
-        if (available_bytes < requested_bytes)
+        /* attempt to fill the buffer if we don't have any bytes. */
+        if (0 == available_bytes && requested_bytes > 0)
         {
             retval = psock_br_fill(br);
             if (STATUS_SUCCESS != retval)
-- 
2.43.0


From a56cc34d2a2fc39c8da22bbb5d719d1437dc6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 17/42] fix: a hang-up or error wakes fibers blocked on an
 async psock

---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..96d3b07 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -70,6 +70,12 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             memset(&event, 0, sizeof(event));
             event.events = EPOLLONESHOT;
 
+            /* an error or hang-up wakes any blocked reader or writer. */
+            if (filter & (EPOLLERR | EPOLLHUP))
+            {
+                filter |= EPOLLIN | EPOLLOUT;
+            }
+
             /* check for a read resume event. */
             if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
             {
-- 
2.43.0


From 9d125d2976c21bb56bec98a877bd47d101b56a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 18/42] fix: a buffer psock write that runs out of memory keeps
 the output consistent

---
 src/psock/psock_from_buffer_write.c | 48 ++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..f726bd3 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -53,6 +53,7 @@ status RCPR_SYM(psock_from_buffer_write)(
     size_t total_size = 0;
     psock_output_buffer_node* ob = NULL;
     void* large_buffer = NULL;
+    void* next_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -91,6 +92,14 @@ status RCPR_SYM(psock_from_buffer_write)(
      * the buffer. */
     if (pb->buffer_write_offset >= pb->output_buffer_size)
     {
+        /* allocate memory for the new buffer. */
+        retval =
+            allocator_allocate(sock->alloc, &next_buffer, PSOCK_BUFFER_SIZE);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto rollback_copy;
+        }
+
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
@@ -98,7 +107,7 @@ status RCPR_SYM(psock_from_buffer_write)(
                 pb->output_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto cleanup_next_buffer;
         }
 
         /* append this to the tail of the queue. */
@@ -112,23 +121,13 @@ status RCPR_SYM(psock_from_buffer_write)(
             {
                 retval = release_retval;
             }
-            goto done;
+            goto cleanup_next_buffer;
         }
 
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
+        /* the new buffer is now the output current buffer. */
+        pb->output_curr_buffer = next_buffer;
         pb->output_buffer_size = PSOCK_BUFFER_SIZE;
         pb->buffer_write_offset = 0;
-
-        /* allocate memory for the new buffer. */
-        retval =
-            allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
     }
 
     /* if the remaining size is greater than the current output buffer size,
@@ -139,7 +138,7 @@ status RCPR_SYM(psock_from_buffer_write)(
         retval = allocator_allocate(sock->alloc, (void**)&large_buffer, *size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto partial_write;
         }
 
         /* copy data to this buffer. */
@@ -199,8 +198,27 @@ cleanup_large_buffer:
     {
         retval = release_retval;
     }
+
+partial_write:
+    /* report any bytes already placed in the output as written. */
+    if (total_size > 0)
+    {
+        *size = total_size;
+        pb->output_buffer_total_size += total_size;
+        retval = STATUS_SUCCESS;
+    }
     goto done;
 
+cleanup_next_buffer:
+    release_retval = allocator_reclaim(sock->alloc, next_buffer);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
+rollback_copy:
+    pb->buffer_write_offset -= copy_size;
+
 done:
     return retval;
 }
-- 
2.43.0


From d73720ac1162141e7feb8f70582cc9a56e2689b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 19/42] fix: bump_allocator_allocate rejects sizes that
 overflow

---
 src/allocator/bump_allocator_create.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..37578d5 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -185,8 +185,9 @@ static status bump_allocator_allocate(
     /* verify that this computed offset does not exceed the total size of this
      * memory region. */
     size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    if (bump_offset < size || bump_offset >= bump->max_size)
     {
+        *ptr = NULL;
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 96d891a47e14af6917c77905dd086e281080959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 20/42] fix: setfds keeps a descriptor that is already in place

---
 src/socket_utilities/vsocket_utility_setfds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..3d03004 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -44,8 +44,11 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
             goto done;
         }
 
-        /* close the old fd. */
-        close(curr);
+        /* close the old fd, unless it is already in place. */
+        if (curr != mapped)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From 7330e26cfd75f08228aa0f471ed9d1797af3bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 21/42] fix: move_descriptors neither closes nor overwrites
 descriptors already at the threshold

---
 .../vsocket_utility_move_descriptors.c        | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..c87b5a3 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <fcntl.h>
 #include <rcpr/socket_utilities.h>
 #include <stddef.h>
 #include <unistd.h>
@@ -53,23 +54,25 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
-        /* Move the descriptor to the threshold or above */
-        new_fd = dup2(old_fd, threshold);
-        if (new_fd < 0)
+        /* Move the descriptor to the threshold or above, unless it is there */
+        if (old_fd < threshold)
         {
-            retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
-            goto done;
-        }
+            new_fd = fcntl(old_fd, F_DUPFD, threshold);
+            if (new_fd < 0)
+            {
+                retval = ERROR_SOCKET_UTILITIES_DUP2_FAILURE;
+                goto done;
+            }
 
-        /* Close the old file descriptor */
-        close(old_fd);
+            /* Close the old file descriptor */
+            close(old_fd);
 
-        /* Update the descriptor to point to the new location */
-        *curr = threshold;
+            /* Update the descriptor to point to the new location */
+            *curr = new_fd;
+        }
 
         /* Advance to next descriptor */
         curr = va_arg(args, int*);
-        threshold++;
     }
 
     retval = STATUS_SUCCESS;
-- 
2.43.0


From 3e44eb568fba0f4b771d80508339764678c9e194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 22/42] fix: a fiber that returns with nothing left to run
 exits with its status

---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..ab001ad 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    mov $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0


From a7850d929310d6e90360ce9fbbfbcc4617cd51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 23/42] fix: a buffered reader over an async psock waits for
 data

---
 src/psock/psock_br_fill.c       | 13 ++++++++++++-
 src/psock/psock_br_psock_read.c |  2 +-
 src/psock/psock_br_read_line.c  |  2 +-
 src/psock/psock_internal.h      |  8 +++++---
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 205e2d2..b8a50c3 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -20,13 +20,15 @@ RCPR_IMPORT_resource;
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         True if this should block until at least one byte is
+ *                      read.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br)
+    RCPR_SYM(psock_br)* br, bool block)
 {
     status retval;
     const psock_vtable* wrapped_vtable;
@@ -64,6 +66,15 @@ status RCPR_SYM(psock_br_fill)(
         wrapped_vtable->read_fn(
             br->wrapped, br->wrapped->context, br->buffer + br->current_size,
             &read_bytes, false);
+    if (ERROR_PSOCK_READ_WOULD_BLOCK == retval && block)
+    {
+        /* wait for the next byte. */
+        read_bytes = 1;
+        retval =
+            wrapped_vtable->read_fn(
+                br->wrapped, br->wrapped->context,
+                br->buffer + br->current_size, &read_bytes, true);
+    }
     if (STATUS_SUCCESS != retval)
     {
         goto done;
diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index 3391bb5..ff7a746 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -52,7 +52,7 @@ status RCPR_SYM(psock_br_psock_read)(
         /* attempt to fill the buffer if we don't have any bytes. */
         if (0 == available_bytes && requested_bytes > 0)
         {
-            retval = psock_br_fill(br);
+            retval = psock_br_fill(br, block);
             if (STATUS_SUCCESS != retval)
             {
                 /* update size with the number of read bytes. */
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index c098a91..8440368 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -158,7 +158,7 @@ RCPR_SYM(psock_br_read_line)(
             /* attempt to fill the buffer, if the error flag is not set. */
             if (!br->error)
             {
-                retval = psock_br_fill(br);
+                retval = psock_br_fill(br, true);
                 if (STATUS_SUCCESS != retval)
                 {
                     /* if we encounter an error, set the error flag. */
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index bc03c6b..809f45d 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -567,13 +567,15 @@ status RCPR_SYM(psock_br_psock_recvmsg)(
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         True if this should block until at least one byte is
+ *                      read.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br);
+    RCPR_SYM(psock_br)* br, bool block);
 
 /**
  * \brief Release a psock_br resource.
@@ -698,8 +700,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(psock)* v, void* w, struct msghdr* x, size_t* y, int z) { \
             return RCPR_SYM(psock_br_psock_recvmsg)(v,w,x,y,z); } \
     static inline status psock_br_fill( \
-        RCPR_SYM(psock_br)* x) { \
-            return RCPR_SYM(psock_br_fill)(x); }\
+        RCPR_SYM(psock_br)* x, bool y) { \
+            return RCPR_SYM(psock_br_fill)(x,y); }\
     static inline status psock_br_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(psock_br_release)(x); } \
-- 
2.43.0


From 98df690bab02243a8988fdfad8798b532e7240fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 24/42] fix: psock_write_boxed_data rejects sizes that do not
 fit the length field

---
 src/psock/psock_write_boxed_data.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psock/psock_write_boxed_data.c b/src/psock/psock_write_boxed_data.c
index 93b414f..b1f08a4 100644
--- a/src/psock/psock_write_boxed_data.c
+++ b/src/psock/psock_write_boxed_data.c
@@ -55,6 +55,12 @@ RCPR_SYM(psock_write_boxed_data)(
     RCPR_MODEL_ASSERT(NULL != data);
     RCPR_MODEL_ASSERT(data_size <= UINT32_MAX);
 
+    /* verify that the size can be encoded. */
+    if (data_size > UINT32_MAX)
+    {
+        return ERROR_PSOCK_WRITE_INVALID_SIZE;
+    }
+
     /* attempt to write the type to the socket. */
     retval = psock_write_raw_uint32(sock, PSOCK_BOXED_TYPE_DATA);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 1a7d94a20fdc2b894a11ac4d7ac07ce0f24df9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 25/42] fix: a failed psock_create_wrap_async left the I/O
 discipline without an idle fiber

---
 src/psock/psock_create_wrap_async.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..e86ae1a 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -295,22 +295,27 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler. From here on, the scheduler owns
+     * the discipline. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        release_retval = resource_release(fiber_resource_handle(idle_fiber));
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+
+        goto cleanup_discipline;
     }
 
     /* set the idle fiber. */
-- 
2.43.0


From 22d8212749f233904a951c890a7bc498206739f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 26/42] fix: a resumed fiber forgot another fiber that blocked
 on the same psock

---
 src/psock/psock_read_block.c  | 8 ++++++--
 src/psock/psock_write_block.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..ba711ce 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -102,8 +102,12 @@ RCPR_SYM(psock_read_block)(
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->read_block_fib = NULL;
+         * blocked. Another fiber could have blocked for reading since this fiber
+         * was added to the run queue; don't forget that one. */
+        if (current_fib == s->read_block_fib)
+        {
+            s->read_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..6e51b33 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -99,8 +99,12 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->write_block_fib = NULL;
+         * blocked. Another fiber could have blocked for writing since this fiber
+         * was added to the run queue; don't forget that one. */
+        if (current_fib == s->write_block_fib)
+        {
+            s->write_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 5aaccae9dd8dd5be1325cef1104580f32d3b28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 27/42] fix: a failed UUID parse overwrote part of the caller's
 value

The documentation promises that the value is not changed on failure, but
every byte was stored as soon as it was read.  Parse into a local value and
copy it once the whole string was accepted.
---
 src/uuid/rcpr_uuid_parse_raw_string.c | 34 ++++++++++++++-------------
 src/uuid/rcpr_uuid_parse_string.c     | 34 ++++++++++++++-------------
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/uuid/rcpr_uuid_parse_raw_string.c b/src/uuid/rcpr_uuid_parse_raw_string.c
index b4ef9e4..502ec77 100644
--- a/src/uuid/rcpr_uuid_parse_raw_string.c
+++ b/src/uuid/rcpr_uuid_parse_raw_string.c
@@ -53,6 +53,7 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str, size_t length)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -65,44 +66,45 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     if (36 != length) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
diff --git a/src/uuid/rcpr_uuid_parse_string.c b/src/uuid/rcpr_uuid_parse_string.c
index d18f04a..2f95db2 100644
--- a/src/uuid/rcpr_uuid_parse_string.c
+++ b/src/uuid/rcpr_uuid_parse_string.c
@@ -48,6 +48,7 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -57,47 +58,48 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     if (NULL == str) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* finally, if the string is not empty, this fails. */
     if (0 != *str) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
-- 
2.43.0


From c407227c7c08d2a9ba66dae441af14e477865ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 28/42] fix: reallocating to zero bytes freed the block while
 reporting failure

realloc(ptr, 0) frees ptr and returns NULL, which was reported as out of
memory with the caller's pointer unchanged; reclaiming it, as documented,
was then a double free.
---
 src/allocator/malloc_allocator_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/allocator/malloc_allocator_create.c b/src/allocator/malloc_allocator_create.c
index 4f43872..165e5ab 100644
--- a/src/allocator/malloc_allocator_create.c
+++ b/src/allocator/malloc_allocator_create.c
@@ -243,8 +243,8 @@ static status malloc_allocator_reallocate(
     RCPR_MODEL_ASSERT(property_allocator_valid(alloc));
     RCPR_MODEL_ASSERT(NULL != ptr);
 
-    /* attempt to reallocate memory. */
-    void* newptr = realloc(*ptr, size);
+    /* attempt to reallocate memory. A size of zero would free this memory. */
+    void* newptr = realloc(*ptr, size > 0 ? size : 1);
     if (NULL == newptr)
     {
         return ERROR_GENERAL_OUT_OF_MEMORY;
-- 
2.43.0


From df5ff0f8bfbc7e4ef701e710aad50e292773b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 29/42] fix: swapping lists or trees keeps each instance's own
 allocator

---
 src/list/list_swap.c     | 4 ++++
 src/rbtree/rbtree_swap.c | 4 ++++
 src/slist/slist_swap.c   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 37e8842..c36672a 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,10 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance keeps the allocator from which it was allocated. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* the nodes now belong to the other list. */
     for (list_node* n = left->head; NULL != n; n = n->next)
     {
diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 47f4a5b..03de6cc 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -52,6 +52,10 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance keeps the allocator from which it was allocated. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* each tree must use its own embedded nil node. */
     rbtree_nil_relocate(left);
     rbtree_nil_relocate(right);
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index e8d1143..3a6628d 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,10 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each instance keeps the allocator from which it was allocated. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* the nodes now belong to the other list. */
     for (slist_node* n = left->head; NULL != n; n = n->next)
     {
-- 
2.43.0


From 591db8a072d3d30c113ddb478dbfa08b2b03e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 30/42] fix: a mailbox or conditional whose creator could not
 be resumed is not left behind

---
 ...ition_discipline_create_callback_handler.c | 25 ++++++++++++++-----
 ...scipline_mailbox_create_callback_handler.c | 25 ++++++++++++++-----
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index 27b04e8..32f0a61 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -67,15 +67,29 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
         goto cleanup_condition_barrier;
     }
 
+    /* resume the yielding fiber with the new conditional. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_SUCCESS,
+            (void*)((ptrdiff_t)cond));
+    if (STATUS_SUCCESS != retval)
+    {
+        /* the fiber is told that the conditional wasn't created, so remove it. */
+        release_retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+
+        return retval;
+    }
+
     /* increment the address on success. */
     ++ctx->index;
 
-    /* set the resume parameters. */
-    resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_SUCCESS;
-    resume_param = (void*)((ptrdiff_t)cond);
-
     /* success. */
-    goto done;
+    return STATUS_SUCCESS;
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
@@ -88,7 +102,6 @@ resume_fail:
     resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CREATE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 122377b..6fc23fc 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -67,15 +67,29 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
         goto cleanup_mailbox;
     }
 
+    /* resume the yielding fiber with the new mailbox. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_SUCCESS,
+            (void*)((ptrdiff_t)addr));
+    if (STATUS_SUCCESS != retval)
+    {
+        /* the fiber is told that the mailbox wasn't created, so remove it. */
+        release_retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
+        if (STATUS_SUCCESS != release_retval)
+        {
+            retval = release_retval;
+        }
+
+        return retval;
+    }
+
     /* increment the address on success. */
     ++ctx->index;
 
-    /* set the resume parameters. */
-    resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_SUCCESS;
-    resume_param = (void*)((ptrdiff_t)addr);
-
     /* success. */
-    goto done;
+    return STATUS_SUCCESS;
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
@@ -88,7 +102,6 @@ resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CREATE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From 3b8236aafb7c01b045904829e7bf6dfa858260b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 31/42] fix: a mailbox or conditional stays open when its
 closer could not be resumed

---
 ...dition_discipline_close_callback_handler.c | 33 +++++++++++++++----
 ...iscipline_mailbox_close_callback_handler.c | 31 +++++++++++++----
 2 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_close_callback_handler.c b/src/condition/fiber/condition_discipline_close_callback_handler.c
index 1c4fdd4..c8db1d8 100644
--- a/src/condition/fiber/condition_discipline_close_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_close_callback_handler.c
@@ -10,12 +10,14 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../../fiber/common/fiber_internal.h"
 #include "../condition_internal.h"
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
 RCPR_IMPORT_condition_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 
 /**
  * \brief The callback handler for a close conditional request.
@@ -34,6 +36,7 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    resource* r;
     int resume_event;
     void* resume_param;
 
@@ -48,25 +51,41 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_condition_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(cond > 0);
 
-    /* Attempt to delete the condition barrier. */
-    retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
+    /* the conditional must exist. */
+    retval = rbtree_find(&r, ctx->condition_barriers, &cond);
     if (STATUS_SUCCESS != retval)
     {
         goto resume_fail;
     }
 
-    /* set the resume parameters on success. */
-    resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS;
-    resume_param = (void*)((ptrdiff_t)STATUS_SUCCESS);
+    /* schedule the yielding fiber before anything is changed. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_SUCCESS,
+            (void*)((ptrdiff_t)STATUS_SUCCESS));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
+    /* Attempt to delete the conditional. */
+    retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
+    if (STATUS_SUCCESS != retval)
+    {
+        /* resume the yielding fiber with this error instead. */
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
+    }
 
     /* success. */
-    goto done;
+    return STATUS_SUCCESS;
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_CONDITION_RESUME_EVENT_CLOSE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
diff --git a/src/message/message_discipline_mailbox_close_callback_handler.c b/src/message/message_discipline_mailbox_close_callback_handler.c
index 06a93df..2e882a8 100644
--- a/src/message/message_discipline_mailbox_close_callback_handler.c
+++ b/src/message/message_discipline_mailbox_close_callback_handler.c
@@ -10,12 +10,14 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
 RCPR_IMPORT_message_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 
 /**
  * \brief The callback handler for a close mailbox request.
@@ -34,6 +36,7 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    resource* r;
     int resume_event;
     void* resume_param;
 
@@ -48,25 +51,39 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_message_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(addr > 0);
 
-    /* Attempt to delete the mailbox. */
-    retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
+    /* the mailbox must exist. */
+    retval = rbtree_find(&r, ctx->mailboxes, &addr);
     if (STATUS_SUCCESS != retval)
     {
         goto resume_fail;
     }
 
-    /* set the resume parameters on success. */
-    resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE;
-    resume_param = (void*)((ptrdiff_t)STATUS_SUCCESS);
+    /* schedule the yielding fiber before anything is changed. */
+    retval =
+        disciplined_fiber_scheduler_set_next_fiber_to_run(
+            ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE,
+            (void*)((ptrdiff_t)STATUS_SUCCESS));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
+    /* Attempt to delete the mailbox. */
+    retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
+    if (STATUS_SUCCESS != retval)
+    {
+        /* resume the yielding fiber with this error instead. */
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
+    }
 
     /* success. */
-    goto done;
+    return STATUS_SUCCESS;
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MAILBOX_CLOSE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From 2b9c55df06bee9a4947ef78bf8a91d1faf6406de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 32/42] fix: a message is not lost when its receiver could not
 be resumed

---
 ...cipline_message_receive_callback_handler.c | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/message/message_discipline_message_receive_callback_handler.c b/src/message/message_discipline_message_receive_callback_handler.c
index 8333644..831c18a 100644
--- a/src/message/message_discipline_message_receive_callback_handler.c
+++ b/src/message/message_discipline_message_receive_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -78,33 +79,42 @@ status RCPR_SYM(message_discipline_message_receive_callback_handler)(
     /* otherwise, give the next queue message to the fiber. */
     else
     {
+        /* schedule the fiber while the message is still in the queue, so that
+         * the message isn't lost if this fails. */
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                NULL);
+        if (STATUS_SUCCESS != retval)
+        {
+            return retval;
+        }
+
         /* pop the first message off of the queue. */
         resource* msgresource;
         retval = queue_pop(mbox->message_queue, &msgresource);
         if (STATUS_SUCCESS != retval)
         {
             /* couldn't pop a message off of the queue. */
-            resume_event =
+            yield_fib->restore_reason_code =
                 FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
         else
         {
             /* encode the popped message in the resume arguments. */
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            yield_fib->restore_param = msgresource;
         }
 
-        /* resume the thread. */
-        goto done;
+        /* success. */
+        return STATUS_SUCCESS;
     }
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From 80a9af2654e36c284f02cfa97aef227946909b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 33/42] fix: a message that could not be sent stays with its
 sender

---
 ...discipline_message_send_callback_handler.c | 55 ++++++++-----------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/message/message_discipline_message_send_callback_handler.c b/src/message/message_discipline_message_send_callback_handler.c
index 50680f4..3b1af26 100644
--- a/src/message/message_discipline_message_send_callback_handler.c
+++ b/src/message/message_discipline_message_send_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -68,13 +69,6 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     /* mailbox sanity check. */
     RCPR_MODEL_ASSERT(prop_mailbox_valid(mbox));
 
-    /* append the message to the end of the mail queue. */
-    retval = queue_append(mbox->message_queue, &msg->hdr);
-    if (STATUS_SUCCESS != retval)
-    {
-        goto resume_fail;
-    }
-
     /* message sent, so tell the original fiber to restart. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -87,40 +81,37 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     }
 
     /* if there is a blocked fiber on this mailbox, set it as the next fiber to
-     * run. */
+     * run and give it this message; it is only blocked if the queue is empty. */
     if (NULL != mbox->blocked_fiber)
     {
-        fiber* receive_fiber = mbox->blocked_fiber;
-        mbox->blocked_fiber = NULL;
-
-        /* pop the next message off of the queue. */
-        resource* msgresource;
-        retval = queue_pop(mbox->message_queue, &msgresource);
-        if (STATUS_SUCCESS != retval)
-        {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
-        }
-        else
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                &msg->hdr);
+        if (STATUS_SUCCESS == retval)
         {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            mbox->blocked_fiber = NULL;
         }
-
-        return
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, receive_fiber,
-                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, resume_event,
-                resume_param);
     }
-    /* otherwise, leave the message on the queue. */
+    /* otherwise, append the message to the end of the mail queue. */
     else
     {
-        return STATUS_SUCCESS;
+        retval = queue_append(mbox->message_queue, &msg->hdr);
+    }
+
+    /* if the message could not be sent, resume the sender with this error. */
+    if (STATUS_SUCCESS != retval)
+    {
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
+    /* success. */
+    return STATUS_SUCCESS;
+
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-- 
2.43.0


From 50680826b8c322b088aba8fe674d21cb600393ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 34/42] fix: a quiesce or terminate request that could not be
 delivered is reported once

---
 .../common/fiber_scheduler_create_with_disciplines.c      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index ea0871d..f7a019b 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -1126,7 +1126,9 @@ fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the calling fiber is already scheduled; resume it with this
+             * error code instead. */
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
     }
 
@@ -1197,7 +1199,9 @@ fiber_scheduler_disciplined_management_terminate_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the calling fiber is already scheduled; resume it with this
+             * error code instead. */
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
     }
 
-- 
2.43.0


From 49d6de99700349b0412bbeeb5f6591433d6d3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 35/42] fix: a waiting fiber that could not be notified goes on
 waiting

---
 ...n_discipline_notify_all_callback_handler.c | 26 ++++++++++++++-----
 ...n_discipline_notify_one_callback_handler.c | 26 ++++++++++++++-----
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
index b442ae1..a05d09d 100644
--- a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
@@ -63,16 +63,22 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
     /* for every waiting fiber... */
     while (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        /* get the first waiting fiber. */
+        slist_node* node;
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        retval = slist_head(&node, cond->wait_list);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        retval = slist_node_child((resource**)&fib, node);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            goto resume_fail;
         }
 
-        /* resume the waiting fiber. */
+        /* resume the waiting fiber; if this fails, it goes on waiting. */
         retval =
             disciplined_fiber_scheduler_add_fiber_to_run_queue(
                 ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
@@ -80,8 +86,14 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            goto resume_fail;
+        }
+
+        /* it no longer waits. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
diff --git a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
index fcc16c2..f52355e 100644
--- a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
@@ -63,16 +63,22 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
     /* are there waiting fibers? */
     if (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        /* get the first waiting fiber. */
+        slist_node* node;
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        retval = slist_head(&node, cond->wait_list);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        retval = slist_node_child((resource**)&fib, node);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            goto resume_fail;
         }
 
-        /* resume the waiting fiber. */
+        /* resume the waiting fiber; if this fails, it goes on waiting. */
         retval =
             disciplined_fiber_scheduler_add_fiber_to_run_queue(
                 ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
@@ -80,8 +86,14 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            goto resume_fail;
+        }
+
+        /* it no longer waits. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
-- 
2.43.0


From 5501e3bbe5e413a99d6691439f9323223a356803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 36/42] fix: a buffered reader has the socket type of what it
 wraps

psock_br_create_from_psock left the socket type unset, so psock_socket_type
on the adapter returned no valid type, and descriptors could not be passed
through a buffered reader over a datagram socket although its sendmsg and
recvmsg methods forward to it.
---
 src/psock/psock_br_create_from_psock.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 852bcfc..4c7d4a6 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -105,6 +105,9 @@ RCPR_SYM(psock_br_create_from_psock)(
     /* set the type. */
     tmp->hdr.type = PSOCK_TYPE_BUFFERED;
 
+    /* set the socket type. */
+    tmp->hdr.socktype = sock->socktype;
+
     /* set the socket. */
     tmp->wrapped = sock;
 
-- 
2.43.0


From 44be931f4ee106946357880cafdbea6d1a7662ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:47 +0000
Subject: [PATCH 37/42] fix: a failed psock_from_buffer_get_output_buffer
 leaves the caller's outputs unchanged

---
 src/psock/psock_from_buffer_get_output_buffer.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_from_buffer_get_output_buffer.c b/src/psock/psock_from_buffer_get_output_buffer.c
index f290e0c..ec93c8a 100644
--- a/src/psock/psock_from_buffer_get_output_buffer.c
+++ b/src/psock/psock_from_buffer_get_output_buffer.c
@@ -89,29 +89,30 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* set the buffer size. */
-    *buffer_size = pb->output_buffer_total_size;
-
     /* allocate memory for the output buffer. */
-    retval = allocator_allocate(a, buffer, *buffer_size);
+    void* output = NULL;
+    size_t output_size = pb->output_buffer_total_size;
+    retval = allocator_allocate(a, &output, output_size);
     if (STATUS_SUCCESS != retval)
     {
         goto done;
     }
 
     /* copy the output buffer data to this buffer. */
-    retval = copy_output_buffer(pb, (uint8_t*)*buffer, *buffer_size);
+    retval = copy_output_buffer(pb, (uint8_t*)output, output_size);
     if (STATUS_SUCCESS != retval)
     {
         goto reclaim_buffer;
     }
 
     /* success. */
+    *buffer = output;
+    *buffer_size = output_size;
     retval = STATUS_SUCCESS;
     goto done;
 
 reclaim_buffer:
-    release_retval = allocator_reclaim(a, *buffer);
+    release_retval = allocator_reclaim(a, output);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
-- 
2.43.0


From 86488378bc97564f1c5b19b86d2028cd8d5c22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 38/42] fix: a refused release neither leaks the node nor
 leaves a half-cleared list inconsistent

---
 src/list/list_clear.c           | 10 ++++++++++
 src/list/list_node_release.c    | 15 ++++++++++-----
 src/rbtree/rbtree_node_create.c | 17 +++++++++++------
 src/slist/slist_clear.c         |  6 ++++++
 src/slist/slist_node_release.c  | 15 ++++++++++-----
 5 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..510c547 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -51,6 +51,16 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         retval = list_node_cleanup(l->alloc, t);
         if (STATUS_SUCCESS != retval)
         {
+            /* the nodes that are left are still a valid list. */
+            if (NULL == l->head)
+            {
+                l->tail = NULL;
+            }
+            else
+            {
+                l->head->prev = NULL;
+            }
+
             goto done;
         }
     }
diff --git a/src/list/list_node_release.c b/src/list/list_node_release.c
index af16008..9be526d 100644
--- a/src/list/list_node_release.c
+++ b/src/list/list_node_release.c
@@ -31,6 +31,7 @@ status
 RCPR_SYM(list_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status release_retval = STATUS_SUCCESS;
     list_node* n = (list_node*)r;
 
     RCPR_MODEL_ASSERT(prop_list_node_valid(n));
@@ -46,15 +47,19 @@ RCPR_SYM(list_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* a failure to release the child resource is reported first. */
+    if (STATUS_SUCCESS != release_retval)
+    {
+        return release_retval;
+    }
 
     /* if reclaiming this list_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    return reclaim_retval;
 }
diff --git a/src/rbtree/rbtree_node_create.c b/src/rbtree/rbtree_node_create.c
index 838b5bc..a300018 100644
--- a/src/rbtree/rbtree_node_create.c
+++ b/src/rbtree/rbtree_node_create.c
@@ -111,6 +111,7 @@ RCPR_SYM(rbtree_node_create)(
  */
 static status rbtree_node_release(resource* r)
 {
+    status release_retval = STATUS_SUCCESS;
     rbtree_node* n = (rbtree_node*)r;
 
     /* parameter sanity checks. */
@@ -126,15 +127,19 @@ static status rbtree_node_release(resource* r)
         RCPR_MODEL_ASSERT(prop_resource_valid(v));
 
         /* release the value. */
-        status retval = resource_release(v);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(v);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
+    status reclaim_retval = allocator_reclaim(a, n);
 
-    /* if reclaiming this rbtree_node succeeds, then so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* a failure to release the value is reported first. */
+    if (STATUS_SUCCESS != release_retval)
+    {
+        return release_retval;
+    }
+
+    /* if reclaiming this rbtree_node instance succeeds, so does this release. */
+    return reclaim_retval;
 }
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..e6c920d 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -49,6 +49,12 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         retval = slist_node_cleanup(l->alloc, t);
         if (STATUS_SUCCESS != retval)
         {
+            /* the nodes that are left are still a valid slist. */
+            if (NULL == l->head)
+            {
+                l->tail = NULL;
+            }
+
             return retval;
         }
     }
diff --git a/src/slist/slist_node_release.c b/src/slist/slist_node_release.c
index 3fa70db..535fd7c 100644
--- a/src/slist/slist_node_release.c
+++ b/src/slist/slist_node_release.c
@@ -32,6 +32,7 @@ status
 RCPR_SYM(slist_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status release_retval = STATUS_SUCCESS;
     slist_node* n = (slist_node*)r;
 
     RCPR_MODEL_ASSERT(prop_slist_node_valid(n));
@@ -47,15 +48,19 @@ RCPR_SYM(slist_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
+    status reclaim_retval = allocator_reclaim(a, n);
+
+    /* a failure to release the child resource is reported first. */
+    if (STATUS_SUCCESS != release_retval)
+    {
+        return release_retval;
+    }
 
     /* if reclaiming this slist_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    return reclaim_retval;
 }
-- 
2.43.0


From 618a7bbd4968a69af6cf1bdd1b42ac5a6502ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 39/42] fix: popping an entry whose node cannot be reclaimed
 reports the failure

---
 src/list/list_pop.c             | 11 ++++++++---
 src/slist/slist_node_next_pop.c | 11 ++++++++---
 src/slist/slist_pop.c           | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..34df7d5 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -109,11 +109,16 @@ RCPR_SYM(list_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            status cleanup_retval = STATUS_SUCCESS;
+            if (NULL != cleanup_resource)
+            {
+                cleanup_retval = resource_release(cleanup_resource);
+            }
+
+            if (STATUS_SUCCESS != cleanup_retval)
             {
                 /* bubble up the error for the resource release first. */
-                return retval;
+                return cleanup_retval;
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..40ae3d8 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -108,11 +108,16 @@ RCPR_SYM(slist_node_next_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            status cleanup_retval = STATUS_SUCCESS;
+            if (NULL != cleanup_resource)
+            {
+                cleanup_retval = resource_release(cleanup_resource);
+            }
+
+            if (STATUS_SUCCESS != cleanup_retval)
             {
                 /* bubble up the error for the resource release first. */
-                return retval;
+                return cleanup_retval;
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..5dd4c18 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -104,11 +104,16 @@ RCPR_SYM(slist_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            status cleanup_retval = STATUS_SUCCESS;
+            if (NULL != cleanup_resource)
+            {
+                cleanup_retval = resource_release(cleanup_resource);
+            }
+
+            if (STATUS_SUCCESS != cleanup_retval)
             {
                 /* bubble up the error for the resource release first. */
-                return retval;
+                return cleanup_retval;
             }
 
             /* return the status to the caller. */
-- 
2.43.0


From 06573b7f938c35988681190ab0a3cc3761157cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:20 +0000
Subject: [PATCH 40/42] fix: releasing a list with an entry that cannot be
 released does not leak the rest

---
 src/list/list_create.c   | 27 +++++++++++++++++++--------
 src/slist/slist_create.c | 26 +++++++++++++++++++-------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/list/list_create.c b/src/list/list_create.c
index e4af394..2d3ffde 100644
--- a/src/list/list_create.c
+++ b/src/list/list_create.c
@@ -125,20 +125,31 @@ done:
  */
 static status list_release(resource* r)
 {
-    status retval;
+    status retval = STATUS_SUCCESS;
+    status release_retval;
     list* l = (list*)r;
 
-    /* clear list. */
-    retval = list_clear(l);
-    if (STATUS_SUCCESS != retval)
+    /* clear list; an entry that can't be released doesn't spare others. */
+    do
     {
-        return retval;
+        release_retval = list_clear(l);
+        if (STATUS_SUCCESS == retval)
+        {
+            retval = release_retval;
+        }
     }
+    while (NULL != l->head);
 
     /* clean up. */
     allocator* a = l->alloc;
 
-    /* if reclaiming this list instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, l);
+    /* reclaim this list instance. */
+    release_retval = allocator_reclaim(a, l);
+    if (STATUS_SUCCESS == retval)
+    {
+        retval = release_retval;
+    }
+
+    /* the first failure, if any, is the result of this release. */
+    return retval;
 }
diff --git a/src/slist/slist_create.c b/src/slist/slist_create.c
index c6c8321..5af70ca 100644
--- a/src/slist/slist_create.c
+++ b/src/slist/slist_create.c
@@ -118,19 +118,31 @@ RCPR_SYM(slist_create)(
  */
 static status slist_release(resource* r)
 {
-    status retval;
+    status retval = STATUS_SUCCESS;
+    status release_retval;
     slist* l = (slist*)r;
 
-    /* clear the list. */
-    retval = slist_clear(l);
-    if (STATUS_SUCCESS != retval)
+    /* clear the list; an entry that can't be released doesn't spare others. */
+    do
     {
-        return retval;
+        release_retval = slist_clear(l);
+        if (STATUS_SUCCESS == retval)
+        {
+            retval = release_retval;
+        }
     }
+    while (NULL != l->head);
 
     /* clean up. */
     allocator* a = l->alloc;
 
-    /* if reclaiming this slist instance succeeds, so does this release. */
-    return allocator_reclaim(a, l);
+    /* reclaim this slist instance. */
+    release_retval = allocator_reclaim(a, l);
+    if (STATUS_SUCCESS == retval)
+    {
+        retval = release_retval;
+    }
+
+    /* the first failure, if any, is the result of this release. */
+    return retval;
 }
-- 
2.43.0


From e61cfb0e8db8efb6b80fdf4c45a02a007f859a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:49 +0000
Subject: [PATCH 41/42] fix: a method table right after the vtable segment is
 not in it

---
 include/rcpr/vtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcpr/vtable.h b/include/rcpr/vtable.h
index d5a5594..8eac2b0 100644
--- a/include/rcpr/vtable.h
+++ b/include/rcpr/vtable.h
@@ -65,7 +65,7 @@ extern const void* __stop_rcpr_vtable;
 #define RCPR_VTABLE_CHECK(ptr) \
     if ( \
         (ptrdiff_t)(ptr) >= (ptrdiff_t)(&__start_rcpr_vtable) \
-     && (ptrdiff_t)(ptr) <= (ptrdiff_t)(&__stop_rcpr_vtable)) \
+     && (ptrdiff_t)(ptr) < (ptrdiff_t)(&__stop_rcpr_vtable)) \
     { \
         return true; \
     } \
-- 
2.43.0


From a9ee4392f1741b7887b857a183544c4db3e6a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:44 +0000
Subject: [PATCH 42/42] fix: fiber_scheduler_discipline_create leaked the
 structure when reclaiming its vector failed

---
 src/fiber/common/fiber_scheduler_discipline_create.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_create.c b/src/fiber/common/fiber_scheduler_discipline_create.c
index a58f98e..1bd734b 100644
--- a/src/fiber/common/fiber_scheduler_discipline_create.c
+++ b/src/fiber/common/fiber_scheduler_discipline_create.c
@@ -160,7 +160,8 @@ reclaim_fiber_scheduler_vector:
     release_retval = allocator_reclaim(alloc, tmp->callback_vector);
     if (STATUS_SUCCESS != release_retval)
     {
-        return release_retval;
+        /* report this failure, but still reclaim the structure. */
+        retval = release_retval;
     }
 
 reclaim_fiber_scheduler_discipline:
-- 
2.43.0

