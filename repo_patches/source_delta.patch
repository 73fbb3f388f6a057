From 81dd5036c3e0c840d957d008572cfb8b61a311e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:48 +0000
Subject: [PATCH 01/59] fix: process the messages of a robot in the order in
 which they were received

---
 src/buzz/buzzinmsg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..0838b09 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -59,9 +59,9 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
          break;
       }
    }
-   /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   /* Extract the oldest payload from the array */
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From 718069464559c1f1776c34edf824bef8264a7b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:41 +0000
Subject: [PATCH 02/59] fix: announce the outcome of a stigmergy conflict even
 if a message for that version is queued

---
 src/buzz/buzzoutmsg.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index e7af5b1..fcf4ddd 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -338,7 +338,18 @@ void buzzoutmsg_queue_append_vstig(buzzvm_t vm,
    int etype = -1, eidx = -1; /* No message to remove from the queue */
    if(e) {
       /* Yes; if the duplicate is newer than the passed message, nothing to do */
-      if((*e)->data->timestamp >= data->timestamp) return;
+      if((*e)->data->timestamp > data->timestamp) return;
+      if((*e)->data->timestamp == data->timestamp) {
+         /* Same version: a queued PUT already answers a QUERY */
+         if((*e)->type == BUZZMSG_VSTIG_PUT && type == BUZZMSG_VSTIG_QUERY) return;
+         if((*e)->type == type) {
+            /* Same message type, just refresh the content of the queued message;
+             * it differs from the passed one when a conflict has been resolved */
+            (*e)->data->data = buzzheap_clone(vm, data->data);
+            (*e)->data->robot = data->robot;
+            return;
+         }
+      }
       /* The duplicate is older, store data to remove it later */
       etype = (*e)->type;
       eidx = buzzdarray_find(vm->outmsgs->queues[etype], buzzoutmsg_vstig_cmp, e);
-- 
2.43.0


From fdd4eb8345335dd83c9a8559ecddb62d5c04b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:42 +0000
Subject: [PATCH 03/59] fix: keep deleted stigmergy entries as versions so that
 deletions propagate and last

---
 src/buzz/buzzvm.c    |  2 +-
 src/buzz/buzzvstig.c | 41 +++++++++++++++++++----------------------
 2 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..e0b9506 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -371,7 +371,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             const buzzvstig_elem_t* l = buzzvstig_fetch(*vs, &k);
             if(!l) {
                /* Element not found */
-               if(v->data->o.type == BUZZTYPE_NIL) {
+               if(v->data->o.type == BUZZTYPE_NIL && v->timestamp == 0) {
                   /* This robot knows nothing about the query, just propagate it */
                   buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_QUERY, id, k, v);
                   free(v);
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..110ad9d 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -204,27 +204,14 @@ int buzzvstig_put(buzzvm_t vm) {
       /* Look for the element */
       const buzzvstig_elem_t* x = buzzvstig_fetch(*vs, &k);
       if(x) {
-         /* Element found */
-         if(v->o.type != BUZZTYPE_NIL) {
-            /* New value is not nil, update the existing element */
-            (*x)->data = v;
-            ++((*x)->timestamp);
-            (*x)->robot = vm->robot;
-            /* Append a PUT message to the out message queue */
-            buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, *x);
-         }
-         else {
-            /* New value is nil, must delete the existing element */
-            /* Make a new element with nil as value to update neighbors */
-            buzzvstig_elem_t y = buzzvstig_elem_new(
-               buzzobj_new(BUZZTYPE_NIL), // nil value
-               (*x)->timestamp + 1,       // new timestamp
-               vm->robot);                // robot id
-            /* Append a PUT message to the out message queue with nil in it */
-            buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, y);
-            /* Delete the existing element */
-            buzzvstig_remove(*vs, &k);
-         }
+         /* Element found, update it */
+         /* A deletion (nil value) is a new version like any other: the element
+          * stays, or older values that arrive later would bring it back */
+         (*x)->data = v;
+         ++((*x)->timestamp);
+         (*x)->robot = vm->robot;
+         /* Append a PUT message to the out message queue */
+         buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, *x);
       }
       else if(v->o.type != BUZZTYPE_NIL) {
          /* Element not found and new value is not nil, store it */
@@ -250,6 +237,8 @@ void buzzvstig_foreach_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzvstig_foreach_params* p = (struct buzzvstig_foreach_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Skip deleted elements */
+   if((*(buzzvstig_elem_t*)data)->data->o.type == BUZZTYPE_NIL) return;
    /* Push closure and params (key, value, robot) */
    buzzvm_push(p->vm, p->fun);
    buzzvm_push(p->vm, *(buzzobj_t*)key);
@@ -283,6 +272,12 @@ int buzzvstig_foreach(struct buzzvm_s* vm) {
 /****************************************/
 /****************************************/
 
+void buzzvstig_size_entry(const void* key, void* data, void* params) {
+   /* Count the elements that have not been deleted */
+   if((*(buzzvstig_elem_t*)data)->data->o.type != BUZZTYPE_NIL)
+      ++(*(int32_t*)params);
+}
+
 int buzzvstig_size(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 0);
    /* Get vstig id */
@@ -291,7 +286,9 @@ int buzzvstig_size(buzzvm_t vm) {
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
       /* Virtual stigmergy found, return its size */
-      buzzvm_pushi(vm, buzzdict_size((*vs)->data));
+      int32_t size = 0;
+      buzzdict_foreach((*vs)->data, buzzvstig_size_entry, &size);
+      buzzvm_pushi(vm, size);
    }
    else {
       /* Virtual stigmergy not found, return 0 */
-- 
2.43.0


From 8ffbb8849f30bb0a61cefb9bcb56cd91d68a088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:42 +0000
Subject: [PATCH 04/59] fix: do not free a stigmergy handler that the heap
 still owns when it is replaced

---
 src/buzz/buzzvstig.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 110ad9d..d7e515d 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -355,8 +355,7 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       /* Get closure */
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
-      /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
+      /* Clone the closure; an old one belongs to the heap, which gets rid of it */
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -383,8 +382,7 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       /* Get closure */
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
-      /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
+      /* Clone the closure; an old one belongs to the heap, which gets rid of it */
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From 50f67f7d37228e84db3c8baf7438b9ccd91076a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:07 +0000
Subject: [PATCH 05/59] fix: keep the stack, the key and the entries sane while
 stigmergy conflict handlers run

---
 src/buzz/buzzvm.c    | 107 +++++++++++++++++++++++--------------------
 src/buzz/buzzvstig.c |  11 +++--
 2 files changed, 66 insertions(+), 52 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index e0b9506..ad8579a 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -237,6 +237,62 @@ void buzzvm_outmsg_destroy(uint32_t pos, void* data, void* param) {
    fprintf(stderr, "[TODO] %s:%d\n", __FILE__, __LINE__);
 }
 
+/*
+ * Resolves a conflict between a local and a remote entry of a virtual stigmergy.
+ * @param vm The VM data.
+ * @param id The id of the virtual stigmergy.
+ * @param k The key.
+ * @param l The local entry.
+ * @param v The remote entry. This function gets rid of it.
+ */
+static void buzzvm_vstig_conflict(buzzvm_t vm,
+                                  uint16_t id,
+                                  buzzobj_t k,
+                                  const buzzvstig_elem_t l,
+                                  buzzvstig_elem_t v) {
+   /* The handlers can change the virtual stigmergy and trigger garbage collection:
+    * work on a copy of the local entry and keep the data on the stack */
+   struct buzzvstig_elem_s ol = *l;
+   int64_t top = buzzvm_stack_top(vm);
+   buzzvm_push(vm, k);
+   buzzvm_push(vm, ol.data);
+   buzzvm_push(vm, v->data);
+   /* Call conflict manager */
+   buzzvstig_elem_t c =
+      buzzvstig_onconflict_call(vm,
+                                *buzzdict_get(vm->vstigs, &id, buzzvstig_t),
+                                k, &ol, v);
+   /* Get rid of useless vstig element */
+   free(v);
+   if(vm->state != BUZZVM_STATE_READY) {
+      /* The conflict manager failed */
+      free(c);
+      return;
+   }
+   /* Make sure the local entry is still the one in conflict */
+   const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
+   const buzzvstig_elem_t* x = vs ? buzzvstig_fetch(*vs, &k) : NULL;
+   if(!c) {
+      fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving stigmergy conflict\n", vm->robot);
+   }
+   else if(!x || (*x)->timestamp != ol.timestamp) {
+      /* The conflict manager itself has changed the entry */
+      free(c);
+   }
+   else {
+      /* Did this robot lose the conflict? */
+      int lost = (c->robot != vm->robot) && (ol.robot == vm->robot);
+      /* Store winning value and propagate it */
+      buzzvstig_store(*vs, &k, &c);
+      buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+      /* Call conflict lost manager */
+      if(lost) buzzvstig_onconflictlost_call(vm, *vs, k, &ol);
+   }
+   /* Get rid of the data kept on the stack */
+   while(vm->state == BUZZVM_STATE_READY && buzzvm_stack_top(vm) > top)
+      buzzvm_pop(vm);
+}
+
 void buzzvm_process_inmsgs(buzzvm_t vm) {
    /* Go through the messages */
    while(!buzzinmsg_queue_isempty(vm->inmsgs)) {
@@ -307,32 +363,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
-               if(!c) {
-                  fprintf(stderr, "[WARNING] [ROBOT %u] Error resolving PUT conflict\n", vm->robot);
-                  break;
-               }
-               /* Get rid of useless vstig element */
-               free(v);
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               buzzvm_vstig_conflict(vm, id, k, *l, v);
             }
             else {
                /* Remote element is older, ignore it */
@@ -399,29 +430,7 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             else if(((*l)->timestamp == v->timestamp) && /* Same timestamp */
                     ((*l)->robot != v->robot)) {         /* Different robot */
                /* Conflict! */
-               /* Call conflict manager */
-               buzzvstig_elem_t c =
-                  buzzvstig_onconflict_call(vm, *vs, k, *l, v);
-               free(v);
-               /* Make sure conflict manager returned with an element to process */
-               if(!c) break;
-               /* Did this robot lose the conflict? */
-               if((c->robot != vm->robot) &&
-                  ((*l)->robot == vm->robot)) {
-                  /* Yes */
-                  /* Save current local entry */
-                  buzzvstig_elem_t ol = buzzvstig_elem_clone(vm, *l);
-                  /* Store winning value */
-                  buzzvstig_store(*vs, &k, &c);
-                  /* Call conflict lost manager */
-                  buzzvstig_onconflictlost_call(vm, *vs, k, ol);
-               }
-               else {
-                  /* This robot did not lose the conflict */
-                  /* Just propagate the PUT message */
-                  buzzvstig_store(*vs, &k, &c);
-               }
-               buzzoutmsg_queue_append_vstig(vm, BUZZMSG_VSTIG_PUT, id, k, c);
+               buzzvm_vstig_conflict(vm, id, k, *l, v);
             }
             else {
                /* Remote element is same as local, ignore it */
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index d7e515d..47d0cdd 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -420,19 +420,22 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY) return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -484,7 +487,9 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
       /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      if(buzzvm_closure_call(vm, 2) != BUZZVM_STATE_READY) return;
+      /* Get rid of the return value */
+      buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From 1ce605db0525219f82102bdaa97a1289b22d62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:12 +0000
Subject: [PATCH 06/59] fix: swarm.select takes any non-zero integer as true

---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..9371d27 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -454,7 +454,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = (buzzvm_stack_at(vm, 1)->i.value != 0);
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From 474f63ff36c9e97fad06b3505ee1cc4315bf4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 07/59] fix: announce that the robot left a swarm redefined by
 a swarm operation

---
 src/buzz/buzzswarm.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 9371d27..7186224 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -272,6 +272,25 @@ static int make_table(buzzvm_t vm, uint16_t id) {
 /****************************************/
 /****************************************/
 
+/*
+ * Sets the membership of a possibly existing swarm and announces it:
+ * joining always, leaving only if the robot was a member.
+ */
+static void set_membership(buzzvm_t vm, uint16_t id, uint8_t in) {
+   const uint8_t* x = buzzdict_get(vm->swarms, &id, uint8_t);
+   uint8_t was = (x && *x);
+   buzzdict_set(vm->swarms, &id, &in);
+   if(in)
+      buzzoutmsg_queue_append_swarm_joinleave(
+         vm, BUZZMSG_SWARM_JOIN, id);
+   else if(was)
+      buzzoutmsg_queue_append_swarm_joinleave(
+         vm, BUZZMSG_SWARM_LEAVE, id);
+}
+
+/****************************************/
+/****************************************/
+
 int buzzswarm_register(buzzvm_t vm) {
    /* Add 'swarm' table */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "swarm", 1));
@@ -358,13 +377,8 @@ int buzzswarm_others(buzzvm_t vm) {
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    uint16_t id2 = buzzvm_stack_at(vm, 1)->i.value;
-   /* Add a new entry for the swarm */
-   uint8_t v = *x ? 0 : 1;
-   buzzdict_set(vm->swarms, &id2, &v);
-   /* Send update, if necessary */
-   if(v)
-      buzzoutmsg_queue_append_swarm_joinleave(
-         vm, BUZZMSG_SWARM_JOIN, id2);
+   /* Add a new entry for the swarm and send update, if necessary */
+   set_membership(vm, id2, *x ? 0 : 1);
    /* Create a table to return */
    make_table(vm, id2);
    /* Return */
@@ -569,14 +583,10 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    if(s2 < 0) return vm->state;                                   \
    /* Membership condition */                                     \
    uint8_t v = COND;                                              \
-   /* Add a new entry to the swarm list */                        \
-   buzzdict_set(vm->swarms, &id, &v);                             \
+   /* Add a new entry to the swarm list, send update if needed */ \
+   set_membership(vm, id, v);                                     \
    /* Create a table */                                           \
    make_table(vm, id);                                            \
-   /* Send update, if necessary */                                \
-   if(v)                                                          \
-      buzzoutmsg_queue_append_swarm_joinleave(                    \
-         vm, BUZZMSG_SWARM_JOIN, id);                             \
    /* Return swarm */                                             \
    return buzzvm_ret1(vm);
 
-- 
2.43.0


From ed03a06154080127a16471d37aa43eb0662e9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:43 +0000
Subject: [PATCH 08/59] fix: forget the swarms of a robot that announces it is
 in none

---
 src/buzz/buzzvm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index ad8579a..aa25c37 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -447,7 +447,11 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
                break;
             }
-            if(nsids < 1) break;
+            if(nsids < 1) {
+               /* The robot is in no swarm */
+               buzzdict_remove(vm->swarmmembers, &rid);
+               break;
+            }
             /* Deserialize swarm ids */
             buzzdarray_t sids = buzzdarray_new(nsids, sizeof(uint16_t), NULL);
             uint16_t i;
-- 
2.43.0


From ff0b347342f3f38f0ea888819b09b10da5f95b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:47 +0000
Subject: [PATCH 09/59] fix: discard truncated swarm list messages

---
 src/buzz/buzzvm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index aa25c37..d776138 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -459,9 +459,11 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                pos = buzzmsg_deserialize_u16(buzzdarray_makeslot(sids, i), msg, pos);
                if(pos < 0) {
                   fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
+                  buzzdarray_destroy(&sids);
                   break;
                }
             }
+            if(pos < 0) break;
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
             break;
-- 
2.43.0


From d79470aca5bc79216d291245369ef8de10f4e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:50 +0000
Subject: [PATCH 10/59] fix: free the buffer of swarm messages that list no
 swarm

---
 src/buzz/buzzoutmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzoutmsg.c b/src/buzz/buzzoutmsg.c
index fcf4ddd..caec9f5 100644
--- a/src/buzz/buzzoutmsg.c
+++ b/src/buzz/buzzoutmsg.c
@@ -68,7 +68,7 @@ void buzzoutmsg_destroy(uint32_t pos, void* data, void* params) {
       case BUZZMSG_SWARM_JOIN:
       case BUZZMSG_SWARM_LEAVE:
       case BUZZMSG_SWARM_LIST:
-         if(m->sw.size > 0) free(m->sw.ids);
+         free(m->sw.ids);
          break;
       case BUZZMSG_VSTIG_PUT:
       case BUZZMSG_VSTIG_QUERY:
-- 
2.43.0


From 6d65870a2ee236f80088d336a937ea9c83d7114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:22 +0000
Subject: [PATCH 11/59] fix: honour the stack position passed to swarm.id and
 keep it in bounds

---
 src/buzz/buzzswarm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 7186224..753ae0d 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -336,12 +336,13 @@ int buzzswarm_id(struct buzzvm_s* vm) {
       /* Take the stack top by default */
       uint16_t stackpos = 1;
       /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
+      if(buzzvm_lnum(vm) > 0) {
          buzzvm_lload(vm, 1);
          buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
       }
       /* Limit stackpos value to avoid out-of-bounds operations */
+      if(stackpos < 1) stackpos = 1;
       if(stackpos > buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
       /* Push the swarm id located at stackpos */
-- 
2.43.0


From 4ff7d665a96b343d8cf75dd7a545219f9376c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:28 +0000
Subject: [PATCH 12/59] fix: do not execute an extra instruction after calling
 a C closure from C

---
 src/buzz/buzzswarm.c | 6 +++---
 src/buzz/buzzvm.c    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 753ae0d..1e81cb0 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -521,9 +521,9 @@ int buzzswarm_exec(buzzvm_t vm) {
       buzzvm_push(vm, c);
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
-      buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      if(buzzvm_calls(vm) != BUZZVM_STATE_READY) return vm->state;
+      while(stacks < buzzdarray_size(vm->stacks))
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
       return vm->state;
    }
    else {
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d776138..55aeda2 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1031,9 +1031,9 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From 7d825ac1cec29ffba9dad5de3acd1508aefbc235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:50 +0000
Subject: [PATCH 13/59] fix: place the closure before its arguments in
 buzzvm_function_call

---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 55aeda2..41e9a87 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1072,9 +1072,10 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzdarray_insert(vm->stack,
                         buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+                        &c);
       buzzvm_pop(vm);
    }
    /* Call the closure */
-- 
2.43.0


From 9e982b8b4c6b24859bf3d19df8595b09065ae69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:35 +0000
Subject: [PATCH 14/59] fix: make parameters that are not passed nil instead of
 uninitialised

---
 src/buzz/buzzvm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 41e9a87..46eb5b3 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1710,16 +1710,23 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_stack_assert((vm), 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
+   /* Parameters that were not passed to the function have no slot: make them nil */
+   while(buzzdarray_size(vm->lsyms->syms) < idx) {
+      buzzobj_t nil = buzzheap_newobj(vm, BUZZTYPE_NIL);
+      buzzdarray_push(vm->lsyms->syms, &nil);
+   }
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
    return vm->state;
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num)
+   if(buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
+      return vm->state;
+   }
   for( uint32_t i =0 ; i < num ; i++ )
     buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
-- 
2.43.0


From 7e18425a0b44dc9b5a11f3267708c43af0257f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:50 +0000
Subject: [PATCH 15/59] fix: support local variables in blocks outside of
 functions

---
 src/buzz/buzzvm.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 46eb5b3..1b8e8b2 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -540,7 +540,9 @@ buzzvm_t buzzvm_new(uint16_t robot) {
    vm->lsymts = buzzdarray_new(BUZZVM_LSYMTS_INIT_CAPACITY,
                                sizeof(buzzvm_lsyms_t),
                                buzzvm_lsyms_destroy);
-   vm->lsyms = NULL;
+   /* Local variables defined outside of any function */
+   vm->lsyms = buzzvm_lsyms_new(0, buzzdarray_new(1, sizeof(buzzobj_t), NULL));
+   buzzdarray_push(vm->lsymts, &(vm->lsyms));
    /* Create global variable tables */
    vm->gsyms = buzzdict_new(BUZZVM_SYMS_INIT_CAPACITY,
                             sizeof(int32_t),
@@ -1269,7 +1271,7 @@ buzzvm_state buzzvm_pushl(buzzvm_t vm, int32_t addr) {
    buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_CLOSURE);
    o->c.value.isnative = 1;
    o->c.value.ref = addr;
-   if(vm->lsyms) {
+   if(!buzzdarray_isempty(vm->lsyms->syms)) {
       int i;
       for(i = 0; i < buzzdarray_size(vm->lsyms->syms); ++i)
          buzzdarray_push(o->c.value.actrec,
@@ -1720,7 +1722,7 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
-   if(buzzvm_lnum(vm) < num) {
+   if(buzzdarray_size(vm->lsyms->syms) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
-- 
2.43.0


From adae426ebf286d78edfc74fe631c04c6d23af896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:21 +0000
Subject: [PATCH 16/59] fix: report a return statement outside of a function
 instead of crashing

---
 src/buzz/buzzvm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1b8e8b2..9ca4e31 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1381,6 +1381,11 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* Make sure there is a call to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1411,6 +1416,11 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* Make sure there is a call to return from */
+   if(buzzdarray_size(vm->stacks) < 2) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
+      return vm->state;
+   }
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
-- 
2.43.0


From 1630d70a66191d1c40a42d43e514ec1c2813ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:26 +0000
Subject: [PATCH 17/59] fix: send infinities and NaN as they are

---
 src/buzz/buzzmsg.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 640c9aa..eec237f 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -98,8 +98,18 @@ void buzzmsg_serialize_float(buzzdarray_t buf,
    float nf = frexpf(data, &exp);
    /* Take the magnitude of nf and translate it by -0.5 */
    nf = fabsf(nf) - 0.5f;
+   if(isinf(data)) {
+      /* Infinity: the smallest mantissa with an exponent that is out of range */
+      mant = data < 0.0f ? -1 : 1;
+      exp = INT32_MAX;
+   }
+   else if(isnan(data)) {
+      /* Not a number: zero mantissa with an exponent that is out of range */
+      mant = 0;
+      exp = INT32_MAX;
+   }
    /* Now we can safely test for zero */
-   if(nf < 0.0f) {
+   else if(nf < 0.0f) {
       /* The mantissa is zero */
       mant = 0;
    }
@@ -138,7 +148,8 @@ int64_t buzzmsg_deserialize_float(float* data,
    pos = buzzmsg_deserialize_u32((uint32_t*)(&exp), buf, pos);
    /* A zero mantissa corresponds to a zero float */
    if(mant == 0) {
-      *data = 0;
+      /* Unless it stands for 'not a number' */
+      *data = exp == INT32_MAX ? NAN : 0;
    }
    else {
       /* We must calculate the float
-- 
2.43.0


From b40335b5b08f27c93994f616698f9c6729954423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:29 +0000
Subject: [PATCH 18/59] fix: decode the smallest mantissa without overflow

---
 src/buzz/buzzmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index eec237f..2ec65b3 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -164,7 +164,7 @@ int64_t buzzmsg_deserialize_float(float* data,
        * 4. divide by 2, so it's in [0,0.5)
        * 5. Add 0.5, so it's in [0.5,1)
        */
-      *data = (float)(abs(mant) - 1) / (2.0f * MAX_MANTISSA) + 0.5f;
+      *data = (float)(llabs(mant) - 1) / (2.0f * MAX_MANTISSA) + 0.5f;
       /* Now use ldexpf() to calculate the absolute value */
       *data = ldexpf(*data, exp);
       /* Finally take care of the sign */
-- 
2.43.0


From 53f80667bbda6bdaea5dc0e611fd1bfb586e099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:32 +0000
Subject: [PATCH 19/59] fix: keep messages well-formed when a value can't be
 serialized

---
 src/buzz/buzztype.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..3a6f29c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -522,6 +522,14 @@ void buzzobj_serialize_tableelem(const void* key, void* data, void* params) {
 
 void buzzobj_serialize(buzzdarray_t buf,
                        const buzzobj_t data) {
+   /* Objects that can't be serialized are sent as nil, so the message stays well-formed */
+   if(data->o.type == BUZZTYPE_USERDATA ||
+      (data->o.type == BUZZTYPE_CLOSURE && buzzdarray_size(data->c.value.actrec) != 1)) {
+      fprintf(stderr, "[TODO] %s:%d: can't serialize %s, sending nil\n", __FILE__, __LINE__,
+              data->o.type == BUZZTYPE_CLOSURE ? "a nested closure" : "an object of type userdata");
+      buzzmsg_serialize_u8(buf, BUZZTYPE_NIL);
+      return;
+   }
    buzzmsg_serialize_u8(buf, data->o.type);
    switch(data->o.type) {
       case BUZZTYPE_NIL: {
@@ -554,13 +562,8 @@ void buzzobj_serialize(buzzdarray_t buf,
          // closures completely. The only supported cases are
          // serializing a function and the test case in
          // testmobilecode.bzz, which involves a table.
-         if(buzzdarray_size(data->c.value.actrec) == 1) {
-            buzzmsg_serialize_u8(buf, data->c.value.isnative);
-            buzzmsg_serialize_u32(buf, data->c.value.ref);
-         }
-         else {
-            fprintf(stderr, "[TODO] %s:%d: can't serialize a nested closure\n", __FILE__, __LINE__);
-         }
+         buzzmsg_serialize_u8(buf, data->c.value.isnative);
+         buzzmsg_serialize_u32(buf, data->c.value.ref);
          break;
       }
       default:
-- 
2.43.0


From f1358977869f632192a64b93c366e35a0da234ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:09 +0000
Subject: [PATCH 20/59] fix: discard malformed broadcasts and empty messages

---
 src/buzz/buzzvm.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 9ca4e31..df78d06 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -302,12 +302,21 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Discard empty messages */
+      if(buzzmsg_payload_size(msg) == 0) {
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -317,6 +326,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
-- 
2.43.0


From 550da1f9264036efc940bc24734b060070f90bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:12 +0000
Subject: [PATCH 21/59] fix: discard messages with values of unknown types or
 invalid keys

---
 src/buzz/buzztype.c  | 6 ++++++
 src/buzz/buzzvstig.c | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 3a6f29c..7417b4d 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -582,6 +582,8 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   /* Only these types can be sent */
+   if(type > BUZZTYPE_CLOSURE) return -1;
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
@@ -612,6 +614,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             buzzobj_t v;
             p = buzzobj_deserialize(&k, buf, p, vm);
             if(p < 0) return -1;
+            /* Only these types can be keys of a table */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
             buzzdict_set((*data)->t.value, &k, &v);
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 47d0cdd..05ecbfe 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -137,6 +137,9 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
    /* Deserialize the key */
    p = buzzobj_deserialize(key, buf, p, vm);
    if(p < 0) return -1;
+   /* These types can't be keys */
+   if((*key)->o.type == BUZZTYPE_TABLE ||
+      (*key)->o.type == BUZZTYPE_CLOSURE) return -1;
    /* Deserialize the data */
    p = buzzobj_deserialize(&((*data)->data), buf, p, vm);
    if(p < 0) return -1;
-- 
2.43.0


From 4549d39f014d4dab69c5659630df832e84268ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:46 +0000
Subject: [PATCH 22/59] fix: report arithmetic on wrong types with an error
 message

---
 src/buzz/buzzvm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index df78d06..c1cb43a 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -40,8 +40,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
        op1->o.type != BUZZTYPE_FLOAT) ||                                \
       (op2->o.type != BUZZTYPE_INT &&                                   \
        op2->o.type != BUZZTYPE_FLOAT))  {                               \
-      (vm)->state = BUZZVM_STATE_ERROR;                                 \
-      (vm)->error = BUZZVM_ERROR_TYPE;                                  \
+      buzzvm_seterror((vm), BUZZVM_ERROR_TYPE, "operands must be numbers"); \
       return (vm)->state;                                               \
    }                                                                    \
    buzzdarray_pop(vm->stack);                                           \
@@ -1530,8 +1529,7 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "operands must be numbers");
       return (vm)->state;
    }
 }
@@ -1570,8 +1568,7 @@ buzzvm_state buzzvm_pow(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "operands must be numbers");
       return (vm)->state;
    }
 }
@@ -1594,8 +1591,7 @@ buzzvm_state buzzvm_unm(buzzvm_t vm) {
       return buzzvm_push(vm, res);
    }
    else {
-      (vm)->state = BUZZVM_STATE_ERROR;
-      (vm)->error = BUZZVM_ERROR_TYPE;
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "operands must be numbers");
       return (vm)->state;
    }
 }
-- 
2.43.0


From f80cb406d159470575b985fa900dd313815f24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 23/59] fix: integer division by zero is an error of the
 script, not a crash of the process

---
 src/buzz/buzzvm.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index c1cb43a..c26f307 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1487,7 +1487,35 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Checks whether an integer division or modulo would trap: the processor
+ * refuses to divide by zero, and to divide the smallest integer by -1.
+ * @return 0 if it would not, 1 for a division by zero, -1 for the overflow.
+ */
+static int buzzvm_div_traps(buzzvm_t vm) {
+   if(buzzdarray_size(vm->stack) < 2) return 0;
+   buzzobj_t op1 = buzzvm_stack_at(vm, 1);
+   buzzobj_t op2 = buzzvm_stack_at(vm, 2);
+   if(op1->o.type != BUZZTYPE_INT || op2->o.type != BUZZTYPE_INT) return 0;
+   if(op1->i.value == 0) return 1;
+   if(op1->i.value == -1 && op2->i.value == INT32_MIN) return -1;
+   return 0;
+}
+
+/****************************************/
+/****************************************/
+
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   int traps = buzzvm_div_traps(vm);
+   if(traps > 0) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "integer division by zero");
+      return vm->state;
+   }
+   if(traps < 0) {
+      /* The result wraps around like that of the other operations */
+      buzzvm_pop(vm);
+      return vm->state;
+   }
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1496,6 +1524,16 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
    buzzvm_stack_assert((vm), 2);
+   int traps = buzzvm_div_traps(vm);
+   if(traps > 0) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "integer modulo by zero");
+      return vm->state;
+   }
+   if(traps < 0) {
+      buzzvm_pop(vm);
+      buzzvm_pop(vm);
+      return buzzvm_pushi(vm, 0);
+   }
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
    buzzdarray_pop(vm->stack);
-- 
2.43.0


From 600a3f1edb260348e43ca2d937b216d8cb26e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 24/59] fix: modulo of mixed integers and floats adds the
 operand that was passed

---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index c26f307..a1b1371 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1556,14 +1556,14 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += op1->f.value;
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From 6490a01e78c20fce60261e2de61409f7cd0ee1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 25/59] fix: name the type of an invalid table key instead of
 crashing

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a1b1371..0fa90af 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1352,7 +1352,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From 9ebbe1a143a7b62745a274b418e156d69700a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:57 +0000
Subject: [PATCH 26/59] fix: comparing a large float with a string overflowed a
 buffer

---
 src/buzz/buzztype.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 7417b4d..fab16ed 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -174,8 +174,8 @@ int buzzobj_cmp(const buzzobj_t a,
       return strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
-      char str[30];
-      sprintf(str, "%f", b->f.value);
+      char str[64];
+      snprintf(str, sizeof(str), "%f", b->f.value);
       return strcmp(a->s.value.str, str);
    }
 
@@ -185,8 +185,8 @@ int buzzobj_cmp(const buzzobj_t a,
       return strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
-      sprintf(str, "%f", a->f.value);
+      char str[64];
+      snprintf(str, sizeof(str), "%f", a->f.value);
       return strcmp(str, b->s.value.str);
    }
    /* Tables */
-- 
2.43.0


From 9db8c3c85c982ee5f508118833db75d3c61b0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:00 +0000
Subject: [PATCH 27/59] fix: comparing closures or userdata with other values
 does not abort the process

---
 src/buzz/buzztype.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index fab16ed..46a43e4 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -211,9 +211,16 @@ int buzzobj_cmp(const buzzobj_t a,
       if((uintptr_t)(a->u.value) > (uintptr_t)(b->u.value)) return 1;
       return 0;
    }
-   // TODO better error management
-   fprintf(stderr, "[TODO] %s:%d: Error for comparison between Buzz objects of types %d and %d\n", __FILE__, __LINE__, a->o.type, b->o.type);
-   abort();
+   /* Closures */
+   if(a->o.type == BUZZTYPE_CLOSURE && b->o.type == BUZZTYPE_CLOSURE) {
+      if(a->c.value.isnative != b->c.value.isnative)
+         return a->c.value.isnative < b->c.value.isnative ? -1 : 1;
+      if(a->c.value.ref != b->c.value.ref)
+         return a->c.value.ref < b->c.value.ref ? -1 : 1;
+      return 0;
+   }
+   /* Different types, none of the above: they are ordered by type */
+   return a->o.type < b->o.type ? -1 : 1;
 }
 
 /****************************************/
-- 
2.43.0


From e2ab4537a3b221284cd7c57a2c3bf4c85c892fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:03 +0000
Subject: [PATCH 28/59] fix: find functions that are registered already, or the
 list grows forever

---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0fa90af..8a2403b 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1108,7 +1108,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From c0b89c7aea83de38ba755e04b0cf06798aef01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 29/59] fix: keep the error of a listener that fails

---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 8a2403b..480a6db 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -337,8 +337,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             buzzvm_push(vm, topic);
             buzzvm_push(vm, value);
             buzzvm_push(vm, rido);
-            buzzvm_closure_call(vm, 3);
-            buzzvm_pop(vm);
+            if(buzzvm_closure_call(vm, 3) == BUZZVM_STATE_READY)
+               buzzvm_pop(vm);
             break;
          }
          case BUZZMSG_VSTIG_PUT: {
-- 
2.43.0


From 16bf17546d3c503e8031df21ea7dc217fcf575c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 30/59] fix: refuse to call a native closure that points
 outside of the script

---
 src/buzz/buzzvm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 480a6db..a451d49 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1136,6 +1136,12 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
+   /* Make sure that native closures point into the script */
+   if(c->c.value.isnative &&
+      (c->c.value.ref) >= vm->bcode_size) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, NULL);
+      return vm->state;
+   }
    /* Create a new local symbol list copying the parent's */
    vm->lsyms =
       buzzvm_lsyms_new(isswrm,
-- 
2.43.0


From ab3358621240d4bcad048c7544539170a9ea2367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 31/59] fix: swarm and stigmergy methods require a table with
 an integer id

---
 src/buzz/buzzswarm.c | 6 ++++--
 src/buzz/buzzvstig.c | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 1e81cb0..864c7d7 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -15,7 +15,8 @@
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
-   buzzvm_tget(vm);                                       \
+   if(buzzvm_tget(vm) != BUZZVM_STATE_READY) return vm->state; \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 /****************************************/
@@ -364,7 +365,8 @@ int buzzswarm_others(buzzvm_t vm) {
    /* Get the id of the current swarm */
    buzzvm_lload(vm, 0);
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
-   buzzvm_tget(vm);
+   if(buzzvm_tget(vm) != BUZZVM_STATE_READY) return vm->state;
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    uint16_t id1 = buzzvm_stack_at(vm, 1)->i.value;
    /* Get the swarm entry */
    const uint8_t* x = buzzdict_get(vm->swarms, &id1, uint8_t);
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 05ecbfe..40a15d5 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -16,7 +16,8 @@
 #define id_get()                                          \
    buzzvm_lload(vm, 0);                                   \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1)); \
-   buzzvm_tget(vm);                                       \
+   if(buzzvm_tget(vm) != BUZZVM_STATE_READY) return vm->state; \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_INT);               \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
 #define add_field(FIELD, VAL, METHOD)                       \
-- 
2.43.0


From 99b40cb136ad836f6cbaadc33ec48e79248f6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 32/59] fix: a closure used as virtual stigmergy key is an
 error, not an abort

---
 src/buzz/buzzvstig.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 40a15d5..9cfd2f5 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -199,6 +199,10 @@ int buzzvstig_put(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   if(k->o.type == BUZZTYPE_CLOSURE) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as virtual stigmergy key", buzztype_desc[k->o.type]);
+      return vm->state;
+   }
    /* Get value */
    buzzvm_lload(vm, 2);
    buzzobj_t v = buzzvm_stack_at(vm, 1);
@@ -312,6 +316,10 @@ int buzzvstig_get(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   if(k->o.type == BUZZTYPE_CLOSURE) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as virtual stigmergy key", buzztype_desc[k->o.type]);
+      return vm->state;
+   }
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-- 
2.43.0


From 9622f1bc831a275832c94bc18dcf6521f3793970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:39 +0000
Subject: [PATCH 33/59] fix: free the error message and the unprocessed
 messages of a virtual machine

---
 src/buzz/buzzinmsg.c | 6 ++++++
 src/buzz/buzzvm.c    | 2 ++
 src/buzz/buzzvm.h    | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 0838b09..3e0977a 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -9,6 +9,12 @@
 /****************************************/
 
 void buzzvm_inmsg_queue_destroy_entry(const void* key, void* data, void* param) {
+   /* Get rid of the messages that were not processed */
+   buzzdarray_t q = *(buzzdarray_t*)data;
+   for(uint32_t i = 0; i < buzzdarray_size(q); ++i) {
+      buzzmsg_payload_t p = buzzdarray_get(q, i, buzzmsg_payload_t);
+      buzzmsg_payload_destroy(&p);
+   }
    free((void*)key);
    buzzdarray_destroy((buzzdarray_t*)data);
    free(data);
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a451d49..f7c00be 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -637,6 +637,8 @@ void buzzvm_destroy(buzzvm_t* vm) {
    buzzdict_destroy(&(*vm)->vstigs);
    /* Get rid of neighbor value listeners */
    buzzdict_destroy(&(*vm)->listeners);
+   /* Get rid of the error message */
+   free((*vm)->errormsg);
    free(*vm);
    *vm = 0;
 }
diff --git a/src/buzz/buzzvm.h b/src/buzz/buzzvm.h
index 4f0aa09..daa2f29 100644
--- a/src/buzz/buzzvm.h
+++ b/src/buzz/buzzvm.h
@@ -865,7 +865,7 @@ extern "C" {
  * @param vm The VM data.
  * @param num The number of expected local variables.
  */
-#define buzzvm_lnum_assert(vm, num) if(buzzvm_lnum(vm) != num) { (vm)->state = BUZZVM_STATE_ERROR; (vm)->error = BUZZVM_ERROR_LNUM; asprintf(&(vm)->errormsg, "%s: expected %d parameters, got %" PRId64, buzzvm_error_desc[(vm)->error], num, buzzvm_lnum(vm)); return (vm)->state; }
+#define buzzvm_lnum_assert(vm, num) if(buzzvm_lnum(vm) != num) { buzzvm_seterror(vm, BUZZVM_ERROR_LNUM, "expected %d parameters, got %" PRId64, num, (int64_t)buzzvm_lnum(vm)); return (vm)->state; }
 
 /**
  * Calls a normal closure.
-- 
2.43.0


From 7ff288eddfe9dd2b58f50b21480cbec39ece3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:48 +0000
Subject: [PATCH 34/59] fix: io.fforeach goes through all the lines of a file
 and stops at errors

---
 src/buzz/buzzio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index e1d6a1f..dd94bae 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -172,16 +172,17 @@ int buzzio_fforeach(buzzvm_t vm) {
       buzzvm_pushs(vm, buzzvm_string_register(vm, line, 0));
       /* Call closure */
       vmstate = buzzvm_closure_call(vm, 1);
+      if(vmstate != BUZZVM_STATE_READY) break;
+      /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
       /* Next line */
       len = getline(&line, &cap, f);
-      /* Remove the nil (return value) left by closure_call */
-      buzzvm_pop(vm);
    }
    /* Register error information */
    buzzio_update_error(vm);
    /* All done */
    free(line);
+   if(vmstate != BUZZVM_STATE_READY) return vm->state;
    return buzzvm_ret0(vm);
 }
 
-- 
2.43.0


From 0db87b53b0c5d54f19a9da9c5151e8908bf10ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 35/59] fix: io.errno tells whether the last operation failed,
 including the end of a write and stale errors

---
 src/buzz/buzzio.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index dd94bae..0498322 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -23,7 +23,7 @@
 /****************************************/
 /****************************************/
 
-static void buzzio_update_error(buzzvm_t vm) {
+static void buzzio_update_error(buzzvm_t vm, int err) {
    /* Get table */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "io", 1));
    buzzvm_gload(vm);
@@ -31,11 +31,11 @@ static void buzzio_update_error(buzzvm_t vm) {
    /* Update error id */
    buzzvm_push(vm, t);
    buzzvm_pushs(vm, buzzvm_string_register(vm, "errno", 1));
-   buzzvm_pushi(vm, errno);
+   buzzvm_pushi(vm, err);
    buzzvm_tput(vm);
    /* Update error message */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "error_message", 1));
-   if(errno) buzzvm_pushs(vm, buzzvm_string_register(vm, strerror(errno), 0));
+   if(err) buzzvm_pushs(vm, buzzvm_string_register(vm, strerror(err), 0));
    else buzzvm_pushs(vm, buzzvm_string_register(vm, "No error", 0));
    buzzvm_tput(vm);
 }
@@ -57,8 +57,7 @@ int buzzio_register(buzzvm_t vm) {
    buzzvm_push(vm, t);
    buzzvm_gstore(vm);
    /* Register error information */
-   errno = 0;
-   buzzio_update_error(vm);
+   buzzio_update_error(vm, 0);
    /* All done */
    return vm->state;
 }
@@ -80,9 +79,10 @@ int buzzio_fopen(buzzvm_t vm) {
    const char* fmode = buzzvm_stack_at(vm, 1)->s.value.str;
    buzzvm_pop(vm);
    /* Try to open the file */
+   errno = 0;
    FILE* f = fopen(fname, fmode);
    /* Register error information */
-   buzzio_update_error(vm);
+   buzzio_update_error(vm, f ? 0 : errno);
    if(!f) {
       /* Error occurred, return nil */
       buzzvm_pushnil(vm);
@@ -116,9 +116,10 @@ int buzzio_fclose(buzzvm_t vm) {
    /* Get file handle */
    filehandle_get(f);
    /* Close the file */
-   fclose(f);
+   errno = 0;
+   int err = fclose(f) == 0 ? 0 : errno;
    /* Register error information */
-   buzzio_update_error(vm);
+   buzzio_update_error(vm, err);
    /* All done */
    return buzzvm_ret0(vm);
 }
@@ -131,17 +132,21 @@ int buzzio_fsize(buzzvm_t vm) {
    buzzvm_lnum_assert(vm, 1);
    /* Get file handle */
    filehandle_get(f);
+   int err = 0;
+   errno = 0;
    /* Remember the current position */
    long int cur = ftell(f);
+   if(cur < 0) err = errno;
    /* Get the file size */
-   fseek(f, 0, SEEK_END);
+   if(fseek(f, 0, SEEK_END) != 0 && !err) err = errno;
    long int sz = ftell(f);
+   if(sz < 0 && !err) err = errno;
    /* Go back to saved position */
-   fseek(f, cur, SEEK_SET);
+   if(fseek(f, cur, SEEK_SET) != 0 && !err) err = errno;
    /* Put size on the stack */
    buzzvm_pushi(vm, sz);
    /* Register error information */
-   buzzio_update_error(vm);
+   buzzio_update_error(vm, err);
    /* All done */
    return buzzvm_ret1(vm);
 }
@@ -161,6 +166,7 @@ int buzzio_fforeach(buzzvm_t vm) {
    int vmstate = vm->state;
    size_t cap; /* line buffer capacity */
    char* line = NULL;
+   errno = 0;
    ssize_t len = getline(&line, &cap, f);
    while(len >= 0 &&
          vmstate == BUZZVM_STATE_READY) {
@@ -176,10 +182,11 @@ int buzzio_fforeach(buzzvm_t vm) {
       /* Remove the return value left by closure_call */
       buzzvm_pop(vm);
       /* Next line */
+      errno = 0;
       len = getline(&line, &cap, f);
    }
-   /* Register error information */
-   buzzio_update_error(vm);
+   /* Register error information (reaching the end of the file is no error) */
+   buzzio_update_error(vm, len < 0 ? errno : 0);
    /* All done */
    free(line);
    if(vmstate != BUZZVM_STATE_READY) return vm->state;
@@ -200,6 +207,7 @@ int buzzio_fwrite(buzzvm_t vm) {
    }
    /* Used to store the return value of fprintf */
    int err = 0;
+   errno = 0;
    /* Get file handle */
    filehandle_get(f);
    /* Go through the arguments */
@@ -239,9 +247,9 @@ int buzzio_fwrite(buzzvm_t vm) {
       }
    }
    /* Add newline at the end */
-   if(err >= 0) fprintf(f, "\n");
+   if(err >= 0) err = fprintf(f, "\n");
    /* Register error information */
-   buzzio_update_error(vm);
+   buzzio_update_error(vm, err < 0 ? errno : 0);
    /* All done */
    return buzzvm_ret0(vm);
 }
-- 
2.43.0


From 7bdc4d9f83f07c1428c0c2828ada6f74cd655e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:26 +0000
Subject: [PATCH 36/59] fix: using a file that is not open is an error of the
 script, not a crash

---
 src/buzz/buzzio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 0498322..3a4dd79 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -17,6 +17,7 @@
    buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);                 \
    buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1)); \
    buzzvm_tget(vm);                                           \
+   buzzvm_type_assert(vm, 1, BUZZTYPE_USERDATA);              \
    FILE* VAR = buzzvm_stack_at(vm, 1)->u.value;               \
    buzzvm_pop(vm);
 
@@ -118,6 +119,11 @@ int buzzio_fclose(buzzvm_t vm) {
    /* Close the file */
    errno = 0;
    int err = fclose(f) == 0 ? 0 : errno;
+   /* The handle is not valid anymore */
+   buzzvm_lload(vm, 1);
+   buzzvm_pushs(vm, buzzvm_string_register(vm, "handle", 1));
+   buzzvm_pushnil(vm);
+   buzzvm_tput(vm);
    /* Register error information */
    buzzio_update_error(vm, err);
    /* All done */
-- 
2.43.0


From 6107ea6e55d7883305cbfa3e7ec5d65d74796ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:28 +0000
Subject: [PATCH 37/59] fix: string.sub with a negative start is out of bounds

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..1a25d74 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From 8d1358a757bd7c40f77b5f8cdeb044e474c11f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:29 +0000
Subject: [PATCH 38/59] fix: string.tostring returns nil for what it can't
 convert

---
 src/buzz/buzzstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 1a25d74..6a9bddb 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,6 +152,7 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-- 
2.43.0


From f83c4d1ebba30c1d05383b00be513baf964d60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:01 +0000
Subject: [PATCH 39/59] fix: math.rng.uniform stays in range for negative and
 large integers

---
 src/buzz/buzzmath.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..117cd20 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -56,6 +56,13 @@ uint32_t mt_uniform32(buzzvm_t vm) {
    return y;
 }
 
+/* Returns a random integer between 0 and the given number, which can be negative */
+static int64_t mt_uniform_upto(buzzvm_t vm,
+                               int64_t x) {
+   uint64_t r = (uint64_t)mt_uniform32(vm) * (uint64_t)(x < 0 ? -x : x) / INT_MAX;
+   return x < 0 ? -(int64_t)r : (int64_t)r;
+}
+
 /****************************************/
 /****************************************/
 
@@ -502,7 +509,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+                      mt_uniform_upto(vm, max->i.value));
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
@@ -521,7 +528,7 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
          buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+                      mt_uniform_upto(vm, (int64_t)max->i.value - min->i.value) + min->i.value);
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
-- 
2.43.0


From 8bfa94067c66917e76888d704072451ec278f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 40/59] fix: math.rng.gaussian accepts the parameters it
 documents

---
 src/buzz/buzzmath.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 117cd20..faead6a 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -584,6 +584,14 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
    /* Parse arguments */
    float stddev = 1.0f;
    float mean = 0.0f;
+   if(buzzvm_lnum(vm) > 2) {
+      /* Error */
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_LNUM,
+                      "expected 0, 1, or 2 parameters, got %" PRId64,
+                      buzzvm_lnum(vm));
+      return vm->state;
+   }
    if(buzzvm_lnum(vm) > 0) {
       /* Take first argument */
       buzzvm_lload(vm, 1);
@@ -601,7 +609,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -615,14 +623,6 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
-         /* Error */
-         buzzvm_seterror(vm,
-                         BUZZVM_ERROR_LNUM,
-                         "expected 0, 1, or 2 parameters, got %" PRId64,
-                         buzzvm_lnum(vm));
-         return vm->state;
-      }
    }
    /* If we are here, stddev and mean have been parsed */
    /* This is the Box-Muller method in its cartesian variant, see
-- 
2.43.0


From b81ff292338360fcdd6180c14769c0282dc0afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:04 +0000
Subject: [PATCH 41/59] fix: math.rng.exponential reads its parameter

---
 src/buzz/buzzmath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index faead6a..ee6942b 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -646,6 +646,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
-- 
2.43.0


From f2a23ec6fc1c73eff20bed769460f644eac16ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 42/59] fix: do not crash when the last element of a bucket is
 removed while iterating

---
 src/buzz/buzzdict.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzdict.c b/src/buzz/buzzdict.c
index acefe98..9da6450 100644
--- a/src/buzz/buzzdict.c
+++ b/src/buzz/buzzdict.c
@@ -169,7 +169,8 @@ void buzzdict_foreach(buzzdict_t dt,
       /* Is the bucket used? */
       if(dt->buckets[i] != NULL) {
          /* Go through elements in the bucket */
-         for(j = 0; j < buzzdarray_size(dt->buckets[i]); ++j) {
+         /* The function might remove elements, and the bucket with the last one */
+         for(j = 0; dt->buckets[i] != NULL && j < buzzdarray_size(dt->buckets[i]); ++j) {
             const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[i], j, struct buzzdict_entry_s);
             fun(e->key, e->data, params);
          }
-- 
2.43.0


From 8122389937bca8d92760ce93aaa6ccbbd26bf9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:55 +0000
Subject: [PATCH 43/59] fix: keep the original error when a function called by
 a C function fails

---
 src/buzz/buzzvm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f7c00be..2a9cace 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1401,6 +1401,8 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   /* After an error, keep everything as it was when the error occurred */
+   if(vm->state == BUZZVM_STATE_ERROR) return vm->state;
    /* Make sure there is a call to return from */
    if(buzzdarray_size(vm->stacks) < 2) {
       buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
@@ -1436,6 +1438,8 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   /* After an error, keep everything as it was when the error occurred */
+   if(vm->state == BUZZVM_STATE_ERROR) return vm->state;
    /* Make sure there is a call to return from */
    if(buzzdarray_size(vm->stacks) < 2) {
       buzzvm_seterror(vm, BUZZVM_ERROR_STACK, "return outside of a function");
-- 
2.43.0


From feb008ce037082ee6c4c83cac6c62e726ac99320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:56 +0000
Subject: [PATCH 44/59] fix: map and filter hold on to the entry whose function
 changes the table

---
 src/buzz/buzzneighbors.c | 22 +++++++++++++++++-----
 src/buzz/buzztype.c      | 32 +++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b8d07e6..81c0401 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -395,12 +395,16 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    struct neighbor_map_each_s* d = (struct neighbor_map_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   /* Keep key and value on the stack: the closure might remove them from the table */
+   buzzobj_t v = *(buzzobj_t*)data;
+   buzzvm_push(d->vm, rid);
+   buzzvm_push(d->vm, v);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
    buzzvm_push(d->vm, d->closure);
    buzzvm_push(d->vm, rid);
-   buzzvm_push(d->vm, *(buzzobj_t*)data);
+   buzzvm_push(d->vm, v);
    /* Call closure */
    d->vm->state = buzzvm_closure_call(d->vm, 2);
    if(d->vm->state != BUZZVM_STATE_READY) return;
@@ -415,7 +419,9 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    /* Add entry to the return table */
    buzzobj_t retval = buzzvm_stack_at(d->vm, 1);
    buzzdict_set(d->result, &rid, &retval);
-   /* Get rid of return value */
+   /* Get rid of return value, value, and key */
+   buzzvm_pop(d->vm);
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
@@ -539,12 +545,16 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    struct neighbor_filter_each_s* d = (struct neighbor_filter_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   /* Keep key and value on the stack: the closure might remove them from the table */
+   buzzobj_t v = *(buzzobj_t*)data;
+   buzzvm_push(d->vm, rid);
+   buzzvm_push(d->vm, v);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
    buzzvm_push(d->vm, d->closure);
    buzzvm_push(d->vm, rid);
-   buzzvm_push(d->vm, *(buzzobj_t*)data);
+   buzzvm_push(d->vm, v);
    /* Call closure */
    d->vm->state = buzzvm_closure_call(d->vm, 2);
    if(d->vm->state != BUZZVM_STATE_READY) return;
@@ -561,9 +571,11 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(d->result, &rid, data);
+      buzzdict_set(d->result, &rid, &v);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, value, and key */
+   buzzvm_pop(d->vm);
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 46a43e4..6fcde70 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -346,12 +346,17 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_map_params* p = (struct buzzobj_map_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Keep key and value on the stack: the closure might remove them from the table */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t v = *(buzzobj_t*)data;
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -366,12 +371,14 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Manage return value */
    buzzobj_t r = buzzvm_stack_at(p->vm, 1);
    if(r->o.type != BUZZTYPE_NIL) {
-      buzzdict_set(p->result, key, &r);
+      buzzdict_set(p->result, &k, &r);
    }
    else {
-      buzzdict_remove(p->result, key);
+      buzzdict_remove(p->result, &k);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, value, and key */
+   buzzvm_pop(p->vm);
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
@@ -466,12 +473,17 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_filter_params* p = (struct buzzobj_filter_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Keep key and value on the stack: the closure might remove them from the table */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t v = *(buzzobj_t*)data;
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, v);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -488,9 +500,11 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(p->result, key, data);
+      buzzdict_set(p->result, &k, &v);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, value, and key */
+   buzzvm_pop(p->vm);
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
-- 
2.43.0


From 83c82f87c9845a37c3f8c6b7f5e6060ef089bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:24 +0000
Subject: [PATCH 45/59] fix: buzzdebug_continue leaves the breakpoint it
 stopped at and keeps errors

---
 src/buzz/buzzdebug.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 763d78a..1136fbc 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -281,17 +281,22 @@ int buzzdebug_breakpoint_exists(buzzdebug_t dbg,
 
 buzzvm_state buzzdebug_continue(buzzvm_t vm,
                                 buzzdebug_t dbg) {
+   int stopped = (vm->state == BUZZVM_STATE_STOPPED);
    /* Make sure the VM is either ready or stopped */
    if(vm->state != BUZZVM_STATE_READY) {
       if(vm->state == BUZZVM_STATE_STOPPED)
          vm->state = BUZZVM_STATE_READY;
       else return vm->state;
    }
+   /* Leave the breakpoint the VM is stopped at, if any */
+   if(stopped) buzzvm_step(vm);
    /* Go on until the end, an error, or a breakpoint */
-   while(!buzzdebug_breakpoint_exists(dbg, vm->pc) &&
-         buzzvm_step(vm) == BUZZVM_STATE_READY);
-   if(buzzdebug_breakpoint_exists(dbg, vm->pc))
-      vm->state = BUZZVM_STATE_STOPPED;
+   while(vm->state == BUZZVM_STATE_READY) {
+      if(buzzdebug_breakpoint_exists(dbg, vm->pc))
+         vm->state = BUZZVM_STATE_STOPPED;
+      else
+         buzzvm_step(vm);
+   }
    return vm->state;
 }
 
-- 
2.43.0


From ba0a380be027b60d22f360f7109f4283be6bcb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:25 +0000
Subject: [PATCH 46/59] fix: calling functions through the debugger

---
 src/buzz/buzzdebug.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 1136fbc..62207dc 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -313,21 +313,23 @@ buzzvm_state buzzdebug_closure_call(buzzvm_t vm,
       else return vm->state;
    }
    /* Insert the self table */
-   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, buzzobj_new(BUZZTYPE_NIL));
+   buzzobj_t o = buzzheap_newobj(vm, BUZZTYPE_NIL);
+   buzzdarray_insert(vm->stack, buzzdarray_size(vm->stack) - argc - 1, &o);
    /* Push the argument count */
    buzzvm_pushi(vm, argc);
    /* Save the current stack depth */
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do {
-      if(buzzdebug_breakpoint_exists(dbg, vm->pc))
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks)) {
+      if(buzzdebug_breakpoint_exists(dbg, vm->pc)) {
          vm->state = BUZZVM_STATE_STOPPED;
+         return vm->state;
+      }
       if(buzzvm_step(vm) != BUZZVM_STATE_READY)
          return vm->state;
    }
-   while(stacks < buzzdarray_size(vm->stacks));
    return vm->state;
 }
 
@@ -353,9 +355,10 @@ buzzvm_state buzzdebug_function_call(buzzvm_t vm,
    buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
    /* Move closure before arguments */
    if(argc > 0) {
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzdarray_insert(vm->stack,
                         buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+                        &c);
       buzzvm_pop(vm);
    }
    /* Call the closure */
-- 
2.43.0


From 9837c420c6d7815f3655da9c1a2bd1f409a541b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:52 +0000
Subject: [PATCH 47/59] fix: buzzdebug_tofile reports errors as documented, no
 overflow for long file names

---
 src/buzz/buzzdebug.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzdebug.c b/src/buzz/buzzdebug.c
index 62207dc..81c27d7 100644
--- a/src/buzz/buzzdebug.c
+++ b/src/buzz/buzzdebug.c
@@ -120,7 +120,8 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
    /* Keep reading until you reach the end of the data or an error */
    uint32_t offset;
    uint64_t line, col;
-   uint16_t srcfnlen, srcfnlenmax = 512;
+   uint16_t srcfnlen;
+   uint32_t srcfnlenmax = 512;
    char* srcfname = (char*)malloc(srcfnlenmax);
    /* char fepmark; */
    while(!feof(fd) && !ferror(fd)) {
@@ -130,8 +131,8 @@ int buzzdebug_fromfile(buzzdebug_t dbg,
          fread(&col,      sizeof(col),      1, fd) == 1 &&
          fread(&srcfnlen, sizeof(srcfnlen), 1, fd) == 1) {
          /* Read source file name, resizing buffer if necessary */
-         if(srcfnlen > srcfnlenmax) {
-            srcfnlenmax = srcfnlen + 1;
+         if(srcfnlen >= srcfnlenmax) {
+            srcfnlenmax = (uint32_t)srcfnlen + 1;
             srcfname = realloc(srcfname, srcfnlenmax);
          }
          if(fread(srcfname, 1, srcfnlen, fd) == srcfnlen) {
@@ -187,8 +188,8 @@ int buzzdebug_tofile(const char* fname,
    };
    buzzdict_foreach(dbg->off2script, buzzdebug_entry_dump, &i);
    /* Close file */
-   fclose(fd);
-   return i.ok ? 0 : 1;
+   if(fclose(fd) != 0) i.ok = 0;
+   return i.ok;
 }
 
 /****************************************/
-- 
2.43.0


From b0a949746d1e5cb0021ae9b92c5911559a685dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:54 +0000
Subject: [PATCH 48/59] fix: bzzasm, bzzdeasm and bzzrun stop at I/O errors
 with a non-zero status

---
 src/buzz/buzzasm.c        | 15 +++++++++++++--
 src/buzz/buzzasm_main.c   | 22 ++++++++++++++++++----
 src/buzz/buzzdeasm_main.c | 28 +++++++++++++++++++++++-----
 src/buzz/buzzrun.c        | 19 ++++++++++++++-----
 4 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index bcd8c25..a553b75 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -308,6 +308,12 @@ int buzz_asm(const char* fname,
       fprintf(stderr, "ERROR: %s:%zu unknown instruction \"%s\"\n", fname, lineno, instr);
       return 2;
    }
+   /* Make sure the whole file was read */
+   if(ferror(fd)) {
+      perror(fname);
+      fclose(fd);
+      return 1;
+   }
    /* Close file */
    fclose(fd);
    /*
@@ -416,8 +422,13 @@ int buzz_deasm(const uint8_t* buf,
       /* Newline */
       fprintf(fd, "\n");
    }
-   /* Close file */
-   fclose(fd);
+   /* Close file, making sure everything was written */
+   int err = ferror(fd);
+   if(fclose(fd) != 0) err = 1;
+   if(err) {
+      perror(fname);
+      return 1;
+   }
    return 0;
 }
 
diff --git a/src/buzz/buzzasm_main.c b/src/buzz/buzzasm_main.c
index 80332bc..064eb99 100644
--- a/src/buzz/buzzasm_main.c
+++ b/src/buzz/buzzasm_main.c
@@ -1,6 +1,7 @@
 #include "buzzasm.h"
 #include <stdio.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/types.h>
@@ -16,7 +17,10 @@ int main(int argc, char** argv) {
    int of = open(argv[2],
                  O_WRONLY | O_CREAT | O_TRUNC,
                  S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-   if(of < 0) perror(argv[2]);
+   if(of < 0) {
+      perror(argv[2]);
+      return 1;
+   }
    /* Parse script */
    uint8_t* bcode_buf;
    uint32_t bcode_size;
@@ -29,13 +33,23 @@ int main(int argc, char** argv) {
    size_t tot = 0;
    while(tot < bcode_size) {
       written = write(of, bcode_buf + tot, bcode_size - tot);
-      if(written < 0) perror(argv[2]);
+      if(written < 0) {
+         if(errno == EINTR) continue;
+         perror(argv[2]);
+         return 1;
+      }
       tot += written;
    }
-   buzzdebug_tofile(argv[3], dbg);
+   if(close(of) < 0) {
+      perror(argv[2]);
+      return 1;
+   }
+   if(!buzzdebug_tofile(argv[3], dbg)) {
+      perror(argv[3]);
+      return 1;
+   }
    /* Cleanup */
    free(bcode_buf);
    buzzdebug_destroy(&dbg);
-   close(of);
    return 0;
 }
diff --git a/src/buzz/buzzdeasm_main.c b/src/buzz/buzzdeasm_main.c
index 10416fc..439c8be 100644
--- a/src/buzz/buzzdeasm_main.c
+++ b/src/buzz/buzzdeasm_main.c
@@ -3,6 +3,7 @@
 
 #include <stdio.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <unistd.h>
 #include <sys/types.h>
@@ -16,23 +17,40 @@ int main(int argc, char** argv) {
    }
    /* Open bytecode file */
    int ifd = open(argv[1], O_RDONLY);
-   if(ifd < 0) perror(argv[1]);
+   if(ifd < 0) {
+      perror(argv[1]);
+      return 1;
+   }
    /* Read data */
-   size_t bcode_size = lseek(ifd, 0, SEEK_END);
-   lseek(ifd, 0, SEEK_SET);
+   off_t fsize = lseek(ifd, 0, SEEK_END);
+   if(fsize < 0 || lseek(ifd, 0, SEEK_SET) < 0) {
+      perror(argv[1]);
+      return 1;
+   }
+   size_t bcode_size = fsize;
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
    ssize_t rd;
    size_t tot = 0;
    while(tot < bcode_size) {
       rd = read(ifd, bcode_buf + tot, bcode_size - tot);
-      if(rd < 0) perror(argv[1]);
+      if(rd < 0) {
+         if(errno == EINTR) continue;
+         perror(argv[1]);
+         return 1;
+      }
+      if(rd == 0) {
+         fprintf(stderr, "%s: unexpected end of file\n", argv[1]);
+         return 1;
+      }
       tot += rd;
    }
    close(ifd);
    /* Read debug information */
    buzzdebug_t dbg = buzzdebug_new();
-   if(!buzzdebug_fromfile(dbg, argv[2]))
+   if(!buzzdebug_fromfile(dbg, argv[2])) {
       perror(argv[2]);
+      return 1;
+   }
    /* Go through bytecode */
    int rv = buzz_deasm(bcode_buf, bcode_size, dbg, argv[3]);
    /* Cleanup */
diff --git a/src/buzz/buzzrun.c b/src/buzz/buzzrun.c
index 2455043..368b13f 100644
--- a/src/buzz/buzzrun.c
+++ b/src/buzz/buzzrun.c
@@ -70,13 +70,22 @@ int main(int argc, char** argv) {
    }
    /* Read bytecode and fill in data structure */
    FILE* fd = fopen(bcfname, "rb");
-   if(!fd) perror(bcfname);
-   fseek(fd, 0, SEEK_END);
-   size_t bcode_size = ftell(fd);
-   rewind(fd);
+   if(!fd) {
+      perror(bcfname);
+      return 1;
+   }
+   long fsize = -1;
+   if(fseek(fd, 0, SEEK_END) != 0 ||
+      (fsize = ftell(fd)) < 0 ||
+      fseek(fd, 0, SEEK_SET) != 0) {
+      perror(bcfname);
+      return 1;
+   }
+   size_t bcode_size = fsize;
    uint8_t* bcode_buf = (uint8_t*)malloc(bcode_size);
    if(fread(bcode_buf, 1, bcode_size, fd) < bcode_size) {
-      perror(bcfname);
+      fprintf(stderr, "%s: cannot read the bytecode\n", bcfname);
+      return 1;
    }
    fclose(fd);
    /* Read debug information */
-- 
2.43.0


From 9cbadd6225213987ed586d38f00cb9a01eb0c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:56 +0000
Subject: [PATCH 49/59] fix: bzzparse reports unreadable sources and incomplete
 output as errors

---
 src/buzz/buzzlex.c    | 21 ++++++++++++++++++---
 src/buzz/buzzparser.c | 17 +++++++++++++++--
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index f80003f..bbacf7e 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -29,6 +29,7 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
    if(!fd) {
       /* Get the include path from the environment, if present */
       if(!getenv("BUZZ_INCLUDE_PATH")) {
+         perror(fname);
          return NULL;
       }
       /* Fetch the directories in the include path */
@@ -66,18 +67,32 @@ buzzlex_file_t buzzlex_file_new(const char* fname) {
    }
    /* Get absolute path; this internally creates a new string in the heap */
    char* afpath = realpath(fpath, NULL);
+   if(!afpath) {
+      perror(fpath);
+      fclose(fd);
+      return NULL;
+   }
    /* Create memory structure */
    buzzlex_file_t x = (buzzlex_file_t)malloc(sizeof(struct buzzlex_file_s));
    /* Get the file size */
-   fseek(fd, 0, SEEK_END);
-   x->buf_size = ftell(fd);
-   rewind(fd);
+   long fsize = -1;
+   if(fseek(fd, 0, SEEK_END) != 0 ||
+      (fsize = ftell(fd)) < 0 ||
+      fseek(fd, 0, SEEK_SET) != 0) {
+      perror(fpath);
+      fclose(fd);
+      free(afpath);
+      free(x);
+      return NULL;
+   }
+   x->buf_size = fsize;
    /* Create a buffer large enough to contain the data */
    x->buf = (char*)malloc(x->buf_size + 2);
    /* Copy the content of the file in the buffer */
    if(fread(x->buf, 1, x->buf_size, fd) < x->buf_size) {
       /* Read error */
       fclose(fd);
+      free(afpath);
       free(x->buf);
       free(x);
       fprintf(stderr, "'%s': read error\n", fname);
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 0c62721..04c2cbb 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -425,13 +425,18 @@ int parse_script(buzzparser_t par) {
       buzzlex_destroytok(&par->tok);
       par->tok = buzzlex_nexttok(par->lex);
    }
-   if(par->tok->type == BUZZTOK_EOF) return PARSE_OK;
+   if(par->tok->type == BUZZTOK_EOF)
+      /* Make sure a file inclusion error did not happen */
+      return buzzlex_done(par->lex) ? PARSE_OK : PARSE_ERROR;
    /* Add a symbol table */
    symt_push();
    /* Add the first chunk for the global scope */
    chunk_push(0);
    /* Parse the statements */
    if(!parse_statlist(par)) return PARSE_ERROR;
+   /* Make sure a file inclusion error did not happen */
+   if(par->tok->type == BUZZTOK_EOF && !buzzlex_done(par->lex))
+      return PARSE_ERROR;
    /* Finalize the output */
    chunk_append("\n@__exitpoint");
    chunk_append("\tdone");
@@ -1430,7 +1435,7 @@ void buzzparser_destroy(buzzparser_t* par) {
    buzzdarray_destroy(&((*par)->chunks));
    buzzdarray_destroy(&((*par)->symstack));
    free((*par)->asmfn);
-   fclose((*par)->asmstream);
+   if((*par)->asmstream) fclose((*par)->asmstream);
    free((*par)->scriptfn);
    buzzlex_destroy(&((*par)->lex));
    if((*par)->tok) buzzlex_destroytok(&((*par)->tok));
@@ -1462,6 +1467,14 @@ int buzzparser_parse(buzzparser_t par) {
    fprintf(par->asmstream, "\tnop\n");
    /* Write actual chunks */
    buzzdarray_foreach(par->chunks, chunk_print, par->asmstream);
+   /* Close the file, making sure everything was written */
+   int err = ferror(par->asmstream);
+   if(fclose(par->asmstream) != 0) err = 1;
+   par->asmstream = NULL;
+   if(err) {
+      perror(par->asmfn);
+      return PARSE_ERROR;
+   }
    return PARSE_OK;
 }
 
-- 
2.43.0


From 3ca99ed2c6b5a44dfbd085b6ded21d700d1abca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 50/59] fix: re-creating a virtual stigmergy inside its
 foreach() is a script error, not a use after free

---
 src/buzz/buzzvstig.c | 11 ++++++++++-
 src/buzz/buzzvstig.h |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9cfd2f5..72af81f 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -101,6 +101,7 @@ buzzvstig_t buzzvstig_new() {
       buzzvstig_elem_destroy);
    x->onconflict = NULL;
    x->onconflictlost = NULL;
+   x->iterating = 0;
    return x;
 }
 
@@ -166,6 +167,11 @@ int buzzvstig_create(buzzvm_t vm) {
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
+      /* A stigmergy can't be destroyed while foreach() is going through it */
+      if((*vs)->iterating) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "virtual stigmergy %u can't be created again inside its foreach()", id);
+         return vm->state;
+      }
       /* Found, destroy it */
       buzzdict_remove(vm->vstigs, &id);
    }
@@ -271,7 +277,10 @@ int buzzvstig_foreach(struct buzzvm_s* vm) {
       buzzobj_t c = buzzvm_stack_at(vm, 1);
       /* Go through the elements and apply the closure */
       struct buzzvstig_foreach_params p = { .vm = vm, .fun = c };
-      buzzdict_foreach((*vs)->data, buzzvstig_foreach_entry, &p);
+      buzzvstig_t x = *vs;
+      ++x->iterating;
+      buzzdict_foreach(x->data, buzzvstig_foreach_entry, &p);
+      --x->iterating;
    }
    /* Return */
    return buzzvm_ret0(vm);
diff --git a/src/buzz/buzzvstig.h b/src/buzz/buzzvstig.h
index cd74ef2..be13308 100644
--- a/src/buzz/buzzvstig.h
+++ b/src/buzz/buzzvstig.h
@@ -28,6 +28,7 @@ extern "C" {
       buzzdict_t data;
       buzzobj_t onconflict;
       buzzobj_t onconflictlost;
+      uint32_t iterating; /* how many foreach() loops are going on */
    };
    typedef struct buzzvstig_s* buzzvstig_t;
 
-- 
2.43.0


From 1a261cc0f8967d3ad58ac7d3e9f28aa309b94a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:06 +0000
Subject: [PATCH 51/59] fix: io.fforeach() reports read errors in the middle of
 a line

---
 src/buzz/buzzio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzio.c b/src/buzz/buzzio.c
index 3a4dd79..58cdfcd 100644
--- a/src/buzz/buzzio.c
+++ b/src/buzz/buzzio.c
@@ -172,9 +172,11 @@ int buzzio_fforeach(buzzvm_t vm) {
    int vmstate = vm->state;
    size_t cap; /* line buffer capacity */
    char* line = NULL;
+   clearerr(f);
    errno = 0;
    ssize_t len = getline(&line, &cap, f);
-   while(len >= 0 &&
+   /* If reading fails in the middle of a line, getline() returns what it got so far */
+   while(len >= 0 && !ferror(f) &&
          vmstate == BUZZVM_STATE_READY) {
       /* Remove newline if present */
       if(line[len-1] == '\n') line[len-1] = '\0';
@@ -192,7 +194,7 @@ int buzzio_fforeach(buzzvm_t vm) {
       len = getline(&line, &cap, f);
    }
    /* Register error information (reaching the end of the file is no error) */
-   buzzio_update_error(vm, len < 0 ? errno : 0);
+   buzzio_update_error(vm, len < 0 || ferror(f) ? errno : 0);
    /* All done */
    free(line);
    if(vmstate != BUZZVM_STATE_READY) return vm->state;
-- 
2.43.0


From bb10f2cefa4a7b932505e2b4e36ec7408369b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:21 +0000
Subject: [PATCH 52/59] fix: bzzparse reports a script that ends too early
 instead of crashing

---
 src/buzz/buzzlex.c    |  3 +++
 src/buzz/buzzparser.c | 28 +++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index bbacf7e..516d06f 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -276,6 +276,9 @@ buzzlex_t buzzlex_new(const char* fname) {
                             lexf->fname);
 
 buzztok_t buzzlex_nexttok(buzzlex_t lex) {
+   if(buzzdarray_isempty(lex))
+      /* The end of the script was reached already */
+      return eoftok;
    buzzlex_file_t lexf = buzzlex_getfile(lex);
    do {
       /* Look for a non-space character */
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index 04c2cbb..c311a10 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -349,6 +349,16 @@ void chunk_print(uint32_t pos, void* data, void* params) {
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
    }
 
+/*
+ * Returns the name of the file being parsed.
+ * At the end of the script no file is left, and it is the one of the script.
+ */
+static const char* curfile(buzzparser_t par) {
+   return buzzdarray_isempty(par->lex) ?
+      par->scriptfn :
+      buzzlex_getfile(par->lex)->fname;
+}
+
 int match(buzzparser_t par,
           buzztok_type_e type) {
    if(par->tok->type == BUZZTOK_EOF) {
@@ -361,7 +371,7 @@ int match(buzzparser_t par,
    if(par->tok->type != type) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected %s, found %s\n",
-              buzzlex_getfile(par->lex)->fname,
+              curfile(par),
               par->tok->line,
               par->tok->col,
               buzztok_desc[type],
@@ -575,7 +585,7 @@ int parse_var(buzzparser_t par) {
    if(s && s->global == SCOPE_LOCAL) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Duplicated symbol '%s'\n",
-              buzzlex_getfile(par->lex)->fname,
+              curfile(par),
               par->tok->line,
               par->tok->col,
               par->tok->value);
@@ -627,7 +637,7 @@ int parse_fun(buzzparser_t par) {
    if(buzzdarray_size(par->symstack) > 1) {
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: the definition of function %s() is nested within another scope. To define local functions, use the lambda syntax %s = function() { ... }.\n",
-              buzzlex_getfile(par->lex)->fname,
+              curfile(par),
               par->tok->line,
               par->tok->col,
               par->tok->value,
@@ -863,7 +873,7 @@ int parse_expression(buzzparser_t par) {
          par->tok->type != BUZZTOK_BLOCKCLOSE) {
          fprintf(stderr,
                  "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected .id = expression or }, found %s\n",
-                 buzzlex_getfile(par->lex)->fname,
+                 curfile(par),
                  par->tok->line,
                  par->tok->col,
                  buzztok_desc[par->tok->type]);
@@ -890,7 +900,7 @@ int parse_expression(buzzparser_t par) {
          else {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    curfile(par),
                     par->tok->line,
                     par->tok->col,
                     buzztok_desc[par->tok->type]);
@@ -926,7 +936,7 @@ int parse_expression(buzzparser_t par) {
             else {
                fprintf(stderr,
                        "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected id or numeric constant, found %s\n",
-                       buzzlex_getfile(par->lex)->fname,
+                       curfile(par),
                        par->tok->line,
                        par->tok->col,
                        buzztok_desc[par->tok->type]);
@@ -1120,7 +1130,7 @@ int parse_command(buzzparser_t par) {
          if(idrefinfo.info == TYPE_CLOSURE) {
             fprintf(stderr,
                     "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: can't have a function call as lvalue\n",
-                    buzzlex_getfile(par->lex)->fname,
+                    curfile(par),
                     par->tok->line,
                     par->tok->col);
             return PARSE_ERROR;
@@ -1156,7 +1166,7 @@ int parse_command(buzzparser_t par) {
       }
       fprintf(stderr,
               "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected function call or assignment\n",
-              buzzlex_getfile(par->lex)->fname,
+              curfile(par),
               par->tok->line,
               par->tok->col);
       return PARSE_ERROR;
@@ -1214,7 +1224,7 @@ int parse_idreflist(buzzparser_t par) {
    }
    fprintf(stderr,
            "%s:%" PRIu64 ":%" PRIu64 ": Syntax error: expected , or ), found %s\n",
-           buzzlex_getfile(par->lex)->fname,
+           curfile(par),
            par->tok->line,
            par->tok->col,
            buzztok_desc[par->tok->type]);
-- 
2.43.0


From 22c036f7cd84b27f788903843dccd7019a6c97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:38 +0000
Subject: [PATCH 53/59] fix: bzzdeasm reports truncated bytecode instead of
 reading past its end

---
 src/buzz/buzzasm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/buzz/buzzasm.c b/src/buzz/buzzasm.c
index a553b75..2491520 100644
--- a/src/buzz/buzzasm.c
+++ b/src/buzz/buzzasm.c
@@ -368,12 +368,19 @@ int buzz_deasm(const uint8_t* buf,
     */
    /* Fetch and print the string count */
    uint16_t count;
+   if(size < sizeof(uint16_t)) {
+      fprintf(stderr, "ERROR: %s: not enough bytes in bytecode for the string count\n", fname);
+      fclose(fd);
+      return 2;
+   }
    memcpy(&count, buf, sizeof(uint16_t));
    fprintf(fd, "!%u\n", count);
    /* Go through the strings and print them */
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < size); ++c) {
+      /* The string might be cut */
+      if(!memchr(buf + i, 0, size - i)) break;
       /* Print string */
       fprintf(fd, "'%s\n", ((char*)buf + i));
       /* Advance to first character of next string */
-- 
2.43.0


From 291c28200372197e7ef723f4d15aec17e6883300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:23 +0000
Subject: [PATCH 54/59] fix: the lexer ends with NULL after the end of the
 script, as documented, and not with endless tokens

---
 src/buzz/buzzlex.c    | 2 +-
 src/buzz/buzzparser.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzlex.c b/src/buzz/buzzlex.c
index 516d06f..9003879 100644
--- a/src/buzz/buzzlex.c
+++ b/src/buzz/buzzlex.c
@@ -278,7 +278,7 @@ buzzlex_t buzzlex_new(const char* fname) {
 buzztok_t buzzlex_nexttok(buzzlex_t lex) {
    if(buzzdarray_isempty(lex))
       /* The end of the script was reached already */
-      return eoftok;
+      return NULL;
    buzzlex_file_t lexf = buzzlex_getfile(lex);
    do {
       /* Look for a non-space character */
diff --git a/src/buzz/buzzparser.c b/src/buzz/buzzparser.c
index c311a10..69c7e2b 100644
--- a/src/buzz/buzzparser.c
+++ b/src/buzz/buzzparser.c
@@ -344,6 +344,8 @@ void chunk_print(uint32_t pos, void* data, void* params) {
 #define fetchtok()                                                      \
    {                                                                    \
       do {                                                              \
+         /* Nothing comes after the end of the script */                \
+         if(par->tok->type == BUZZTOK_EOF) break;                       \
          buzzlex_destroytok(&par->tok);                                 \
          par->tok = buzzlex_nexttok(par->lex);                          \
       } while(par->tok->type != BUZZTOK_EOF && par->tok->type == BUZZTOK_STATEND); \
-- 
2.43.0


From 40f96aa59cdaa2c149dd1efe8c3a4d73cdaeb9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:12 +0000
Subject: [PATCH 55/59] fix: neighbors.count() with a poses field that is no
 table is no crash

---
 src/buzz/buzzneighbors.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index 81c0401..b5110a1 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -630,7 +630,7 @@ int buzzneighbors_count(struct buzzvm_s* vm) {
    buzzvm_pushs(vm, buzzvm_string_register(vm, POSES, 1));
    buzzvm_tget(vm);
    int32_t count = 0;
-   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_NIL) {
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_TABLE) {
       count = buzzdarray_size(buzzvm_stack_at(vm, 1)->t.value);
    }
    buzzvm_pushi(vm, count);
-- 
2.43.0


From 459137fd45456498659731144b3cb55e2f4dedf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:36 +0000
Subject: [PATCH 56/59] fix: swarm set operations report unknown swarms

---
 src/buzz/buzzswarm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 864c7d7..43d7257 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -561,8 +561,15 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
    /* Fetch the swarm with the given id */
    const uint8_t* x = buzzdict_get(vm->swarms, &id, uint8_t);
+   if(!x) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_SWARM,
+                      NULL);
+      /* Return error */
+      return -1;
+   }
    /* Return 1 if the robot is in the swarm, 0 otherwise */
-   return (x && *x);
+   return *x ? 1 : 0;
 }
 
 /****************************************/
-- 
2.43.0


From 651ada0251ff6f7aaf0b4ad08efba2c0655bba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:18 +0000
Subject: [PATCH 57/59] fix: truncated bytecode is an error and is not read
 past its end

---
 src/buzz/buzzvm.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 2a9cace..ed25f84 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -685,17 +685,23 @@ int buzzvm_set_bcode(buzzvm_t vm,
                      const uint8_t* bcode,
                      uint32_t bcode_size) {
    /* Fetch the string count */
-   uint16_t count;
-   memcpy(&count, bcode, sizeof(uint16_t));
+   uint16_t count = 0;
+   if(bcode_size >= sizeof(uint16_t))
+      memcpy(&count, bcode, sizeof(uint16_t));
    /* Go through the strings and store them */
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < bcode_size); ++c) {
+      /* Find the end of the string; truncated bytecode might have none */
+      const uint8_t* end = (const uint8_t*)memchr(bcode + i, 0, bcode_size - i);
+      if(!end) {
+         i = bcode_size;
+         break;
+      }
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
-      while(*(bcode + i) != 0) ++i;
-      ++i;
+      i = end - bcode + 1;
    }
    /* Initialize VM state */
    vm->state = BUZZVM_STATE_READY;
@@ -706,6 +712,11 @@ int buzzvm_set_bcode(buzzvm_t vm,
    /* Set program counter */
    vm->pc = i;
    vm->oldpc = vm->pc;
+   /* Is there any code at all? */
+   if(i >= bcode_size) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, "truncated bytecode");
+      return vm->state;
+   }
    /*
     * Register function definitions
     * Stop when you find a 'nop'
-- 
2.43.0


From 82017953e8f530f9ca41d266bfa7dbe28d140dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:13 +0000
Subject: [PATCH 58/59] fix: refuse to call a C function with a negative id

---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index ed25f84..6454958 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1145,7 +1145,8 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
    /* Make sure that that data about C closures is correct */
    if((!c->c.value.isnative) &&
-      ((c->c.value.ref) >= buzzdarray_size(vm->flist))) {
+      ((c->c.value.ref) < 0 ||
+       (c->c.value.ref) >= buzzdarray_size(vm->flist))) {
       buzzvm_seterror(vm, BUZZVM_ERROR_FLIST, NULL);
       return vm->state;
    }
-- 
2.43.0


From 37bd5c5c1add0b3abb6f54803919ee70353ee57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 59/59] fix: equality with nil and of strings whose comparison
 yields 2

---
 src/buzz/buzztype.c | 16 +++++++++++-----
 src/buzz/buzzvm.c   | 17 +++++++++--------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 6fcde70..9143e3c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,12 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+/* The value 2 is taken by objects that can't be compared */
+static int buzzstr_cmp(const char* a, const char* b) {
+   int cmp = strcmp(a, b);
+   return (cmp > 0) - (cmp < 0);
+}
+
 int buzzobj_cmp(const buzzobj_t a,
                 const buzzobj_t b) {
    /* Nil */
@@ -165,29 +171,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      return buzzstr_cmp(a->s.value.str, b->s.value.str);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
       char str[30];
       sprintf(str, "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      return buzzstr_cmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
       char str[64];
       snprintf(str, sizeof(str), "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      return buzzstr_cmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      return buzzstr_cmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
       char str[64];
       snprintf(str, sizeof(str), "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      return buzzstr_cmp(str, b->s.value.str);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 6454958..7980af5 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -123,8 +123,9 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
  * BuzzVM hook functions or buzzvm_step().
  * @param vm The VM data.
  * @param oper The binary operation, e.g. == > >= < <=
+ * @param nocmp The result when only one of the operands is nil
  */
-#define buzzvm_binary_op_cmp(vm, oper)                                  \
+#define buzzvm_binary_op_cmp(vm, oper, nocmp)                           \
    buzzvm_stack_assert((vm), 2);                                        \
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);                              \
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);                              \
@@ -132,7 +133,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   res->i.value = (cmp == 2 ? nocmp : cmp oper 0);                      \
    return buzzvm_push(vm, res);
 
 /****************************************/
@@ -1731,42 +1732,42 @@ buzzvm_state buzzvm_rshift(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_eq(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, ==);
+   buzzvm_binary_op_cmp(vm, ==, 0);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_neq(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, !=);
+   buzzvm_binary_op_cmp(vm, !=, 1);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_gt(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, >);
+   buzzvm_binary_op_cmp(vm, >, 1);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_gte(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, >=);
+   buzzvm_binary_op_cmp(vm, >=, 1);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_lt(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, <);
+   buzzvm_binary_op_cmp(vm, <, 1);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_lte(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, <=);
+   buzzvm_binary_op_cmp(vm, <=, 1);
 }
 
 /****************************************/
-- 
2.43.0

