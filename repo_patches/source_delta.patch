From 739d57c48baf02fdb4a6b6b0349649c0e6ffc900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 01/29] fix: copyAlphaList copies each vector's own bookkeeping
 instead of the list header's

---
 src/alpha.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..4e4822f 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -900,17 +900,13 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
-    temp->obs = src_list->obs;
-    temp->prev_source = src_list->prev_source;
-    temp->next = src_list->next;
-    temp->first_source = src_list->first_source;
-    temp->second_source = src_list->second_source;
-    temp->mark = src_list->mark;
-    temp->hook = src_list->hook;
-    temp->length = src_list->length;
-    temp->head = src_list->head;
-    temp->tail = src_list->tail;
+    temp->id = list->id;
+    temp->obs = list->obs;
+    temp->prev_source = list->prev_source;
+    temp->first_source = list->first_source;
+    temp->second_source = list->second_source;
+    temp->mark = list->mark;
+    temp->hook = list->hook;
     
     temp->obs_source = NULL;
     temp->witness = NULL;
-- 
2.43.0


From 3869a1167eec13913f3b5043f177de06b4f767d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 02/29] fix: enumeration and incremental pruning crash on
 problems with a single observation

---
 src/enumeration.c |  3 ++-
 src/inc-prune.c   |  3 ++-
 src/projection.c  | 29 +++++++++++++++++++++++++++++
 src/projection.h  |  4 ++++
 4 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..de30044 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -34,6 +34,7 @@
 #include "cmd-line.h"
 #include "alpha.h"
 #include "cross-sum.h"
+#include "projection.h"
 #include "parsimonious.h"
 #include "enumeration.h"
 
@@ -61,7 +62,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( duplicateProjectionWithSources( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..d0a7182 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -23,6 +23,7 @@
 #include "params.h"
 #include "common.h"
 #include "cross-sum.h"
+#include "projection.h"
 #include "parsimonious.h"
 #include "inc-prune.h"
 
@@ -404,7 +405,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( duplicateProjectionWithSources( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
diff --git a/src/projection.c b/src/projection.c
index 2af3d70..be84b09 100644
--- a/src/projection.c
+++ b/src/projection.c
@@ -246,6 +246,35 @@ projectList(  AlphaList list, int a, int z )
   return ( projection );
 }  /* projectList */
 /**********************************************************************/
+AlphaList 
+duplicateProjectionWithSources( AlphaList projection ) 
+{
+  /*
+    With only one observation there is no cross-sum to do and the
+    projection list itself is the Q-function.  This makes the new list
+    for that case, setting the action and observation source of each
+    vector as the cross-sum would have done.
+  */
+  AlphaList list, node, temp;
+
+  Assert ( projection != NULL, "Projection is NULL." );
+
+  list = newAlphaList();
+  list->action = projection->action;
+
+  for ( node = projection->head; node != NULL; node = node->next ) {
+
+    temp = newAlphaNodeObsSource( duplicateAlpha( node->alpha ),
+                                  projection->action );
+    temp->obs_source[projection->obs] = node;
+
+    appendNodeToAlphaList( list, temp );
+
+  } /* for node */
+
+  return ( list );
+}  /* duplicateProjectionWithSources */
+/**********************************************************************/
 void 
 setAllProjections( AlphaList **projection,
 		   AlphaList prev_alpha_list ) 
diff --git a/src/projection.h b/src/projection.h
index 2f55c2b..e1d4447 100644
--- a/src/projection.h
+++ b/src/projection.h
@@ -54,6 +54,10 @@ extern void freeAllProjections( AlphaList **projection );
    particulat observation is at all feabile.  */
 extern AlphaList **makeAllProjections( AlphaList prev_alpha_list );
 
+/* Copies a projection list, for problems with a single observation, into
+   a Q-function list with its observation sources set.  */
+extern AlphaList duplicateProjectionWithSources( AlphaList projection );
+
 /* Displays all projections to file stream.  */
 extern void displayProjections( FILE *file, AlphaList **projection );
 
-- 
2.43.0


From 741d758100821d5546c672623e78063bebabd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 03/29] fix: pruning keeps a second copy of a vector when LP
 precision makes it the best at a region point

---
 src/parsimonious.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parsimonious.c b/src/parsimonious.c
index 8aa950c..1483633 100644
--- a/src/parsimonious.c
+++ b/src/parsimonious.c
@@ -422,11 +422,17 @@ normalPrune( AlphaList orig_list, PomdpSolveParams param )
       best_node = removebestVectorNode( orig_list, gTempBelief,
                                         param->alpha_epsilon );
 
-      /* zzz Should this be addUniqueAlphaList()?  What if the list
-         sent in has duplictaes?  Then the precision issue becomes
-         important. This is theoretically not necessary since two
-         equivalent vectors should not give a region point, but unless
-         we can really ensure this , we should add the check here. */
+      /* The list sent in may have duplicates, and although two
+         equivalent vectors should not both have a region point, the
+         limited precision of the LP means a duplicate can turn out to
+         be the best vector here.  Never keep a second copy. */
+      if ( queryAlphaList( new_alpha_list, best_node->alpha, 
+                           param->alpha_epsilon )) {
+        destroyAlphaNode( best_node );
+        num_pruned++;
+        continue;
+      } /* if already have this vector */
+
       appendNodeToAlphaList( new_alpha_list, best_node );
 
       if ( param->use_witness_points )
-- 
2.43.0


From 52dec53f94feb6cea3c39aae64318ca04593c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 04/29] fix: Bellman stopping criterion ignores falling values
 when utilities are positive costs

---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index c73f74d..9c665dd 100644
--- a/src/common.c
+++ b/src/common.c
@@ -174,11 +174,13 @@ bellmanError( AlphaList prev_list,
 
   } /* for vector */
 
-  /* If there are negative rewards, then we must also compare each old
+  /* If there are negative rewards (or positive costs, which the solver
+     treats as negative rewards), then we must also compare each old
      vector to the new vectors. This also requires that there was no
      initial value function used (since it could have started with a
      negative value (which we do not check for.) */
-  if (( ( gMinimumImmediateReward >= 0.0 )
+  if (( (( gMinimumImmediateReward >= 0.0 )
+         && ( gValueType != COST_value_type ))
         || ( gRequireNonNegativeRewards ))
       && ( param->initial_policy == NULL ))
     return ( max_diff );
-- 
2.43.0


From 73b9002505d7da1b4e0152a38c53b06e768223f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 05/29] fix: weak stopping criterion ignores vectors that
 dropped out of the value function

---
 src/pomdp-solve.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4bb6179..8f9d417 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -504,8 +504,12 @@ meetStopCriteria( AlphaList prev_alpha_list,
 	   return ( FALSE );
 	   
 	 case POMDP_SOLVE_OPTS_Stop_Criteria_weak:
-	   *error = weakBound( cur_alpha_list, prev_alpha_list,
-					   param->stop_delta );
+	   /* Vectors that were dropped count just as much as vectors that
+		 are new, so this has to be looked at from both sides. */
+	   *error = Max( weakBound( cur_alpha_list, prev_alpha_list,
+					   param->stop_delta ),
+				  weakBound( prev_alpha_list, cur_alpha_list,
+					   param->stop_delta ));
 	   break;
 	   
 	 case POMDP_SOLVE_OPTS_Stop_Criteria_bellman:
-- 
2.43.0


From 3b6087fab85d014939b6431e542c41cd5b83beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 06/29] fix: ZLZ speedup dereferences missing witness points
 unless -witness_points is also given

---
 src/params.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/params.c b/src/params.c
index 389b460..540bcbc 100644
--- a/src/params.c
+++ b/src/params.c
@@ -282,6 +282,15 @@ doPostOptionParseActions( PomdpSolveParams params ) {
   
     /* Start at the end of the param_filename string */
 
+  /****************/
+  /* The ZLZ speedup does its updates at the witness points, so it
+	cannot work without them. */
+  if (( opts->vi_variation == POMDP_SOLVE_OPTS_Vi_Variation_zlz )
+	 && ( opts->use_witness_points != Boolean_true )) {
+    Warning( "ZLZ speedup requires witness points. Overriding." );
+    opts->use_witness_points = Boolean_true;
+  } /* if ZLZ without witness points */
+
   /****************/
   /* Make sure nothing dips below some maximum precision setting. */
   
-- 
2.43.0


From 542a95901347b39c1d3e56843cdeda795e05fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 07/29] fix: restricted/generalized incremental pruning drops a
 vector whose projections have duplicates

---
 src/inc-prune.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index d0a7182..8c40ae7 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -89,12 +89,16 @@ void
 addSimpleSumIp( AlphaList new_list, 
 		AlphaList old_list, 
 		AlphaList add_node,
-		AlphaList skip_node ) 
+		AlphaList skip_node,
+		double epsilon ) 
 {
   /*
     For each vector in the 'old' list, it adds a vector to the 'new'
     list that had the vector in 'add_node' added to it.  It will ignore
-    the node that is equal to 'skip_node' when doing this.
+    the node that is equal to 'skip_node' when doing this.  This
+    includes duplicates of the 'skip_node' vector: a sum with one of
+    those is the very vector being tested, and would rule it out (and,
+    in turn, every one of its duplicates.)
   */
   AlphaList new_node;
   int i;
@@ -107,7 +111,8 @@ addSimpleSumIp( AlphaList new_list,
   old_list = old_list->head;
   while( old_list != NULL ) {
     
-    if ( old_list != skip_node ) {
+    if (( old_list != skip_node )
+	   && ! sameAlpha( old_list->alpha, skip_node->alpha, epsilon )) {
       new_node = appendAlphaList( new_list, 
                                   duplicateAlpha( old_list->alpha ),
                                   old_list->action );
@@ -158,7 +163,8 @@ AlphaList
 getGenIpCompareList( AlphaList node, 
 		     AlphaList A, AlphaList B,
 		     AlphaList cur_list,
-		     GeneralizedIpChoice ip_type ) 
+		     GeneralizedIpChoice ip_type,
+		     double epsilon ) 
 {
   /*
     Based on the parameters, returns a pointer to an AlphaList
@@ -189,9 +195,9 @@ getGenIpCompareList( AlphaList node,
     compare_list = newAlphaList();
     SHOULD_DESTROY(compare_list) = TRUE;
     addSimpleSumIp( compare_list, A, node->second_source,
-                    node->first_source );
+                    node->first_source, epsilon );
     addSimpleSumIp( compare_list, B, node->first_source,
-                    node->second_source );
+                    node->second_source, epsilon );
     break;
 
   case GeneralizedIp:
@@ -225,14 +231,14 @@ getGenIpCompareList( AlphaList node,
          < ( COUNT(node->second_source) + B->length)) {
       
       addSimpleSumIp( compare_list, A, node->second_source,
-                      node->first_source );
+                      node->first_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            node->first_source, NULL );
     }
 
     else {
       addSimpleSumIp( compare_list, B, node->first_source,
-                      node->second_source );
+                      node->second_source, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            NULL, node->second_source );
 
@@ -334,7 +340,8 @@ generalizedIpCrossSum( AlphaList A,
        do not want to destroy) and in other cases return a list that
        was temporarily constructed for comparison purpose. */
     compare_list = getGenIpCompareList( cur_node, A, B, 
-                                        new_list, param->ip_type );
+                                        new_list, param->ip_type,
+                                        param->alpha_epsilon );
 
     /* See if this node gives us a witness point that there must be a
        vector to be added to new list from original list. */
@@ -355,10 +362,14 @@ generalizedIpCrossSum( AlphaList A,
       best_node = removebestVectorNode( search_list, gTempBelief,
                                         param->alpha_epsilon );
 
-      /* zzz Depending on whether or not we can guarantee that the
-         compare list does not have vectors equal to the node in
-         question, the precision issue could mean that this is ading
-         an epslion-redundant vector. */
+      /* The compare list need not have the vectors equal to the node in
+         question, so make sure we never keep a second copy. */
+      if ( queryAlphaList( new_list, best_node->alpha, 
+                           param->alpha_epsilon )) 
+        destroyAlphaNode( best_node );
+
+      else {
+
       appendNodeToAlphaList( new_list, best_node );
 
       /* Increment the count of number of vectors in the list for the
@@ -366,6 +377,8 @@ generalizedIpCrossSum( AlphaList A,
       COUNT(best_node->first_source)++;
       COUNT(best_node->second_source)++;
 
+      } /* else not in list yet */
+
     } /* If we did find a witness point. */
 
     /* Otherwise, no witness point was found which mean we can simply
-- 
2.43.0


From 53cb6369466f6154b5786b1b500ea48084300a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 08/29] fix: zeros of a matrix-form reward override earlier
 rewards

---
 src/mdp/imm-reward.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..7d2020d 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -320,13 +320,15 @@ void irAddToDecisionTree(Imm_Reward_List node)
     
   case ir_matrix:
     m = node->rep.matrix;
+    /* The zeroes of the matrix (which are not in its sparse form) have to
+       be entered too: they override earlier values. */
+    k = ( gProblemType == POMDP_problem_type ) ? gNumObservations : gNumStates;
     for (i=0; i < m->num_rows; i++) {
-      for (j=0; j < m->row_length[i]; j++) {
-	k = m->row_start[i] + j;
+      for (j=0; j < k; j++) {
 	if( gProblemType == POMDP_problem_type )  { /* pomdp */
-	  dtAdd(node->action, node->cur_state, i, m->col[k], m->mat_val[k]);
+	  dtAdd(node->action, node->cur_state, i, j, getEntryMatrix(m, i, j));
 	} else { /* mdp */
-	  dtAdd(node->action, i, m->col[k], WILDCARD_SPEC, m->mat_val[k]);
+	  dtAdd(node->action, i, j, WILDCARD_SPEC, getEntryMatrix(m, i, j));
 	}
       }
     }
-- 
2.43.0


From 56f59a107aafcd1be3e71cc7cdaff2ac261d1d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 09/29] fix: a model without reward entries has zero rewards
 instead of aborting

---
 src/mdp/decision-tree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..67b06a9 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -353,6 +353,10 @@ void dtAdd(int action, int cur_state, int next_state, int obs, double val)
 double dtGet(int action, int cur_state, int next_state, int obs)
 {
   int vec[DT_TABLE_DEPTH];
+
+  /* no values were ever added */
+  if (NULL == gTree) return 0.0;
+
   vec[0] = action;
   vec[1] = cur_state;
   vec[2] = next_state;
@@ -364,7 +368,9 @@ double dtGet(int action, int cur_state, int next_state, int obs)
 void dtDeallocate(void)
 {
   dtDestroyNode(gTree);
+  gTree = NULL;
   free(gTableSizes);
+  gTableSizes = NULL;
 }
 
 void dtDebugPrint(const char* header)
-- 
2.43.0


From 60a7a0041145ff5fd896afc7e9496135815aad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 10/29] fix: 'start include: *' and 'start exclude: *' no
 longer write outside the start belief

---
 src/mdp/parser.c | 9 +++++++++
 src/mdp/parser.y | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7bad489..7d3ee31 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -1264,9 +1264,18 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int j;
+
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* A wildcard stands for every state. */
+  if( i == WILDCARD_SPEC ) {
+    for( j = 0; j < gNumStates; j++ )
+      enterStartState( j );
+    return;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index a8043a3..ec86461 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -1359,9 +1359,18 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int j;
+
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* A wildcard stands for every state. */
+  if( i == WILDCARD_SPEC ) {
+    for( j = 0; j < gNumStates; j++ )
+      enterStartState( j );
+    return;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
-- 
2.43.0


From 3494e16234f483be1168e52c4b5720b696c6d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:16 +0000
Subject: [PATCH 11/29] fix: 'reset' in an MDP replaces the whole transition
 row

---
 src/mdp/parser.c | 3 ++-
 src/mdp/parser.y | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7d3ee31..2d1cd15 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -870,7 +870,8 @@ enterResetMatrix( ) {
   else  /* It is an MDP */
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
-	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
+	for( j = 0; j < gNumStates; j++ )
+	  addEntryToIMatrix( IP[a], i, j, ( j == gInitialState ) ? 1.0 : 0.0 );
   
 
 }  /* enterResetMatrix */
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index ec86461..97de856 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -965,7 +965,8 @@ enterResetMatrix( ) {
   else  /* It is an MDP */
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
-	addEntryToIMatrix( IP[a], i, gInitialState, 1.0 );
+	for( j = 0; j < gNumStates; j++ )
+	  addEntryToIMatrix( IP[a], i, j, ( j == gInitialState ) ? 1.0 : 0.0 );
   
 
 }  /* enterResetMatrix */
-- 
2.43.0


From 19b1c7653bd1380461d076ee602fcd3c98c3ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 12/29] fix: grid search generates NaN beliefs for impossible
 observations

---
 src/finite-grid.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..824b5ed 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,11 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* An observation that is impossible for this action defines no
+	    belief state. */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From ea5615151f7455ec7f93b3a71ec5b76b1eb6620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 13/29] fix: readers of alpha and belief files loop forever on
 a token that is not a number

---
 src/alpha.c  | 12 +++++++++---
 src/belief.c |  6 +++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 4e4822f..568c714 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1090,7 +1090,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, num_read;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1112,12 +1112,18 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     num_read = fscanf( file, "%d", &a );
+     if ( num_read == EOF )
        break;
+     if ( num_read != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       return ( NULL );
+     }
      alpha = newAlpha();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
+       if ( fscanf( file, "%lf", &( alpha[i] )) != 1 ) {
          fprintf(gStdErrFile, 
                  "** Error: Alpha vector file format incorrect.\n");
          return ( NULL );
diff --git a/src/belief.c b/src/belief.c
index 0b70959..aa89453 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -184,7 +184,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i;
+   int i, num_read;
    double *b;
    BeliefList list = NULL;
    
@@ -208,12 +208,12 @@ readBeliefList( char *filename, int max )
      b = newBelief();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+       if (( num_read = fscanf( file, "%lf", &( b[i] ))) != 1 ) {
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if ( i > 0 ) {
+	    if (( i > 0 ) || ( num_read != EOF )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
 		 return ( NULL );
-- 
2.43.0


From 64ff66f93fa7a28281057d5372e6ebb5d6cdb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 14/29] fix: policy graphs are written with the 'X' and '-'
 markers swapped

---
 src/pg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 1defd8d..b6018f8 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -486,12 +486,12 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
-		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
+	   if ( pg->next[n][z] == INVALID_NODE )
 		fprintf( file, "%s ", INVALID_NODE_STR );
-	   else
+	   else if ( pg->next[n][z] == NO_INFO_NODE )
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
+	   else
+		fprintf( file, "%d ", pg->next[n][z] );
 	 
 	 fprintf( file, "\n");
     }  /* for n */
-- 
2.43.0


From e9e8096942322034e895e63af5f8d4081d9ac5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 15/29] fix: policy graph evaluation rejects graphs with
 impossible observations

---
 src/pg-eval.c | 4 ++++
 src/pg.c      | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..0161280 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -247,6 +247,10 @@ PGE_setRowCoefs( PG pg, int state, int node, double *coef ) {
        overwriting them. */
     for( z = 0; z < gNumObservations; z++ ) {
 
+      /* Observations that cannot occur have no successor node. */
+      if ( pg->next[node][z] < 0 )
+        continue;
+
       /* This converts from the 2D naming to the 1D naming
          for the current variable under consideration in this
          row. */
diff --git a/src/pg.c b/src/pg.c
index b6018f8..e01f4bb 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -140,6 +140,11 @@ LPG_verify( LinkedPG orig_pg ) {
     for( z = 0; z < gNumObservations; z++ )
 	 {
 
+	   /* No successor is needed for an observation that cannot occur. */
+	   if(( pg->neighbor[z] == INVALID_NODE )
+		 && ! gObservationPossible[pg->action][z] )
+		continue;
+
 	   if( LPG_findNode( orig_pg, pg->neighbor[z] ) == NULL )
 		return( 0 );
 
-- 
2.43.0


From bd06b081a05ddad38279a974357efcd5989fbc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 16/29] fix: policy graph evaluation silently stops far from
 the solution for discounts close to 1

---
 src/laspack-util.h | 5 ++++-
 src/pg-eval.c      | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/laspack-util.h b/src/laspack-util.h
index 236b493..fcf17d5 100644
--- a/src/laspack-util.h
+++ b/src/laspack-util.h
@@ -20,7 +20,10 @@
 /* Arguments for the LASPACK iterative solver. */
 #define ITER_SOLVE_ACCURACY                1e-5
 #define JACOBI_PRECON_OMEGA                0.8
-#define MAX_JACOBI_ITERATIONS              1000
+/* The iteration contracts by about 1 - JACOBI_PRECON_OMEGA * (1 -
+   discount) a step, so that this is enough for discounts up to about
+   0.9998. */
+#define MAX_JACOBI_ITERATIONS              100000
 
 extern void showVector( Vector *v );
 extern void showQMatrix( QMatrix *M );
diff --git a/src/pg-eval.c b/src/pg-eval.c
index 0161280..f616590 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -371,6 +371,8 @@ PGE_evaluate( PG pg, PgEvalContext pgec ) {
     V_Destr( &(pgec->x) );
     return( FALSE );
   } /* if trouble solving system of equations */
+  if ( GetLastNoIter() >= MAX_JACOBI_ITERATIONS )
+    Warning( "evaluatePG() Values have not converged and are inaccurate." );
 #ifdef DEBUG
   showVector( &(pgec->x) );
 #endif
-- 
2.43.0


From aca6c019eea33531714b86d2e3a62f68e4544b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 17/29] fix: a random seed given as a string is overwritten by
 the first draw

---
 src/random.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/random.c b/src/random.c
index 1aeeb6a..b53c99f 100644
--- a/src/random.c
+++ b/src/random.c
@@ -121,6 +121,9 @@ setRandomSeedFromString ( char *str )
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  /* Otherwise the first draw would overwrite this seed. */
+  seeded = 1;
+
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
-- 
2.43.0


From 31ab1c971471899cc87a903779fd654e3d61c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 18/29] fix: a boolean option that is not given is set to false
 instead of its default

---
 src/pomdp-fg-options.c                         |  9 ++++++---
 src/pomdp-solve-options.c                      | 18 ++++++++++++------
 .../generate-options/gen-program-opts.py       |  3 ++-
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/pomdp-fg-options.c b/src/pomdp-fg-options.c
index 97a7980..7bb54d5 100644
--- a/src/pomdp-fg-options.c
+++ b/src/pomdp-fg-options.c
@@ -237,7 +237,8 @@ POMDP_FG_OPTS_parse( ProgramOptions opts )
                          POMDP_FG_OPTS_ARG_SAVE_PENULTIMATE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_penultimate = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_penultimate = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_penultimate' has invalid value." );
 
@@ -277,7 +278,8 @@ POMDP_FG_OPTS_parse( ProgramOptions opts )
                          POMDP_FG_OPTS_ARG_SAVE_ALL_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_all = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_all = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_all' has invalid value." );
 
@@ -309,7 +311,8 @@ POMDP_FG_OPTS_parse( ProgramOptions opts )
                          POMDP_FG_OPTS_ARG_GRID_SAVE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->finite_grid_save = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->finite_grid_save = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'finite_grid_save' has invalid value." );
 
diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c24cf68..50abcdf 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -470,7 +470,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_SAVE_ALL_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_all = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_all = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_all' has invalid value." );
 
@@ -486,7 +487,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_FG_SAVE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->finite_grid_save = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->finite_grid_save = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'finite_grid_save' has invalid value." );
 
@@ -552,7 +554,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_DOM_CHECK_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->domination_check = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->domination_check = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'domination_check' has invalid value." );
 
@@ -635,7 +638,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_SAVE_PENULTIMATE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_penultimate = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_penultimate = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_penultimate' has invalid value." );
 
@@ -750,7 +754,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_STAT_SUMMARY_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->stat_summary = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->stat_summary = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'stat_summary' has invalid value." );
 
@@ -766,7 +771,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_WITNESS_POINTS_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->use_witness_points = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->use_witness_points = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'use_witness_points' has invalid value." );
 
diff --git a/src/scripts/generate-options/gen-program-opts.py b/src/scripts/generate-options/gen-program-opts.py
index ff6ddeb..362cf99 100755
--- a/src/scripts/generate-options/gen-program-opts.py
+++ b/src/scripts/generate-options/gen-program-opts.py
@@ -620,7 +620,8 @@ class ParamNode:
                lines.append( "                         &(enum_idx),\n")
                lines.append( "                         Boolean_Str );\n" )
 
-               lines.append( "  options->%s = enum_idx;\n"
+               lines.append( "  if ( ret_value == PO_OPT_PRESENT_VALID )\n" )
+               lines.append( "    options->%s = enum_idx;\n"
                              % this.getVarName() )
 
                
-- 
2.43.0


From 0295fa92788e1fd5c37c94dc5f0a46d9afdc7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 19/29] fix: unknown options are silently ignored

---
 src/program-options.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 113ad46..6b2841f 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -376,10 +376,11 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < cmd_line->num_flags; i++ )
     { 
-	 if ( ! opts->flag_seen )
+	 if ( ! opts->flag_seen[i] )
 	   {
-		sprintf( err_msg, "Unreckognized command line flag '%s'.",
-			    cmd_line->flags[i] );
+		snprintf( err_msg, sizeof(err_msg),
+				"Unreckognized command line flag '%s'.",
+				cmd_line->flags[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
@@ -388,10 +389,11 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < assoc->cur_size; i++ )
     { 
-	 if ( ! opts->option_seen )
+	 if ( ! opts->option_seen[i] )
 	   {
-		sprintf( err_msg, "Unreckognized command line option '%s'.",
-			    cmd_line->flags[i] );
+		snprintf( err_msg, sizeof(err_msg),
+				"Unreckognized command line option '%s'.",
+				assoc->keys[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
@@ -476,7 +478,7 @@ PO_getStringOption( ProgramOptions opts, char* opt_name,
 	   {
 		strcpy( ret_value, opts->cmd_line->args_opt->values[i] );
 
-		if ( opts->flag_seen != NULL )
+		if ( opts->option_seen != NULL )
 		  opts->option_seen[i] += 1;
 
 		if ( min != NULL )
-- 
2.43.0


From ae626a53316e562d0e20cdab15015e52e836d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 20/29] fix: numeric options accept text that is not a number

---
 src/program-options.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 6b2841f..a17b3c3 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -50,6 +50,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "global.h"
 #include "command-line.h"
@@ -573,8 +575,9 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
     out of range, this returns 0.  On success, this routine also marks
     the flag as seen (if the 'seen' structure has been allocated.)
    */
-  int i;
   int str_result;
+  long long_value;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -587,7 +590,15 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = atoi( found_str );
+  /* The whole string must be a number that fits in an 'int'. */
+  errno = 0;
+  long_value = strtol( found_str, &end_ptr, 10 );
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' )
+	 || ( errno == ERANGE )
+	 || ( long_value < INT_MIN ) || ( long_value > INT_MAX ))
+    return PO_OPT_PRESENT_ERROR;
+
+  *ret_value = (int) long_value;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
@@ -616,8 +627,8 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
     out of range, this returns 0.  On success, this routine also marks
     the flag as seen (if the 'seen' structure has been allocated.)
    */
-  int i;
   int str_result;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -630,7 +641,11 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = strtod( found_str, NULL );
+  /* The whole string must be a number, and not one of the "nan"s. */
+  *ret_value = strtod( found_str, &end_ptr );
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' )
+	 || ( *ret_value != *ret_value ))
+    return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
-- 
2.43.0


From 7d785730bf53985afeeddea6e42c96e994b6690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 21/29] fix: last line of a configuration file is ignored if it
 has no newline

---
 src/config-file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config-file.c b/src/config-file.c
index 50002bb..acbf0ab 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -90,7 +90,7 @@ CF_fscanf( FILE* file )
   int file_done = 0;
   int line_done;
   int line_no = 0;
-  char ch;
+  int ch;
 
   int char_idx;
 
@@ -108,11 +108,11 @@ CF_fscanf( FILE* file )
 	 while( ! line_done )
 	   {
 
+		/* The end of the file also ends the last line. */
 		if ( ( ch = fgetc( file )) == EOF )
 		  {
-		    line_done = 1;
 		    file_done = 1;
-		    break;
+		    ch = '\n';
 		  }
 
 		switch( ch )
-- 
2.43.0


From 90d9e52bb145f60525ee8fc6082b58cea95d0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 22/29] fix: long configuration strings (e.g. file names over
 99 characters) overflow their buffers

---
 src/associative-array.c |  6 +++++-
 src/associative-array.h |  1 +
 src/config-file.c       | 15 ++++++++++-----
 src/config-file.h       |  3 ++-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/associative-array.c b/src/associative-array.c
index 76433c7..0caef1b 100644
--- a/src/associative-array.c
+++ b/src/associative-array.c
@@ -37,6 +37,7 @@ AA_new( int size, int width )
   assoc = (AssocArray) XMALLOC( sizeof( *assoc ));
 
   assoc->max_size = size;
+  assoc->width = width;
   assoc->cur_size = 0;
 
   assoc->keys = (char **) XMALLOC( size * sizeof(char*));
@@ -100,13 +101,16 @@ AA_put( AssocArray assoc, char* key, char* value )
     Puts an entry into the associative array. If it is a new key,
     returns '1'. If it replaces an existing key, it returns 0.  If it
     is not added due to some other error it returns -1. (e.g., array
-    is full, bad args. )
+    is full, string too long, bad args. )
   */
   int i;
 
   if (( assoc == NULL ) || ( key == NULL ) || ( value == NULL ))
     return -1;
 
+  if (( strlen( key ) >= assoc->width ) || ( strlen( value ) >= assoc->width ))
+    return -1;
+
   for ( i = 0; i < assoc->cur_size; i++ )
     {
 	 if ( strcmp( assoc->keys[i], key ) == 0 )
diff --git a/src/associative-array.h b/src/associative-array.h
index 7d8d896..f7478c6 100644
--- a/src/associative-array.h
+++ b/src/associative-array.h
@@ -29,6 +29,7 @@ struct AssocArrayStruct {
 
   int max_size;     /* Size of memory allocated */
   int cur_size;     /* Number of used locations */
+  int width;        /* Memory for each key and each value */
 
   char** keys;
   char** values;
diff --git a/src/config-file.c b/src/config-file.c
index acbf0ab..3bfb3bf 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -233,12 +233,17 @@ CF_fscanf( FILE* file )
 		    switch ( state )
 			 {
 			 case PARSE_IN_ATTRIBUTE:
-			   attr[char_idx] = ch;
-			   char_idx += 1;
-			   break;
-
 			 case PARSE_IN_VALUE:
-			   value[char_idx] = ch;
+			   if ( char_idx >= MAX_CFG_FILE_STRING_LEN - 1 )
+				{
+				  cfg->error_count += 1;
+				  state = PARSE_IN_ERROR;
+				  break;
+				}
+			   if ( state == PARSE_IN_ATTRIBUTE )
+				attr[char_idx] = ch;
+			   else
+				value[char_idx] = ch;
 			   char_idx += 1;
 			   break;
 
diff --git a/src/config-file.h b/src/config-file.h
index 567d246..7143278 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,8 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     100
+/* Must be able to hold any program option's value. */
+#define MAX_CFG_FILE_STRING_LEN    1024
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
-- 
2.43.0


From 7db1130d05046039745519d07c14f73d41c2dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 23/29] fix: the message about a too long command line argument
 overflows its buffer

---
 src/command-line.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/command-line.c b/src/command-line.c
index 6fd574f..8b0b2aa 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -177,7 +177,7 @@ CL_addFlag( CommandLine cmd_line, char* dashed_flag )
 
   if ( strlen( dashed_flag ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof(err_str), "Command line flag '%s' is too long. %s",
 			dashed_flag, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -218,7 +218,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( dashed_opt ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof(err_str), "Command line flag '%s' is too long. %s",
 			dashed_opt, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -226,7 +226,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line value '%s' is too long. %s",
+	 snprintf( err_str, sizeof(err_str), "Command line value '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -275,7 +275,7 @@ CL_addArgProper( CommandLine cmd_line, char* value )
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line argument '%s' is too long. %s",
+	 snprintf( err_str, sizeof(err_str), "Command line argument '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
-- 
2.43.0


From a44146ed8c14abb56ec28ea07e0eb467a1525b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 24/29] fix: comparing vector files at beliefs overflows its
 index lists

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 4730ec2..cf0033e 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -411,7 +411,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	-1 sentinel list terminator, we need this list to have one more
 	element than the number of belief points.
   */
-  diff_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  diff_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							* sizeof( int ));
 
   /* The index list is assumed to contain non-negative integers, with
@@ -422,7 +422,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 
   /* Also want to keep track of those belief points where the maximal
 	differences occur (for convenience). */
-  maximal_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  maximal_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							   * sizeof( int ));
 
   maximal_idx_list[0] = -1;
-- 
2.43.0


From 325c9a7327f297fa035d71c61d747c872f2eff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 25/29] fix: comparing vector files with an unreadable belief
 file closes a file that was never opened

---
 src/utils.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index cf0033e..a304faa 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -614,7 +614,6 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 
   belief_list = readBeliefList( belief_filename, 0 );
   if ( belief_list == NULL ) {
-    fclose( file );
     return;
   }
 
-- 
2.43.0


From 70c0b7cd49804b6bcdc20a18df922ee29ee9c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 26/29] fix: a long input line overflows the belief tracker's
 buffer

---
 src/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index a304faa..4ffbdee 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1490,7 +1490,7 @@ UTIL_doBeliefUpdates()
   char *post_action_ptr;
   char *post_obs_ptr;
 
-  char line_init[255];
+  char line_init[1024];
 
   prev_belief = newBelief();
   next_belief = newBelief();
@@ -1505,6 +1505,7 @@ UTIL_doBeliefUpdates()
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
 
+	 line_init[0] = '\0';
 	 sscanf( line, "%s", line_init );
 
 	 if ( strcmp( line_init, "exit" ) == 0 )
-- 
2.43.0


From 00db7cb4aad1d706629d63dc001d92db6b63c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 27/29] fix: an interrupt before the first epoch makes the
 program crash at the end of the run

---
 src/pomdp-solve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 8f9d417..11ea1bd 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1155,7 +1155,10 @@ solvePomdp( PomdpSolveParams param )
      pointers to nowhere.  Thus, we free them in the other order to
      show this dependency explicitly. */
   destroyAlphaList( next_alpha_list );
-  destroyAlphaList( prev_alpha_list );
+
+  /* There is none if we were interrupted before the first epoch. */
+  if ( prev_alpha_list != NULL )
+    destroyAlphaList( prev_alpha_list );
 
   /* We were writing out a backup file after each iteration, but now
      that we are done, remove it. */
-- 
2.43.0


From e21a2aa6b5167744387eb173267735c0979617aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 28/29] fix: a start state number outside the declared states
 is accepted

---
 src/mdp/parser.c | 6 ++++++
 src/mdp/parser.y | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 2d1cd15..61a93ec 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -1078,6 +1078,12 @@ enterMatrix( double value ) {
       if( curCol > 0 )
 	gTooManyEntries = 1;
 
+      else if(( value < 0 ) || ( value >= gNumStates )) {
+	ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		  BAD_STATE_VAL, "" );
+	curCol++;
+      }
+
       else {
 	gInitialState = value;
 	curCol++;
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index 97de856..ffe3532 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -1173,6 +1173,12 @@ enterMatrix( double value ) {
       if( curCol > 0 )
 	gTooManyEntries = 1;
 
+      else if(( value < 0 ) || ( value >= gNumStates )) {
+	ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		  BAD_STATE_VAL, "" );
+	curCol++;
+      }
+
       else {
 	gInitialState = value;
 	curCol++;
-- 
2.43.0


From eae6c835fa3518e6c48d7935c94081314a9a8856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 29/29] fix: the policy graph evaluation tool prints an
 undefined node number

---
 src/pg-eval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index f616590..d9b2b88 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -415,6 +415,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double value;
 
   PgEvalContext pgec;
 
@@ -436,9 +437,9 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 value = PGEC_val( pgec, gInitialBelief, &best_node );
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    value, best_node );
 	 
     } /* if solution found */
   }
-- 
2.43.0

