From e75676e0021cbb640bbb52e07cbec048c575ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 01/98] fix: _ClearGraph() must null VI, not V, after freeing
 VI (double free on later gp_Free)

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..35ee5d3 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -842,7 +842,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From a501fac0c6effb79d30fef72726a19c0f58566b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 02/98] fix: _EnsureArcCapacity() lost the edge array when
 realloc() failed and ignored stack copy failures

---
 c/graphLib/graphUtils.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 35ee5d3..a2edb13 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -424,6 +424,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
 
@@ -451,7 +452,11 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
         if ((newStack = sp_New(stackSize)) == NULL)
             return NOTOK;
 
-        sp_CopyContent(newStack, theGraph->theStack);
+        if (sp_CopyContent(newStack, theGraph->theStack) != OK)
+        {
+            sp_Free(&newStack);
+            return NOTOK;
+        }
         sp_Free(&theGraph->theStack);
         theGraph->theStack = newStack;
     }
@@ -462,14 +467,19 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
         return NOTOK;
     }
 
-    sp_CopyContent(newStack, theGraph->edgeHoles);
+    if (sp_CopyContent(newStack, theGraph->edgeHoles) != OK)
+    {
+        sp_Free(&newStack);
+        return NOTOK;
+    }
     sp_Free(&theGraph->edgeHoles);
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
         return NOTOK;
+    theGraph->E = newE;
 
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
-- 
2.43.0


From c5efdf0f71d80dc547e90c79ce094d6b41ce750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 03/98] fix: graph copying ignored failure to copy the stacks

---
 c/graphLib/graphUtils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index a2edb13..7b37cb4 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -947,7 +947,8 @@ int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
 
     // Tell the dstGraph how many edges it now has and where the edge holes are
     dstGraph->M = srcGraph->M;
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+    if (sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+        return NOTOK;
 
     return OK;
 }
@@ -1021,8 +1022,9 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
 
     LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
     LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    sp_Copy(dstGraph->theStack, srcGraph->theStack);
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
+        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+        return NOTOK;
 
     // Copy the set of extensions, which includes copying the
     // extension data as well as the function overload tables
-- 
2.43.0


From d534e6f33978232ad43c7f25246c1e4e435f5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 04/98] fix: _RestoreVertex() must terminate the restored
 adjacency list at its last arc's next link

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 7b37cb4..19b4a07 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2297,7 +2297,7 @@ int _RestoreVertex(graphP theGraph)
         if (gp_IsArc(e_v_first))
             gp_SetPrevArc(theGraph, e_v_first, NIL);
         if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
+            gp_SetNextArc(theGraph, e_v_last, NIL);
 
         // For each edge record restored to v's adjacency list, reassign the 'v' member
         //    of each twin arc to indicate v rather than u.
-- 
2.43.0


From 4671a0c69a4b915dac4c1018c428a9e668dc3f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 05/98] fix: gp_InsertEdge() dereferenced the graph before its
 NULL check

---
 c/graphLib/graphUtils.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 19b4a07..82ac231 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1716,11 +1716,15 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
                   int v, int e_v, int e_vlink)
 {
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
+    int vertMax, edgeMax, upos, vpos;
 
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+    if (theGraph == NULL)
+        return NOTOK;
+
+    vertMax = gp_GetLastVirtualVertex(theGraph);
+    edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1;
+
+    if (u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
         u > vertMax || v > vertMax ||
         e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
         e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
-- 
2.43.0


From 51619073d2065e619007df8d1fbc03c9fc2c49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 06/98] fix: gp_CopyExtensions() ignored a failure to duplicate
 an extension context

---
 c/graphLib/extensionSystem/graphExtensions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..9fe6532 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -487,6 +487,12 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
 
         newNext->moduleID = next->moduleID;
         newNext->context = next->dupContext(next->context, dstGraph);
+        if (newNext->context == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
         newNext->functions = next->functions;
-- 
2.43.0


From 15a021d639a8ebfeb562438b629c7f7574df5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 07/98] fix: _K33Search_InitGraph() ignored failure of the base
 graph initialization

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..5f6a326 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -262,7 +262,8 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
 		_K33Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
+	if (context->functions.fpInitGraph(theGraph, N) != OK)
+		return NOTOK;
 
     return OK;
 }
-- 
2.43.0


From 1a07507f6f1d269cd25c3b29c8d5a68f9384829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 08/98] fix: gp_AttachK33Search() left a freed context on the
 extension list when structure creation failed

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 5f6a326..d8f947f 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,9 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             // The extension is already on the graph's extension list, so it
+             // must be removed from the list, which also frees the context
+             gp_RemoveExtension(theGraph, K33SEARCH_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From c7e4631e5e78082f2aa6b2dc78d2492c1ba0f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 09/98] fix: _K4Search_InitGraph() ignored failure of the base
 graph initialization

---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..9d88e60 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -221,7 +221,8 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 		_K4Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
+	if (context->functions.fpInitGraph(theGraph, N) != OK)
+		return NOTOK;
 
     return OK;
 }
-- 
2.43.0


From bf6b75ba50a6981a8c692accb59b99fcd9be8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 10/98] fix: gp_AttachK4Search() left a freed context on the
 extension list when structure creation failed

---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 9d88e60..4824e75 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,9 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             // The extension is already on the graph's extension list, so it
+             // must be removed from the list, which also frees the context
+             gp_RemoveExtension(theGraph, K4SEARCH_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From 9c04497863722e95c6b5073c8b83097b02378862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 11/98] fix: _DrawPlanar_InitGraph() ignored failure of the
 base graph initialization

---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..3bc276a 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -313,7 +313,8 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 		_DrawPlanar_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
+	if (context->functions.fpInitGraph(theGraph, N) != OK)
+		return NOTOK;
 
     return OK;
 }
-- 
2.43.0


From 71493249a9e5652f7019166874721b475a62c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 12/98] fix: gp_AttachDrawPlanar() left a freed context on the
 extension list when structure creation failed

---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 3bc276a..93c043c 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -143,7 +143,9 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             // The extension is already on the graph's extension list, so it
+             // must be removed from the list, which also frees the context
+             gp_RemoveExtension(theGraph, DRAWPLANAR_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From a453f39f7ddc03a3d7dde7032dc874a2cacfb206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 13/98] fix: gp_CopyExtensions() shared the function table of
 the source graph's extension context with the copy

---
 c/graphLib/extensionSystem/graphExtensions.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 9fe6532..ec6cd92 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -495,7 +495,11 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
         }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+        // The function table is stored in the data context (see gp_AddExtension()),
+        // so the copy must use the table in the duplicated context, not the table
+        // in the source graph's context, which may be freed before the copy is
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context +
+                                                   ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From 283fc639898df9a71a65f0ab54a7fdbf3a396889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 14/98] fix: _K33Search_DupContext() read past the source edge
 records when the destination has a larger arc capacity

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index d8f947f..1bd6db4 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -316,7 +316,9 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         // The edge record array of the source context has the capacity of the source
+         // graph, which may be less than the arc capacity of the destination graph
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -326,7 +328,8 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
          _K33Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K33Search_CreateStructures(newContext) != OK)
+             if (_K33Search_CreateStructures(newContext) != OK ||
+                 _K33Search_InitStructures(newContext) != OK)
              {
                  _K33Search_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From 5b51bc076c94e067e5e1a068b25c8999de0c2876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 15/98] fix: _K4Search_DupContext() read past the source edge
 records when the destination has a larger arc capacity

---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 4824e75..9c5c682 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -272,7 +272,9 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         // The edge record array of the source context has the capacity of the source
+         // graph, which may be less than the arc capacity of the destination graph
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -282,7 +284,8 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
          _K4Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K4Search_CreateStructures(newContext) != OK)
+             if (_K4Search_CreateStructures(newContext) != OK ||
+                 _K4Search_InitStructures(newContext) != OK)
              {
                  _K4Search_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From d48083d77e669d15c585e96299df87c6dd99872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 16/98] fix: _DrawPlanar_DupContext() read past the source edge
 records when the destination has a larger arc capacity

---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 93c043c..fa3c898 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -257,7 +257,9 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         // The edge record array of the source context has the capacity of the source
+         // graph, which may be less than the arc capacity of the destination graph
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -267,7 +269,8 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
          _DrawPlanar_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_DrawPlanar_CreateStructures(newContext) != OK)
+             if (_DrawPlanar_CreateStructures(newContext) != OK ||
+                 _DrawPlanar_InitStructures(newContext) != OK)
              {
                  _DrawPlanar_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From a02efeb4d3d2541c4a9afc904f5d8e76c6816c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 17/98] fix: allocateG6ReadIterator() reported success without
 an iterator when the graph is NULL

---
 c/graphLib/io/g6-read-iterator.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..7f63b50 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -15,7 +15,13 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 {
 	int exitCode = OK;
 
-	if (ppG6ReadIterator != NULL && (*ppG6ReadIterator) != NULL)
+	if (ppG6ReadIterator == NULL)
+	{
+		ErrorMessage("G6ReadIterator pointer to receive the allocation is NULL.\n");
+		return NOTOK;
+	}
+
+	if ((*ppG6ReadIterator) != NULL)
 	{
 		ErrorMessage("G6ReadIterator is not NULL and therefore can't be allocated.\n");
 		return NOTOK;
@@ -37,10 +43,10 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 	{
 		ErrorMessage("Must allocate graph to be used by G6ReadIterator.\n");
 
-		exitCode = freeG6ReadIterator(ppG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(ppG6ReadIterator) != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 	{
-- 
2.43.0


From f0d181f24ea9ce03093b11f638cd3bf8850769c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 18/98] fix: allocateG6WriteIterator() reported success without
 an iterator when the graph is not initialized

---
 c/graphLib/io/g6-write-iterator.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..a2914e5 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -15,7 +15,13 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 {
 	int exitCode = OK;
 
-	if (ppG6WriteIterator != NULL && (*ppG6WriteIterator) != NULL)
+	if (ppG6WriteIterator == NULL)
+	{
+		ErrorMessage("G6WriteIterator pointer to receive the allocation is NULL.\n");
+		return NOTOK;
+	}
+
+	if ((*ppG6WriteIterator) != NULL)
 	{
 		ErrorMessage("G6WriteIterator is not NULL and therefore can't be allocated.\n");
 		return NOTOK;
@@ -39,10 +45,10 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 	{
 		ErrorMessage("[ERROR] Must allocate and initialize graph with an order greater than 0 to use the G6WriteIterator.\n");
 
-		exitCode = freeG6WriteIterator(ppG6WriteIterator);
-
-		if (exitCode != OK)
+		if (freeG6WriteIterator(ppG6WriteIterator) != OK)
 			ErrorMessage("Unable to free the G6WriteIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 		(*ppG6WriteIterator)->currGraph = pGraph;
-- 
2.43.0


From 4caa7e8a3fcfd633d6152688e8ebd83afc4aa5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 19/98] fix: reading a .g6 graph reported success when the read
 failed but the cleanup succeeded

---
 c/graphLib/io/g6-read-iterator.c | 51 +++++++++++++++++---------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 7f63b50..2010c58 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -750,9 +750,7 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -762,14 +760,17 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -796,9 +797,7 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -808,14 +807,17 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -845,9 +847,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -857,14 +857,17 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
-- 
2.43.0


From c9699e29d938755a494b6d301c2cbd5fa2eb3459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 20/98] fix: _getGraphOrder() accepted characters outside of
 the .g6 range in the 4-byte form

---
 c/graphLib/io/g6-read-iterator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 2010c58..4a0eaee 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -383,8 +383,13 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 
 		for (int i = 2; i >= 0; i--)
 		{
-			graphChar = sf_getc(g6Input) - 63;
-			n |= graphChar << (6 * i);
+			graphChar = sf_getc(g6Input);
+			if (graphChar < 63 || graphChar > 126)
+			{
+				ErrorMessage("Graph order contains a character that is not valid in .g6 format.\n");
+				return NOTOK;
+			}
+			n |= (graphChar - 63) << (6 * i);
 		}
 
 		if (n > 100000)
-- 
2.43.0


From 98dc988b2bc506ae11a2d01a69778080014d4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 21/98] fix: _validateGraphEncoding() read before the start of
 an empty graph encoding

---
 c/graphLib/io/g6-read-iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 4a0eaee..0d15695 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -598,7 +598,7 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
-- 
2.43.0


From a1d62a2a1ead8aa29ef8689cfecb370038392c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 22/98] fix: .g6 read iteration leaked its input when the
 string-or-file container could not be allocated

---
 c/graphLib/io/g6-read-iterator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 0d15695..c706462 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -157,6 +157,9 @@ int beginG6ReadIterationFromG6FilePointer(G6ReadIterator *pG6ReadIterator, FILE
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		// The iteration owns the file, so it must not be left open on failure
+		if (g6Infile != stdin)
+			fclose(g6Infile);
 		return NOTOK;
 	}
 
@@ -182,6 +185,8 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		// The iteration owns the string, so it must not be leaked on failure
+		free(g6InputStr);
 		return NOTOK;
 	}
 
-- 
2.43.0


From 4e55e0083e25d520e5de29aa71177a78ec16d417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 23/98] fix: .g6 write iteration did not check its allocations
 and left the caller a stale output string pointer

---
 c/graphLib/io/g6-write-iterator.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index a2914e5..862aab6 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -168,6 +168,15 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 
 	pG6WriteIterator->g6Output = sf_New(g6Outfile, NULL);
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		// The iteration owns the file, so it must not be left open on failure
+		if (g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -189,11 +198,28 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
+
+		if ((*g6OutputStr) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for the .g6 output string.\n");
+			return NOTOK;
+		}
+
 		(*g6OutputStr)[0] = '\0';
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		return NOTOK;
+	}
+
+	// The string now belongs to the iterator, which may reallocate or free it;
+	// it is handed back to the caller by sf_takeTheStr() if writing succeeds
+	(*g6OutputStr) = NULL;
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
-- 
2.43.0


From 43447cd28768f15ad2eae6c0927fb2d0db3c4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 24/98] fix: a graph with a single vertex could not be written
 in .g6 format

---
 c/graphLib/io/g6-write-iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 862aab6..b47e96a 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -355,7 +355,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From 2f0055714722f987b6c34363dbcf1dd35c89a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 25/98] fix: _encodeAdjMatAsG6() freed buffers that the
 iterator still owns

---
 c/graphLib/io/g6-write-iterator.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index b47e96a..dd013a7 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -405,8 +405,6 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		if (exitCode != OK)
 		{
 			ErrorMessage("Unable to fetch next edge in graph.\n");
-			free(columnOffsets);
-			free(g6Encoding);
 			return exitCode;
 		}
 	}
-- 
2.43.0


From 67a597a9052b02209638e1e0677d0dbcf71f6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 26/98] fix: .g6 write iteration never counted the graphs
 written nor separated them by line

---
 c/graphLib/io/g6-write-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index dd013a7..3565b91 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -298,9 +298,18 @@ int writeGraphUsingG6WriteIterator(G6WriteIterator *pG6WriteIterator)
 		return exitCode;
 	}
 
+	// Each graph after the first is on its own line
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Unable to output line separator to string-or-file container.\n");
+		return NOTOK;
+	}
+
 	exitCode = _printEncodedGraph(pG6WriteIterator);
 	if (exitCode != OK)
 		ErrorMessage("Unable to output g6 encoded graph to string-or-file container.\n");
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From 859e04cfd9c06b04695c3c5365ee790aad981b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 27/98] fix: gp_WriteToString() ignored append failures and
 could return a stale or partial string

---
 c/graphLib/io/graphIO.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..8557655 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -934,6 +934,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         return NOTOK;
     }
 
+    *pOutputStr = NULL;
+
     switch (Mode)
     {
     case WRITE_G6:
@@ -951,7 +953,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // The possibility of "extra data" is not allowed for .g6 format
+    if (RetVal == OK && outBuf != NULL)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -960,14 +963,22 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
 
         if (extraData != NULL)
         {
-            for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+            for (int i = 0; RetVal == OK && i < extraDataSize; i++)
+                RetVal = sb_ConcatChar(outBuf, ((char *)extraData)[i]);
             free(extraData);
         }
+
+        if (RetVal == OK && (*pOutputStr = sb_TakeString(outBuf)) == NULL)
+            RetVal = NOTOK;
+    }
+
+    // No partial output is returned when there has been an error
+    if (RetVal != OK && *pOutputStr != NULL)
+    {
+        free(*pOutputStr);
+        *pOutputStr = NULL;
     }
 
-    if (outBuf != NULL)
-        *pOutputStr = sb_TakeString(outBuf);
     sb_Free(&outBuf);
 
     return RetVal;
-- 
2.43.0


From bad2196a1c680986f6a3b9c00e1f9972eea0d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 28/98] fix: gp_Write() wrote extra data to a NULL file in .g6
 format

---
 c/graphLib/io/graphIO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 8557655..cf582ec 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -883,7 +883,9 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // The possibility of "extra data" is not allowed for .g6 format,
+    // in which case the Outfile has already been closed
+    if (RetVal == OK && Outfile != NULL)
     {
         void *extraData = NULL;
         long extraDataSize;
-- 
2.43.0


From 5dc0de0822654030a6422b22be36acb460e4480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 29/98] fix: _WriteAdjList() dereferenced the graph before its
 NULL check

---
 c/graphLib/io/graphIO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index cf582ec..fe861fe 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -561,12 +561,14 @@ int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
 int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
 {
     int v, e;
-    int zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+    int zeroBasedOffset;
     char numberStr[128];
 
     if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
         return NOTOK;
 
+    zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+
     // Write the number of vertices of the graph to the file or string buffer
     if (Outfile != NULL)
         fprintf(Outfile, "N=%d\n", theGraph->N);
-- 
2.43.0


From 7e04ede48b94c37e1d19dc216c36ea80df0bc50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 30/98] fix: _WriteAdjMatrix() leaked its row buffer for
 digraphs and ignored failure to append a row

---
 c/graphLib/io/graphIO.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index fe861fe..986c405 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -672,7 +672,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
@@ -686,8 +689,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
-- 
2.43.0


From aa61b4ad823658be13b5312acd3dfd5681441d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 31/98] fix: _Log() kept using the log file after closing it

---
 c/graphLib/io/graphIO.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 986c405..6ceccbe 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1030,7 +1030,10 @@ void _Log(char *Str)
         fflush(logfile);
     }
     else
+    {
         fclose(logfile);
+        logfile = NULL;
+    }
 }
 
 void _LogLine(char *Str)
-- 
2.43.0


From af504416472f951b50c03c9bce2547937339ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 32/98] fix: sb_TakeString() did not check its allocation nor
 reset the read position

---
 c/graphLib/io/strbuf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..f570932 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -239,9 +239,13 @@ char *sb_TakeString(strBufP theStrBuf)
         return NULL;
 
     theBuf = theStrBuf->buf;
-    theStrBuf->buf = (char *)malloc(sizeof(char));
+    if ((theStrBuf->buf = (char *)malloc(sizeof(char))) == NULL)
+    {
+        theStrBuf->buf = theBuf;
+        return NULL;
+    }
     theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
 
     return theBuf;
 }
-- 
2.43.0


From d86897edc85c77fab1c9b0ba459dde960823c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 33/98] fix: sb_Copy() used its source before checking it for
 NULL

---
 c/graphLib/io/strbuf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index f570932..94a59cd 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -92,13 +92,13 @@ void sb_ClearBuf(strBufP theStrBuf)
 int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 {
     char *tempBuf;
-    strBufP newStrBuf = sb_Duplicate(strBufSrc);
+    strBufP newStrBuf;
 
-    if (strBufDst == NULL || strBufSrc == NULL || newStrBuf == NULL)
-    {
-        sb_Free(&newStrBuf);
+    if (strBufDst == NULL || strBufSrc == NULL)
+        return NOTOK;
+
+    if ((newStrBuf = sb_Duplicate(strBufSrc)) == NULL)
         return NOTOK;
-    }
 
     tempBuf = strBufDst->buf;
     strBufDst->buf = newStrBuf->buf;
-- 
2.43.0


From 33b75482223b3bd1085cd14af1b2b9f32a45cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 34/98] fix: _ReadAdjMatrix() used flags that were not read and
 skipped flags not separated by whitespace in string input

---
 c/graphLib/io/graphIO.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 6ceccbe..50b526b 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -39,11 +39,15 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
 
     // Read the number of vertices from the first line of the file
     if (Infile != NULL)
-        fscanf(Infile, " %d ", &N);
+    {
+        if (fscanf(Infile, " %d ", &N) != 1)
+            return NOTOK;
+    }
     else
     {
         sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+            return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
@@ -61,12 +65,17 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read each of v's w-neighbor flags
             if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
-                sb_ReadSkipInteger(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), " %1d", &Flag) != 1)
+                    return NOTOK;
+                // Each flag is a single digit, even if not separated by whitespace
+                sb_ReadSkipChar(inBuf);
             }
 
             // Add the edge (v, w) if the flag is raised
-- 
2.43.0


From 10b52a989834b29347de15b7d3d658afd30e6726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 35/98] fix: _ReadAdjList() used values that were not read from
 truncated or malformed input

---
 c/graphLib/io/graphIO.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 50b526b..98b91ab 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -129,14 +129,16 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         fgetc(Infile);
         fgetc(Infile);
-        fscanf(Infile, " %d ", &N);
+        if (fscanf(Infile, " %d ", &N) != 1)
+            return NOTOK;
     }
     else
     {
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipChar(inBuf);
         sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
+        if (sscanf(sb_GetReadString(inBuf), " %d ", &N) != 1)
+            return NOTOK;
         sb_ReadSkipInteger(inBuf);
         sb_ReadSkipWhitespace(inBuf);
     }
@@ -155,10 +157,14 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         // Read the vertex number
         if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
+        {
+            if (fscanf(Infile, "%d", &indexValue) != 1)
+                return NOTOK;
+        }
         else
         {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
+            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+                return NOTOK;
             sb_ReadSkipInteger(inBuf);
         }
 
@@ -175,6 +181,8 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         // Skip the colon after the vertex number
         if (Infile != NULL)
             fgetc(Infile);
+        else if (*sb_GetReadString(inBuf) == '\0')
+            return NOTOK;
         else
             sb_ReadSkipChar(inBuf);
 
@@ -216,11 +224,15 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
             if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
+            {
+                if (fscanf(Infile, " %d ", &W) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
+                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                    return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
             }
-- 
2.43.0


From 98270cb7dc449ebfc4ba2825dc297a6123b5358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 36/98] fix: _ReadLEDAGraph() used values that were not read
 and endpoints that are not vertices

---
 c/graphLib/io/graphIO.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 98b91ab..8af4393 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -343,30 +343,38 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
+    if (fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL)
+        return NOTOK;
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
+    {
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
+    }
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+            return NOTOK;
+
+        if (u - zeroBasedOffset < gp_GetFirstVertex(theGraph) || u - zeroBasedOffset > gp_GetLastVertex(theGraph) ||
+            v - zeroBasedOffset < gp_GetFirstVertex(theGraph) || v - zeroBasedOffset > gp_GetLastVertex(theGraph))
+            return NOTOK;
+
         if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
         {
             if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-- 
2.43.0


From bbcef61bae083ff75a2c886fa5edb210cdc4d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 37/98] fix: gp_Read() did not check its parameters and used an
 uninitialized line for an empty file

---
 c/graphLib/io/graphIO.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 8af4393..eca8824 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -413,12 +413,21 @@ int gp_Read(graphP theGraph, char *FileName)
     char lineBuff[255];
     int RetVal;
 
+    if (theGraph == NULL || FileName == NULL)
+        return NOTOK;
+
     if (strcmp(FileName, "stdin") == 0)
         Infile = stdin;
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
+    if (fgets(lineBuff, 255, Infile) == NULL)
+    {
+        if (Infile != stdin)
+            fclose(Infile);
+        return NOTOK;
+    }
+
     // Reset file pointer to beginning of file
     fseek(Infile, 0, SEEK_SET);
     if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
-- 
2.43.0


From 3fcf325c8fdc2a38ea1da2260beb7258a39b8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 38/98] fix: gp_Read() did not check or null-terminate the
 extra data

---
 c/graphLib/io/graphIO.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index eca8824..1b11af8 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -468,10 +468,19 @@ int gp_Read(graphP theGraph, char *FileName)
         fileSize = ftell(Infile);
         fseek(Infile, filePos, SEEK_SET);
 
-        if (filePos < fileSize)
+        if (filePos >= 0 && filePos < fileSize)
         {
-            extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            long extraDataSize = fileSize - filePos;
+
+            extraData = malloc(extraDataSize + 1);
+            if (extraData == NULL)
+                RetVal = NOTOK;
+            else
+            {
+                // In text mode, fewer characters than the file size may be read
+                extraDataSize = (long)fread(extraData, 1, extraDataSize, Infile);
+                ((char *)extraData)[extraDataSize] = '\0';
+            }
         }
         /*
                 // Useful for quick debugging of IO extensibility
-- 
2.43.0


From 88fbd670612b3c79ec5d11db5e1d39d5f3af4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 39/98] fix: gp_ReadFromString() did not check its parameters
 and leaked the string buffer for LEDA input

---
 c/graphLib/io/graphIO.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 1b11af8..60cfd8b 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -522,29 +522,30 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 {
     int RetVal;
     bool extraDataAllowed = false;
+    strBufP inBuf;
 
-    strBufP inBuf = sb_New(0);
-    if (inBuf == NULL)
+    if (inputStr == NULL)
+        return NOTOK;
+
+    inBuf = sb_New(0);
+    if (theGraph == NULL || inBuf == NULL)
     {
-        if (inputStr != NULL)
-            free(inputStr);
+        sb_Free(&inBuf);
+        free(inputStr);
         return NOTOK;
     }
 
     if (sb_ConcatString(inBuf, inputStr) != OK)
     {
         sb_Free(&inBuf);
-
-        if (inputStr != NULL)
-            free(inputStr);
-
+        free(inputStr);
         return NOTOK;
     }
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
-        if (inputStr != NULL)
-            free(inputStr);
+        sb_Free(&inBuf);
+        free(inputStr);
         return NOTOK;
     }
     else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
-- 
2.43.0


From 378e243de934507a9d1263867093e591716ba632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 40/98] fix: RandomGraphs() leaked a graph and processed
 without the pristine copy if copying failed

---
 c/planarityApp/planarityRandomGraphs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..fe88399 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -48,6 +48,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	if (theGraph == NULL || origGraph == NULL)
 	{
 		gp_Free(&theGraph);
+		gp_Free(&origGraph);
 		return NOTOK;
 	}
 
@@ -93,9 +94,10 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 				}
 			}
 
-			gp_CopyGraph(origGraph, theGraph);
+			if (gp_CopyGraph(origGraph, theGraph) != OK)
+				Result = NOTOK;
 
-			if (strchr(GetAlgorithmChoices(), command))
+			if (Result == OK && strchr(GetAlgorithmChoices(), command))
 			{
 				Result = gp_Embed(theGraph, embedFlags);
 
-- 
2.43.0


From e87e32ab4ebbe93e7df47356e6ada6d37f2e3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 41/98] fix: RandomGraphs() showed progress in quiet mode

---
 c/planarityApp/planarityRandomGraphs.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index fe88399..70686c3 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -69,8 +69,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	countUpdateFreq = countUpdateFreq % 5 == 0 ? countUpdateFreq+2 : countUpdateFreq;
 
 	// Start the count
-	fprintf(stdout, "0\r");
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "0\r");
+		fflush(stdout);
+	}
 
 	// Start the timer
 	platform_GetTime(start);
@@ -209,8 +212,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	platform_GetTime(end);
 
 	// Finish the count
-	fprintf(stdout, "%d\n", NumGraphs);
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "%d\n", NumGraphs);
+		fflush(stdout);
+	}
 
 	// Free the graph structures created before the loop
 	gp_Free(&theGraph);
-- 
2.43.0


From 2202b7c4af3760dbcb557ac69fc36a80cdc519b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 42/98] fix: MakeGraph() ignored failure to attach the
 algorithm

---
 c/planarityApp/planarityRandomGraphs.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 70686c3..ce17f13 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -325,6 +325,8 @@ void GetNumberIfZero(int *pNum, char *prompt, int min, int max)
 graphP MakeGraph(int Size, char command)
 {
 	graphP theGraph;
+	int Result = OK;
+
 	if ((theGraph = gp_New()) == NULL || gp_InitGraph(theGraph, Size) != OK)
 	{
 		ErrorMessage("Error creating space for a graph of the given size.\n");
@@ -339,10 +341,17 @@ graphP MakeGraph(int Size, char command)
 
 	switch (command)
 	{
-		case 'd' : gp_AttachDrawPlanar(theGraph); break;
-		case '2' : gp_AttachK23Search(theGraph); break;
-		case '3' : gp_AttachK33Search(theGraph); break;
-		case '4' : gp_AttachK4Search(theGraph); break;
+		case 'd' : Result = gp_AttachDrawPlanar(theGraph); break;
+		case '2' : Result = gp_AttachK23Search(theGraph); break;
+		case '3' : Result = gp_AttachK33Search(theGraph); break;
+		case '4' : Result = gp_AttachK4Search(theGraph); break;
+	}
+
+	if (Result != OK)
+	{
+		ErrorMessage("Error attaching the algorithm to a graph.\n");
+		gp_Free(&theGraph);
+		return NULL;
 	}
 
 	return theGraph;
-- 
2.43.0


From 2cbd711c305ba18cff8c882f7d15bdb71fa3d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 43/98] fix: RandomGraph() reported success when copying,
 sorting or writing a graph failed

---
 c/planarityApp/planarityRandomGraphs.c | 30 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ce17f13..327a733 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -383,7 +383,7 @@ int RandomGraph(char command, int extraEdges, int numVertices, char *outfileName
 {
 int  Result;
 platform_time start, end;
-graphP theGraph=NULL, origGraph;
+graphP theGraph=NULL, origGraph=NULL;
 int embedFlags = GetEmbedFlags(command);
 char saveEdgeListFormat;
 
@@ -402,6 +402,7 @@ char saveEdgeListFormat;
 	if (gp_CreateRandomGraphEx(theGraph, 3*numVertices-6+extraEdges) != OK)
 	{
 		ErrorMessage("gp_CreateRandomGraphEx() failed\n");
+		gp_Free(&theGraph);
 		return NOTOK;
 	}
 	platform_GetTime(end);
@@ -413,10 +414,20 @@ char saveEdgeListFormat;
 	// The user may have requested a copy of the random graph before processing
 	if (outfile2Name != NULL)
 	{
-		gp_Write(theGraph, outfile2Name, WRITE_ADJLIST);
+		if (gp_Write(theGraph, outfile2Name, WRITE_ADJLIST) != OK)
+		{
+			ErrorMessage("Failed to write the random graph\n");
+			gp_Free(&theGraph);
+			return NOTOK;
+		}
 	}
 
-	origGraph = gp_DupGraph(theGraph);
+	if ((origGraph = gp_DupGraph(theGraph)) == NULL)
+	{
+		ErrorMessage("Failed to copy the random graph\n");
+		gp_Free(&theGraph);
+		return NOTOK;
+	}
 
 	// Do the requested algorithm on the randomly generated graph
 	Message("Now processing\n");
@@ -428,7 +439,8 @@ char saveEdgeListFormat;
 		Result = gp_Embed(theGraph, embedFlags);
 		platform_GetTime(end);
 
-		gp_SortVertices(theGraph);
+		if (gp_SortVertices(theGraph) != OK)
+			Result = NOTOK;
 
 		if (gp_TestEmbedResultIntegrity(theGraph, origGraph, Result) != Result)
 			Result = NOTOK;
@@ -443,14 +455,18 @@ char saveEdgeListFormat;
 	// user wants the edge list formatted file.
 	if (Result == OK || Result == NONEMBEDDABLE)
 	{
-		if (outfileName != NULL)
-			gp_Write(theGraph, outfileName, WRITE_ADJLIST);
+		if (outfileName != NULL && gp_Write(theGraph, outfileName, WRITE_ADJLIST) != OK)
+		{
+			ErrorMessage("Failed to write the result graph\n");
+			Result = NOTOK;
+		}
 
 		if (!getQuietModeSetting())
 		{
 			Prompt("Do you want to save the generated graph in edge list format (y/n)? ");
 			fflush(stdin);
-			scanf(" %c", &saveEdgeListFormat);
+			if (scanf(" %c", &saveEdgeListFormat) != 1)
+				saveEdgeListFormat = 'n';
 		}
 		else
 			saveEdgeListFormat = 'n';
-- 
2.43.0


From 0af386956599fe5787f804c57ad9d091c275df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 44/98] fix: SpecificGraph() ignored failures to allocate,
 copy, attach to or sort the graph

---
 c/planarityApp/planaritySpecificGraph.c | 36 ++++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 64f7279..62ffadd 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -36,7 +36,7 @@ int SpecificGraph(
 		char *inputStr, char **pOutputStr, char **pOutput2Str
 )
 {
-graphP theGraph, origGraph;
+graphP theGraph, origGraph = NULL;
 platform_time start, end;
 int Result = OK;
 
@@ -48,7 +48,14 @@ int Result = OK;
     }
 
     // Create the graph and, if needed, attach the correct algorithm to it
-    theGraph = gp_New();
+    if ((theGraph = gp_New()) == NULL)
+    {
+        // The ownership of inputStr has been transferred from the caller
+        if (inputStr != NULL)
+            free(inputStr);
+        ErrorMessage("Failed to allocate graph\n");
+        return NOTOK;
+    }
 
     // Read the graph into memory
 	if (inputStr == NULL)
@@ -76,12 +83,15 @@ int Result = OK;
         {
 			switch (command)
 			{
-				case 'd' : gp_AttachDrawPlanar(theGraph); break;
-				case '2' : gp_AttachK23Search(theGraph); break;
-				case '3' : gp_AttachK33Search(theGraph); break;
-				case '4' : gp_AttachK4Search(theGraph); break;
+				case 'd' : Result = gp_AttachDrawPlanar(theGraph); break;
+				case '2' : Result = gp_AttachK23Search(theGraph); break;
+				case '3' : Result = gp_AttachK33Search(theGraph); break;
+				case '4' : Result = gp_AttachK4Search(theGraph); break;
 			}
 
+			if (origGraph == NULL)
+				Result = NOTOK;
+
     		int embedFlags = GetEmbedFlags(command);
 	        platform_GetTime(start);
 
@@ -90,9 +100,11 @@ int Result = OK;
 //			gp_Write(theGraph, "debug.before.txt", WRITE_DEBUGINFO);
 //	        gp_SortVertices(theGraph);
 
-			Result = gp_Embed(theGraph, embedFlags);
+			if (Result == OK)
+				Result = gp_Embed(theGraph, embedFlags);
 	        platform_GetTime(end);
-	        Result = gp_TestEmbedResultIntegrity(theGraph, origGraph, Result);
+	        if (Result == OK || Result == NONEMBEDDABLE)
+	            Result = gp_TestEmbedResultIntegrity(theGraph, origGraph, Result);
         }
         else
         {
@@ -120,8 +132,12 @@ int Result = OK;
 	else
 	{
         // Restore the vertex ordering of the original graph (undo DFS numbering)
-        if (strchr(GetAlgorithmChoices(), command))
-            gp_SortVertices(theGraph);
+        if (strchr(GetAlgorithmChoices(), command) && gp_SortVertices(theGraph) != OK)
+        {
+            ErrorMessage("Failed to restore the vertex order of the graph\n");
+            gp_Free(&theGraph);
+            return NOTOK;
+        }
 
         // Determine the name of the primary output file
         outfileName = ConstructPrimaryOutputFilename(infileName, outfileName, command);
-- 
2.43.0


From 5616e122ab7028a069f6f6e036d8b138a1f4879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 45/98] fix: TransformGraph() did not check the graph
 allocation and leaked the graph for an invalid argument

---
 c/planarityApp/planarityTransformGraph.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 24923f9..d48c847 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -27,7 +27,14 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 
 	graphP theGraph;
 
-	theGraph = gp_New();
+	if ((theGraph = gp_New()) == NULL)
+	{
+		ErrorMessage("Unable to allocate graph.\n");
+		// The ownership of inputStr has been transferred from the caller
+		if (inputStr != NULL)
+			free(inputStr);
+		return NOTOK;
+	}
 
 	int outputFormat = -1;
 
@@ -42,6 +49,7 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		else
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
+			gp_Free(&theGraph);
 			return NOTOK;
 		}
 
-- 
2.43.0


From 2b1107ee07b084ce2b21488d1e6a10355b1b6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 46/98] fix: AttachAlgorithm() did not report failure to attach
 the algorithm

---
 c/planarityApp/planarity.h              |  2 +-
 c/planarityApp/planarityTestAllGraphs.c |  9 ++++++++-
 c/planarityApp/planarityUtils.c         | 14 +++++++++-----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planarity.h b/c/planarityApp/planarity.h
index 1b22d13..f3612f5 100644
--- a/c/planarityApp/planarity.h
+++ b/c/planarityApp/planarity.h
@@ -61,7 +61,7 @@ extern "C"
     char *GetAlgorithmName(char command);
     char *GetTransformationName(char command);
     char *GetBaseName(int baseFlag);
-    void AttachAlgorithm(graphP theGraph, char command);
+    int AttachAlgorithm(graphP theGraph, char command);
 
     char *ConstructInputFilename(char *infileName);
     char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command);
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..f68c7f8 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -186,7 +186,14 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		}
 	}
 
-	AttachAlgorithm(pG6ReadIterator->currGraph, command);
+	Result = AttachAlgorithm(pG6ReadIterator->currGraph, command);
+	if (Result != OK)
+	{
+		ErrorMessage("Unable to attach the algorithm to G6ReadIterator's graph struct.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
+		stats->errorFlag = TRUE;
+		return Result;
+	}
 
 	copyOfOrigGraph = gp_New();
 	if (copyOfOrigGraph == NULL)
diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..bf11e47 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -473,23 +473,27 @@ char *GetBaseName(int baseFlag)
 /****************************************************************************
  ****************************************************************************/
 
-void AttachAlgorithm(graphP theGraph, char command)
+int AttachAlgorithm(graphP theGraph, char command)
 {
+	int Result = OK;
+
 	switch (command)
 	{
 	case 'd':
-		gp_AttachDrawPlanar(theGraph);
+		Result = gp_AttachDrawPlanar(theGraph);
 		break;
 	case '2':
-		gp_AttachK23Search(theGraph);
+		Result = gp_AttachK23Search(theGraph);
 		break;
 	case '3':
-		gp_AttachK33Search(theGraph);
+		Result = gp_AttachK33Search(theGraph);
 		break;
 	case '4':
-		gp_AttachK4Search(theGraph);
+		Result = gp_AttachK4Search(theGraph);
 		break;
 	}
+
+	return Result;
 }
 
 /****************************************************************************
-- 
2.43.0


From c3bc992d08512682eff5e5478736ff456babe4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 47/98] fix: testAllGraphs() leaked the read iterator when it
 could not allocate a graph

---
 c/planarityApp/planarityTestAllGraphs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index f68c7f8..9c7fe20 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -199,6 +199,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (copyOfOrigGraph == NULL)
 	{
 		ErrorMessage("Unable to allocate graph to store copy of original graph before embedding.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
 		stats->errorFlag = TRUE;
 		return NOTOK;
 	}
-- 
2.43.0


From 12d5a7b97863c3e9193f3dfe5cb99834b61d7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 48/98] fix: TestAllGraphs() did not check the graph allocation

---
 c/planarityApp/planarityTestAllGraphs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 9c7fe20..dd983a3 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -56,6 +56,11 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	// Create the graph and, if needed, attach the correct algorithm to it
 	theGraph = gp_New();
+	if (theGraph == NULL)
+	{
+		ErrorMessage("Unable to allocate graph.\n");
+		return NOTOK;
+	}
 
 	if (commandString[0] == '-')
 	{
-- 
2.43.0


From a96391b90531533709353790700220df05c35dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 49/98] fix: testAllGraphs() leaked the input file when it
 could not allocate the read iterator

---
 c/planarityApp/planarityTestAllGraphs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index dd983a3..40d0f26 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -161,6 +161,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (Result != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		fclose(infile);
 		stats->errorFlag = TRUE;
 		return Result;
 	}
-- 
2.43.0


From 89d35f6ef9c11b1157e21b64db3b17a31917eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 50/98] fix: testAllGraphs() ignored failure to copy the
 original graph

---
 c/planarityApp/planarityTestAllGraphs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 40d0f26..1e89fe8 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -249,9 +249,10 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		if (pG6ReadIterator->currGraph == NULL)
 			break;
 
-		gp_CopyGraph(copyOfOrigGraph, pG6ReadIterator->currGraph);
+		Result = gp_CopyGraph(copyOfOrigGraph, pG6ReadIterator->currGraph);
 
-		Result = gp_Embed(pG6ReadIterator->currGraph, embedFlags);
+		if (Result == OK)
+			Result = gp_Embed(pG6ReadIterator->currGraph, embedFlags);
 
 		if (gp_TestEmbedResultIntegrity(pG6ReadIterator->currGraph, copyOfOrigGraph, Result) != Result)
 			Result = NOTOK;
-- 
2.43.0


From 56da517156a8162efb4a876f492d248eb3482196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 51/98] fix: testAllGraphs() did not report failure to end the
 .g6 iteration

---
 c/planarityApp/planarityTestAllGraphs.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 1e89fe8..3cf6950 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -279,10 +279,16 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	stats->errorFlag = errorFlag;
 
 	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
+		Result = NOTOK;
+	}
 
 	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		Result = NOTOK;
+	}
 
 	gp_Free(&copyOfOrigGraph);
 
-- 
2.43.0


From fe0a07d14b9f8ac4cd0a2b01542aaf59b3869dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 52/98] fix: TestAllGraphs() error messages could overflow for
 a long file name

---
 c/planarityApp/planarityTestAllGraphs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 3cf6950..02a7fac 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -84,8 +84,8 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 				FILE *infile = fopen(infileName, "r");
 				if (infile == NULL)
 				{
-					charsAvailForFilename = (int)(MAXLINE - strlen(infileName));
 					messageFormat = "Unable to open file \"%.*s\" for input.\n";
+					charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 					sprintf(messageContents, messageFormat, charsAvailForFilename, infileName);
 					ErrorMessage(messageContents);
 
@@ -350,8 +350,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		FILE *outputFileP = fopen(outfileName, "w");
 		if (outputFileP == NULL)
 		{
-			charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 			messageFormat = "Unable to open file \"%.*s\" for output.\n";
+			charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 			ErrorMessage(messageContents);
 		}
@@ -442,8 +442,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 
 	if (sf_closeFile(testOutput) != OK)
 	{
-		charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 		messageFormat = "Unable to close output file \"%.*s\".\n";
+		charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 		ErrorMessage(messageContents);
 		Result = NOTOK;
-- 
2.43.0


From 5a460b15fd310c85c7ab9f660123527790b574bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 53/98] fix: outputTestAllGraphsResults() could return a stale
 output string after a write failure

---
 c/planarityApp/planarityTestAllGraphs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 02a7fac..cae5d79 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -389,6 +389,9 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 				{
 					(*outputStr)[0] = '\0';
 					testOutput = sf_New(NULL, (*outputStr));
+					// The container now owns the string until it is taken back
+					if (testOutput != NULL)
+						(*outputStr) = NULL;
 				}
 			}
 		}
-- 
2.43.0


From e262c7ed7aa8a822d910a682374afa22e8064c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 54/98] fix: legacyCommandLine() ignored failures, leaked the
 graph, and used a missing output file name

---
 c/planarityApp/planarityCommandLine.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 813d1e3..b6b87be 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -97,6 +97,9 @@ int legacyCommandLine(int argc, char *argv[])
 	graphP theGraph = gp_New();
 	int Result;
 
+	if (theGraph == NULL)
+		return -2;
+
 	Result = gp_Read(theGraph, argv[1]);
 	if (Result != OK)
 	{
@@ -107,6 +110,7 @@ int legacyCommandLine(int argc, char *argv[])
 			int charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, argv[1]);
 			ErrorMessage(messageContents);
+			gp_Free(&theGraph);
 			return -2;
 		}
 	}
@@ -115,16 +119,19 @@ int legacyCommandLine(int argc, char *argv[])
 
 	if (Result == OK)
 	{
-		gp_SortVertices(theGraph);
-		gp_Write(theGraph, argv[2], WRITE_ADJLIST);
+		if (argc < 3 ||
+			gp_SortVertices(theGraph) != OK ||
+			gp_Write(theGraph, argv[2], WRITE_ADJLIST) != OK)
+			Result = NOTOK;
 	}
 
 	else if (Result == NONEMBEDDABLE)
 	{
 		if (argc >= 5 && strcmp(argv[3], "-n") == 0)
 		{
-			gp_SortVertices(theGraph);
-			gp_Write(theGraph, argv[4], WRITE_ADJLIST);
+			if (gp_SortVertices(theGraph) != OK ||
+				gp_Write(theGraph, argv[4], WRITE_ADJLIST) != OK)
+				Result = NOTOK;
 		}
 	}
 	else
-- 
2.43.0


From 44d81f12a0864e4a50769a352c6f2c3041b7d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 55/98] fix: usage errors of several commands were reported
 with the exit status of a nonembeddable result

---
 c/planarityApp/planarityCommandLine.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index b6b87be..af886e3 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -612,13 +612,13 @@ int callRandomGraphs(int argc, char *argv[])
 	int offset = 0, NumGraphs, SizeOfGraphs;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -639,13 +639,13 @@ int callSpecificGraph(int argc, char *argv[])
 	int offset = 0;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -668,12 +668,12 @@ int callRandomMaxPlanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -696,12 +696,12 @@ int callRandomNonplanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -727,12 +727,12 @@ int callTransformGraph(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -763,12 +763,12 @@ int callTestAllGraphs(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
-- 
2.43.0


From b2c86e771fa6fcc025267bb6252359f4fd7f9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 56/98] fix: runGraphTransformationTest() leaked the output and
 could report success without it

---
 c/planarityApp/planarityCommandLine.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index af886e3..6638297 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -521,7 +521,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 	if (command == NULL || strlen(command) < 2)
 	{
 		ErrorMessage("runGraphTransformationTest only supports -(gam).\n");
-		return NOTOK;
+		return -1;
 	}
 	else if (strlen(command) == 2)
 		transformationCode = command[1];
@@ -553,6 +553,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 		if (Result != OK || actualOutput == NULL)
 		{
 			ErrorMessage("Failed to perform transformation.\n");
+			Result = NOTOK;
 		}
 		else
 		{
@@ -563,6 +564,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 			if (Result != OK || expectedOutfileName == NULL)
 			{
 				ErrorMessage("Unable to construct output filename for expected transformation output.\n");
+				free(actualOutput);
 				return -1;
 			}
 
@@ -594,6 +596,9 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 				expectedOutfileName = NULL;
 			}
 		}
+
+		if (actualOutput != NULL)
+			free(actualOutput);
 	}
 
 	Message("\n");
-- 
2.43.0


From 6e4e3950e8a2143496b1f41f550596a1532fc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 57/98] fix: runSpecificGraphTests() ignored failure to restore
 the current directory

---
 c/planarityApp/planarityCommandLine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 6638297..cda74be 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -415,7 +415,8 @@ int runSpecificGraphTests(char *samplesDir)
 	else
 		Message("One or more specific graph tests FAILED.\n");
 
-	chdir(origDir);
+	if (chdir(origDir) != 0)
+		retVal = -1;
 	FlushConsole(stdout);
 	return retVal;
 }
-- 
2.43.0


From a931311e4144285792281d573158d330decb66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 58/98] fix: ReadTextFileIntoString() did not check the file
 size

---
 c/planarityApp/planarityUtils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index bf11e47..8d2bfd6 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -136,7 +136,9 @@ char *ReadTextFileIntoString(char *infileName)
 		fileSize = ftell(infile);
 		fseek(infile, filePos, SEEK_SET);
 
-		if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
+		if (filePos < 0 || fileSize < 0)
+			ErrorMessage("ftell() failed.\n");
+		else if ((inputString = (char *)malloc((fileSize + 1) * sizeof(char))) != NULL)
 		{
 			long bytesRead = fread((void *)inputString, 1, fileSize, infile);
 			inputString[bytesRead] = '\0';
-- 
2.43.0


From df56e4a4a01d03afc47b135a865304514283b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 59/98] fix: TextFilesEqual() ignored one extra character at
 the end of the second file

---
 c/planarityApp/planarityUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 8d2bfd6..d9f0830 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -267,7 +267,7 @@ int TextFilesEqual(char *file1Name, char *file2Name)
 			while ((c2 = fgetc(infile2)) == '\r')
 				;
 			// Test whether or not the second file also ends, same as the first.
-			if (fgetc(infile2) != EOF)
+			if (c2 != EOF)
 				Result = FALSE;
 		}
 	}
-- 
2.43.0


From 8845f2a0bf5f85c68047eb63158bf7c9061d5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 60/98] fix: TextFileMatchesString() did not check the string
 for NULL

---
 c/planarityApp/planarityUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index d9f0830..e989791 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -170,7 +170,7 @@ int TextFileMatchesString(char *theFilename, char *theString)
 	if (theFilename != NULL)
 		infile = fopen(theFilename, "r");
 
-	if (infile == NULL)
+	if (infile == NULL || theString == NULL)
 		Result = FALSE;
 	else
 	{
-- 
2.43.0


From 0f874754e0671be1a2215eadc30718f2134eaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 61/98] fix: ConstructInputFilename() could overflow the file
 name buffer or use a stale name

---
 c/planarityApp/planarityUtils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index e989791..235c9b6 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -524,7 +524,12 @@ char *ConstructInputFilename(char *infileName)
 	{
 		Prompt("Enter graph file name: ");
 		fflush(stdin);
-		scanf(" %s", theFileName);
+		// The field width is FILENAMEMAXLENGTH less the length of the ".txt" that may be added
+		if (scanf(" %124s", theFileName) != 1)
+		{
+			ErrorMessage("No graph file name was provided.\n");
+			return NULL;
+		}
 
 		if (!strchr(theFileName, '.'))
 			strcat(theFileName, ".txt");
-- 
2.43.0


From d718184ea554252281c470ea694d42401530296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 62/98] fix: menu() used an indeterminate choice and looped
 forever at the end of the input

---
 c/planarityApp/planarityMenu.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 83eff4f..cb7bc2b 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -32,7 +32,8 @@ int menu(void)
 
         Prompt("Enter Choice: ");
         fflush(stdin);
-        scanf(" %c", &Choice);
+        if (scanf(" %c", &Choice) != 1)
+            Choice = 'q';
         Choice = tolower(Choice);
 
         if (Choice == 'h')
-- 
2.43.0


From f0aed83295ad6e7b25be3f3f67d01c4b4b1ff70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 63/98] fix: menu prompts looped forever at the end of the
 input

---
 c/planarityApp/planarityMenu.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index cb7bc2b..d895a17 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -114,7 +114,8 @@ void TransformGraphMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -127,7 +128,8 @@ void TransformGraphMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -135,7 +137,8 @@ void TransformGraphMenu(void)
         Message(GetSupportedOutputChoices());
         Prompt("Enter output format: ");
         fflush(stdin);
-        scanf(" %c", &outputFormat);
+        if (scanf(" %c", &outputFormat) != 1)
+            return;
         outputFormat = tolower(outputFormat);
         if (strchr(GetSupportedOutputFormats(), outputFormat))
             sprintf(commandStr, "-%c", outputFormat);
@@ -184,7 +187,8 @@ void TestAllGraphsMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -197,7 +201,8 @@ void TestAllGraphsMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -206,7 +211,8 @@ void TestAllGraphsMenu(void)
 
         Prompt("Enter algorithm specifier: ");
         fflush(stdin);
-        scanf(" %c", &algorithmSpecifier);
+        if (scanf(" %c", &algorithmSpecifier) != 1)
+            return;
         algorithmSpecifier = tolower(algorithmSpecifier);
         if (strchr(GetAlgorithmChoices(), algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
-- 
2.43.0


From 6342f961b7b7e9f59e15be80f9cf15ec455f64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 64/98] fix: TestAllGraphsMenu() leaked the output string

---
 c/planarityApp/planarityMenu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index d895a17..10726db 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -236,4 +236,10 @@ void TestAllGraphsMenu(void)
         if (Result != OK)
             ErrorMessage("Algorithm test on all graphs in .g6 input file failed.\n");
     }
+
+    if (outputStr != NULL)
+    {
+        free(outputStr);
+        outputStr = NULL;
+    }
 }
-- 
2.43.0


From 9099b36580970990e7503bce5d89f96afbfafc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 65/98] fix: GetNumberIfZero() ignored that no number was read

---
 c/planarityApp/planarityRandomGraphs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 327a733..6f791aa 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -301,7 +301,8 @@ void GetNumberIfZero(int *pNum, char *prompt, int min, int max)
 	if (*pNum == 0)
 	{
 		Prompt(prompt);
-		scanf(" %d", pNum);
+		if (scanf(" %d", pNum) != 1)
+			*pNum = 0;
 	}
 
 	if (min < 1) min = 1;
-- 
2.43.0


From 8be4c855212ee6800eaee5e0a0fc2a9eece2a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 66/98] fix: Reconfigure() ignored that no option was read

---
 c/planarityApp/planarityUtils.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 235c9b6..a293733 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -25,10 +25,11 @@ void Reconfigure(void)
 		   "  Specify a graph (s),\n"
 		   "  Randomly generate a maximal planar graph (m), or\n"
 		   "  Randomly generate a non-planar graph (n)?");
-	scanf(" %c", &Mode);
+	if (scanf(" %c", &Mode) != 1)
+		return;
 
 	Mode = tolower(Mode);
-	if (!strchr("rsmn", Mode))
+	if (Mode == '\0' || !strchr("rsmn", Mode))
 		Mode = 's';
 
 	if (Mode == 'r')
@@ -36,16 +37,20 @@ void Reconfigure(void)
 		Message("\nNOTE: The directories for the graphs you want must exist.\n\n");
 
 		Prompt("Do you want original graphs in directory 'random' (last 10 max)?");
-		scanf(" %c", &OrigOut);
+		if (scanf(" %c", &OrigOut) != 1)
+			return;
 
 		Prompt("Do you want adj. matrix of embeddable graphs in directory 'embedded' (last 10 max))?");
-		scanf(" %c", &EmbeddableOut);
+		if (scanf(" %c", &EmbeddableOut) != 1)
+			return;
 
 		Prompt("Do you want adj. matrix of obstructed graphs in directory 'obstructed' (last 10 max)?");
-		scanf(" %c", &ObstructedOut);
+		if (scanf(" %c", &ObstructedOut) != 1)
+			return;
 
 		Prompt("Do you want adjacency list format of embeddings in directory 'adjlist' (last 10 max)?");
-		scanf(" %c", &AdjListsForEmbeddingsOut);
+		if (scanf(" %c", &AdjListsForEmbeddingsOut) != 1)
+			return;
 	}
 
 	FlushConsole(stdout);
-- 
2.43.0


From 58dd165d977eb5a2e88bbd4208817446c08570e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 67/98] fix: sf_getc() and sf_ungetc() could not distinguish
 EOF from a character

---
 c/graphLib/io/strOrFile.c | 8 ++++----
 c/graphLib/io/strOrFile.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 314e315..3edf447 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -44,9 +44,9 @@ strOrFileP sf_New(FILE *pFile, char *theStr)
  If strOrFileP has input string, returns character at theStrPos and
  increments theStrPos.
  ********************************************************************/
-char sf_getc(strOrFileP theStrOrFile)
+int sf_getc(strOrFileP theStrOrFile)
 {
-	char theChar = '\0';
+	int theChar = '\0';
 
 	if (theStrOrFile != NULL)
 	{
@@ -75,9 +75,9 @@ char sf_getc(strOrFileP theStrOrFile)
  Like ungetc() in stdio, on success theChar is returned. On failure, EOF
  is returned.
  ********************************************************************/
-char sf_ungetc(char theChar, strOrFileP theStrOrFile)
+int sf_ungetc(int theChar, strOrFileP theStrOrFile)
 {
-	char charToReturn = EOF;
+	int charToReturn = EOF;
 
 	if (theStrOrFile != NULL)
 	{
diff --git a/c/graphLib/io/strOrFile.h b/c/graphLib/io/strOrFile.h
index bc3f699..a7fa7ce 100644
--- a/c/graphLib/io/strOrFile.h
+++ b/c/graphLib/io/strOrFile.h
@@ -24,8 +24,8 @@ typedef strOrFile *strOrFileP;
 
 strOrFileP sf_New(FILE * pFile, char *theStr);
 
-char sf_getc(strOrFileP theStrOrFile);
-char sf_ungetc(char theChar, strOrFileP theStrOrFile);
+int sf_getc(strOrFileP theStrOrFile);
+int sf_ungetc(int theChar, strOrFileP theStrOrFile);
 char * sf_fgets(char *str, int count, strOrFileP theStrOrFile);
 
 int sf_fputs(char *strToWrite, strOrFileP theStrOrFile);
-- 
2.43.0


From cc0c9b051d2d6aa9ae5a1bf766520ccdfc4a541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 68/98] fix: gp_LowpointAndLeastAncestor() dereferenced the
 graph before its NULL check

---
 c/graphLib/graphDFSUtils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..9a37f97 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -250,12 +250,14 @@ int _SortVertices(graphP theGraph)
 
 int gp_LowpointAndLeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack;
     int v, u, uneighbor, e, L, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
-- 
2.43.0


From d08d01b836a0d97183cda2b6bb8c831627840a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 69/98] fix: gp_LeastAncestor() dereferenced the graph before
 its NULL check

---
 c/graphLib/graphDFSUtils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 9a37f97..c162964 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -380,12 +380,14 @@ int gp_LowpointAndLeastAncestor(graphP theGraph)
 
 int gp_LeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack;
     int v, u, uneighbor, e, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
-- 
2.43.0


From ed0f1402aa576803a2ef5f5da61c591dffd4940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 70/98] fix: gp_LeastAncestor() used the visited flags left by
 earlier operations

---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index c162964..aeb4d66 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -409,6 +409,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From df36d586727ef28f0f68a8b093d1c59c95decf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 71/98] fix: gp_SortVertices() dereferenced the graph before
 the NULL check

---
 c/graphLib/graphDFSUtils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index aeb4d66..c979c4c 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -135,6 +135,9 @@ int gp_CreateDFSTree(graphP theGraph)
 
 int gp_SortVertices(graphP theGraph)
 {
+    if (theGraph == NULL)
+        return NOTOK;
+
     return theGraph->functions.fpSortVertices(theGraph);
 }
 
-- 
2.43.0


From be66651a399e0771554a429758c11ab44904ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 72/98] fix: gp_GetArcCapacity() returned less than the arc
 capacity

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 82ac231..4ff005c 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -341,7 +341,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
-- 
2.43.0


From 53baa597e758019db8ae152339ac9e283d1181ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 73/98] fix: gp_DynamicAddEdge() could not expand the arc
 capacity of a graph with more than 46340 vertices

---
 c/graphLib/graphUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 4ff005c..39568d2 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1687,7 +1687,8 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
     {
         int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
         int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+        long long maxArcCapacity = (long long)N * (N - 1);
+        int newArcCapacity = (candidateArcCapacity > maxArcCapacity) ? (int)maxArcCapacity : candidateArcCapacity;
         Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
 
         if (Result != OK)
-- 
2.43.0


From 457116c7d629a21637f732baeb1d1904e3d4b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 74/98] fix: gp_CreateRandomGraph() generated too few edges for
 more than 46340 vertices

---
 c/graphLib/graphUtils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 39568d2..0bc250f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1085,8 +1085,10 @@ graphP gp_DupGraph(graphP theGraph)
 int gp_CreateRandomGraph(graphP theGraph)
 {
     int N, M, u, v, m;
+    long long maxEdges;
 
     N = theGraph->N;
+    maxEdges = (long long)N * (N - 1) / 2;
 
     /* Generate a random tree; note that this method virtually guarantees
             that the graph will be renumbered, but it is linear time.
@@ -1106,8 +1108,8 @@ int gp_CreateRandomGraph(graphP theGraph)
 
     M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
 
-    if (M > N * (N - 1) / 2)
-        M = N * (N - 1) / 2;
+    if (M > maxEdges)
+        M = (int)maxEdges;
 
     for (m = N - 1; m < M; m++)
     {
-- 
2.43.0


From d4e586585c93ca3083d5859efe994546e63f2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 75/98] fix: gp_CreateRandomGraphEx() did not terminate if more
 edges were requested than a simple graph can have

---
 c/graphLib/graphUtils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 0bc250f..14f60ea 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1241,12 +1241,17 @@ int _hasUnprocessedChild(graphP theGraph, int parent)
 int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
 {
     int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
+    long long maxEdges;
 
     N = theGraph->N;
+    maxEdges = (long long)N * (N - 1) / 2;
 
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    if (numEdges > maxEdges)
+        numEdges = (int)maxEdges;
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From dc60d9955dfd764d3ed2db4f14af1283a57a0464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 76/98] fix: testAllGraphs() overflowed the arc capacity for
 more than 46340 vertices

---
 c/planarityApp/planarityTestAllGraphs.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index cae5d79..1f71b9c 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -4,6 +4,8 @@ All rights reserved.
 See the LICENSE.TXT file for licensing information.
 */
 
+#include <limits.h>
+
 #include "planarity.h"
 #include "../graphLib/graph.h"
 #include "../graphLib/lowLevelUtils/platformTime.h"
@@ -180,9 +182,18 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// We have to set the maximum arc capacity (i.e. (N * (N - 1))) because some of the test files
 	// can contain complete graphs, and the graph drawing, K_{3, 3} search, and K_4 search extensions
 	// don't support expanding the arc capacity after being attached.
+	long long maxArcCapacity = (long long)graphOrder * (graphOrder - 1);
 	if (strchr("d34", command) != NULL)
 	{
-		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
+		if (maxArcCapacity > INT_MAX)
+		{
+			ErrorMessage("Graph order is too large for the algorithm.\n");
+			freeG6ReadIterator(&pG6ReadIterator);
+			stats->errorFlag = TRUE;
+			return NOTOK;
+		}
+
+		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (int)maxArcCapacity);
 		if (Result != OK)
 		{
 			ErrorMessage("Unable to maximize arc capacity of G6ReadIterator's graph struct.\n");
@@ -222,7 +233,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 
 	if (strchr("d34", command) != NULL)
 	{
-		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
+		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (int)maxArcCapacity);
 		if (Result != OK)
 		{
 			ErrorMessage("Unable to maximize arc capacity of graph struct to contain copy of original graph.\n");
-- 
2.43.0


From 69081e11bb13e44cf96ba7280d6c276c3a72928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 77/98] fix: the .g6 encoding size and offsets overflowed for
 more than 46340 vertices

---
 c/graphLib/io/g6-api-utilities.c  | 12 ++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c | 10 +++++-----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..1cf73cc 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,16 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long) graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int) ((maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0));
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +31,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int) (numChars * 6LL - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 3565b91..1aede63 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -241,7 +241,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -266,7 +266,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -331,7 +331,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -404,8 +404,8 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
-		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
+		charOffset = numCharsForGraphOrder + (int) ((columnOffsets[v] + u) / 6);
+		bitPositionPower = 5 - (int) ((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
 
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From 46d1a24475721f18ad97f8581df91d8382b41d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 78/98] fix: writing a graph in .g6 format did not reject an
 order that is too large to encode

---
 c/graphLib/io/g6-write-iterator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 1aede63..66cd7c7 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -241,6 +241,12 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
+	if (_getNumCharsForGraphOrder(pG6WriteIterator->graphOrder) < 0)
+	{
+		ErrorMessage("Graph order is not supported in .g6 format.\n");
+		return NOTOK;
+	}
+
 	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
-- 
2.43.0


From ea39d970e7d886478d72c3718f113836f8d52b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 79/98] fix: sb_Copy() kept a read position that may be beyond
 the copied string

---
 c/graphLib/io/strbuf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 94a59cd..d37b6c3 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -108,6 +108,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 
     strBufDst->size = strBufSrc->size;
     strBufDst->capacity = strBufSrc->capacity;
+    strBufDst->readPos = 0;
 
     return OK;
 }
-- 
2.43.0


From 507d5c56d7d11f52b9ecb1bd32df9439dfc47a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 80/98] fix: sb_Duplicate() did not check its parameter for
 NULL

---
 c/graphLib/io/strbuf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index d37b6c3..857a76b 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -123,7 +123,12 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
  ********************************************************************/
 strBufP sb_Duplicate(strBufP theStrBuf)
 {
-    strBufP newStrBuf = sb_New(theStrBuf->capacity);
+    strBufP newStrBuf;
+
+    if (theStrBuf == NULL)
+        return NULL;
+
+    newStrBuf = sb_New(theStrBuf->capacity);
 
     if (newStrBuf == NULL)
         return NULL;
-- 
2.43.0


From 6c84cc54a9ca3f85f02481a507acaec0c21f237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 81/98] fix: computing a visibility representation leaked
 memory on failure

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 6b8d9e5..0fffae2 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -225,7 +225,10 @@ int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int
         {
             // An unresolved tie is an error
             if (context->VI[W].drawingFlag == DRAWINGFLAG_TIE)
+            {
+                LCFree(&theOrder);
                 return NOTOK;
+            }
 
             // If W is the child of a DFS root, then there is no vertex C
             // between it and some ancestor V.  Both V and C are not a vertex,
@@ -423,7 +426,11 @@ int _ComputeEdgePositions(DrawPlanarContext *context)
             // Note that this never gets the false generator edge of a DFS tree root
             eTwin = gp_GetVertexVisitedInfo(theEmbedding, v);
             if (gp_IsNotArc(eTwin))
+            {
+                LCFree(&edgeList);
+                free(vertexOrder);
                 return NOTOK;
+            }
             e = gp_GetTwinArc(theEmbedding, eTwin);
 
             // Traverse the edges of the vertex, starting
-- 
2.43.0


From 40db82902026ac66ebcae9e44e98e1e637071a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 82/98] fix: _RenderToString() overflowed the size of the
 rendition of a large graph

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 0fffae2..cee7a5f 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -13,6 +13,7 @@ extern int DRAWPLANAR_ID;
 
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <stdio.h>
 
 extern void _ClearVisitedFlags(graphP theGraph);
@@ -803,9 +804,15 @@ char *_RenderToString(graphP theEmbedding)
         int M = theEmbedding->M;
         int zeroBasedVertexOffset = (theEmbedding->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theEmbedding) : 0;
         int n, m, EsizeOccupied, v, vRange, e, eRange, Mid, Pos;
-        char *visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
+        char *visRep = NULL;
         char numBuffer[32];
 
+        // The rendition is indexed with integers
+        if ((M + 1LL) * 2 * N + 1 > INT_MAX)
+            return NULL;
+
+        visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
+
         if (visRep == NULL)
             return NULL;
 
-- 
2.43.0


From d0603004d81da5d7380f51b80a9a30886d04d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 83/98] fix: _DrawPlanar_WritePostprocess() overflowed the size
 of the extra data of a large graph

---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index fa3c898..c63144e 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -627,8 +627,9 @@ int  _DrawPlanar_WritePostprocess(graphP theGraph, void **pExtraData, long *pExt
         {
             int v, e, EsizeOccupied;
             char line[64];
-            int maxLineSize = 64, extraDataPos = 0;
-            char *extraData = (char *) malloc((1 + theGraph->N + 2*theGraph->M + 1) * maxLineSize * sizeof(char));
+            int maxLineSize = 64;
+            long extraDataPos = 0;
+            char *extraData = (char *) malloc((size_t) (1 + theGraph->N + 2*theGraph->M + 1) * maxLineSize * sizeof(char));
             int zeroBasedVertexOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
             int zeroBasedEdgeOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstEdge(theGraph) : 0;
 
-- 
2.43.0


From 27b45145503b518a4afd78802c42949abb410b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 84/98] fix: _DrawPlanar_ReadPostprocess() did not check that
 the extra data was read

---
 .../graphDrawPlanar_Extensions.c              | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index c63144e..1a23abb 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -579,29 +579,35 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
                 return NOTOK;
 
             // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
+            extraData = (void *) ((char *) extraData + strlen(line));
 
             // Read the N lines of vertex information
             for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if (sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->VI[v].pos,
                               &context->VI[v].start,
-                              &context->VI[v].end);
+                              &context->VI[v].end) != 5)
+                    return NOTOK;
 
-                extraData = strchr(extraData, '\n') + 1;
+                if ((extraData = strchr(extraData, '\n')) == NULL)
+                    return NOTOK;
+                extraData = (void *) ((char *) extraData + 1);
             }
 
             // Read the lines that contain edge information
             EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
             for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if (sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->E[e].pos,
                               &context->E[e].start,
-                              &context->E[e].end);
+                              &context->E[e].end) != 5)
+                    return NOTOK;
 
-                extraData = strchr(extraData, '\n') + 1;
+                if ((extraData = strchr(extraData, '\n')) == NULL)
+                    return NOTOK;
+                extraData = (void *) ((char *) extraData + 1);
             }
         }
 
-- 
2.43.0


From 12c4283ce987bddab7e4e6eb4fe4873607366c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:40 +0000
Subject: [PATCH 85/98] fix: SaveAsciiGraph() did not report that the file
 could not be written

---
 c/planarityApp/planarityUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index a293733..1a36e94 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -114,7 +114,8 @@ void SaveAsciiGraph(graphP theGraph, char *filename)
 	// Since vertex numbers are at least 1, this indicates the end of the edge list
 	fprintf(outfile, "0 0\n");
 
-	fclose(outfile);
+	if (fclose(outfile) != 0)
+		ErrorMessage("Failed to write the edge list file.\n");
 }
 
 /****************************************************************************
-- 
2.43.0


From a7f93f252cb32c7f155024d811d25139c896e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 86/98] fix: release the input file or string when a G6 read
 iteration cannot be set up

---
 c/graphLib/io/g6-read-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index c706462..621bd99 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -177,6 +177,8 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 	if (g6InputStr == NULL || strlen(g6InputStr) <= 0)
 	{
 		ErrorMessage("g6InputStr must not be null or empty string.\n");
+		// The iteration owns the string, so it must not be leaked on failure
+		free(g6InputStr);
 		return NOTOK;
 	}
 
@@ -798,6 +800,9 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		// The file would have been owned by the iteration, so it must not be left open
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -839,6 +844,8 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (g6EncodedString == NULL || strlen(g6EncodedString) == 0)
 	{
 		ErrorMessage("Input string is empty.\n");
+		// The ownership of the string has been transferred from the caller
+		free(g6EncodedString);
 		return NOTOK;
 	}
 
@@ -848,6 +855,8 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		// The ownership of the string has been transferred from the caller
+		free(g6EncodedString);
 		return exitCode;
 	}
 
-- 
2.43.0


From 4c3d652fca0a76165e8ee84da2fe98e905f3616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 87/98] fix: close the output file when a G6 write iteration
 cannot be set up

---
 c/graphLib/io/g6-write-iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 66cd7c7..f1cb7bd 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -639,6 +639,9 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
 		freeG6WriteIterator(&pG6WriteIterator);
+		// The file would have been owned by the iteration, so it must not be left open
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		return exitCode;
 	}
 
-- 
2.43.0


From 7707296f6545374a87df985962cd57333dda42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 88/98] fix: release the input string when a transformation is
 rejected

---
 c/planarityApp/planarityTransformGraph.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index d48c847..769856c 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -50,6 +50,8 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
 			gp_Free(&theGraph);
+			if (inputStr != NULL)
+				free(inputStr);
 			return NOTOK;
 		}
 
@@ -81,6 +83,8 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 	else
 	{
 		ErrorMessage("Invalid argument; must start with '-'.\n");
+		if (inputStr != NULL)
+			free(inputStr);
 		Result = NOTOK;
 	}
 
@@ -104,6 +108,8 @@ int transformString(graphP theGraph, char *inputStr)
 	if (inputStr == NULL || strlen(inputStr) == 0)
 	{
 		ErrorMessage("Input string is null or empty.\n");
+		if (inputStr != NULL)
+			free(inputStr);
 		return NOTOK;
 	}
 
-- 
2.43.0


From fff339e0897e4cbb965f82d00a9fb85138462544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 89/98] fix: drawing extension no longer makes integrity tests
 fail or pass when another algorithm was run

---
 .../graphDrawPlanar_Extensions.c              | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 1a23abb..bd72832 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -539,7 +539,13 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
         if (context->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph) != OK)
             return NOTOK;
 
-        return _CheckVisibilityRepresentationIntegrity(context);
+        // A visibility representation exists only if a planar drawing was made
+        if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+        {
+            return _CheckVisibilityRepresentationIntegrity(context);
+        }
+
+        return OK;
     }
 
     return NOTOK;
@@ -550,7 +556,22 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
 
 int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 {
-     return OK;
+     DrawPlanarContext *context = NULL;
+
+     if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+     {
+         return OK;
+     }
+
+     // When not drawing, we let the superclass do the work
+     gp_FindExtension(theGraph, DRAWPLANAR_ID, (void *)&context);
+
+     if (context != NULL)
+     {
+         return context->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+     }
+
+     return NOTOK;
 }
 
 /********************************************************************
-- 
2.43.0


From e2eeb739ff51e46a4470c982530980c1d29fe20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 90/98] fix: copying into a graph of larger capacity leaves no
 stale edge records

---
 c/graphLib/graphUtils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 14f60ea..4286a76 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1011,6 +1011,12 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // If dstGraph has more capacity, then its remaining edge records must not
+    // retain content from whatever graph it contained before
+    Esize = gp_EdgeIndexBound(dstGraph);
+    for (; e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
-- 
2.43.0


From 695d2c5827eb49528db850925db2de06201e5edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 91/98] fix: refuse graph orders and arc capacities whose stack
 sizes overflow an int

---
 c/graphLib/graphUtils.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 4286a76..108a224 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -5,6 +5,7 @@ See the LICENSE.TXT file for licensing information.
 */
 
 #include <stdlib.h>
+#include <limits.h>
 
 #include "graphStructures.h"
 #include "graph.h"
@@ -193,6 +194,10 @@ int gp_InitGraph(graphP theGraph, int N)
     if (theGraph == NULL || N <= 0)
         return NOTOK;
 
+    // The sizes of the arrays and stacks are computed with integers
+    if (N > INT_MAX / (4 * DEFAULT_EDGE_LIMIT) - 1)
+        return NOTOK;
+
     // Should not call init a second time; use reinit
     if (theGraph->N)
         return NOTOK;
@@ -405,6 +410,10 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     if (requiredArcCapacity & 1)
         return NOTOK;
 
+    // The stack size, two integers per arc, is computed with integers
+    if (requiredArcCapacity > INT_MAX / 2 - gp_GetFirstEdge(theGraph))
+        return NOTOK;
+
     if (theGraph->arcCapacity >= requiredArcCapacity)
         return OK;
 
-- 
2.43.0


From 36c251b4abaf091b827d2e0ebbc24404d81e5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:09 +0000
Subject: [PATCH 92/98] fix: range check the drawing positions read from a file

---
 .../planarityRelated/graphDrawPlanar_Extensions.c     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index bd72832..397d66a 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -611,6 +611,12 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
                               &context->VI[v].end) != 5)
                     return NOTOK;
 
+                // The positions are used as indexes when rendering
+                if (context->VI[v].pos < 0 || context->VI[v].pos >= theGraph->N ||
+                    context->VI[v].start < 0 || context->VI[v].start > context->VI[v].end ||
+                    (context->VI[v].end > 0 && context->VI[v].end >= theGraph->M))
+                    return NOTOK;
+
                 if ((extraData = strchr(extraData, '\n')) == NULL)
                     return NOTOK;
                 extraData = (void *) ((char *) extraData + 1);
@@ -626,6 +632,11 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
                               &context->E[e].end) != 5)
                     return NOTOK;
 
+                if (context->E[e].pos < 0 || context->E[e].pos >= theGraph->M ||
+                    context->E[e].start < 0 || context->E[e].start > context->E[e].end ||
+                    context->E[e].end >= theGraph->N)
+                    return NOTOK;
+
                 if ((extraData = strchr(extraData, '\n')) == NULL)
                     return NOTOK;
                 extraData = (void *) ((char *) extraData + 1);
-- 
2.43.0


From ca437298fd8d037703ae2530bc0724aa8af1fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 93/98] fix: do not take the end of a text for an algorithm or
 output format letter

---
 c/planarityApp/planarityMenu.c          | 6 +++---
 c/planarityApp/planarityRandomGraphs.c  | 4 ++--
 c/planarityApp/planaritySpecificGraph.c | 2 +-
 c/planarityApp/planarityTestAllGraphs.c | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 10726db..0a954b1 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -54,7 +54,7 @@ int menu(void)
             if (Choice == 'p' || Choice == 'd' || Choice == 'o')
                 secondOutfile = "";
 
-            if (!strchr(GetAlgorithmChoices(), Choice))
+            if (Choice == '\0' || !strchr(GetAlgorithmChoices(), Choice))
             {
                 Message("Invalid menu choice, please try again.");
             }
@@ -140,7 +140,7 @@ void TransformGraphMenu(void)
         if (scanf(" %c", &outputFormat) != 1)
             return;
         outputFormat = tolower(outputFormat);
-        if (strchr(GetSupportedOutputFormats(), outputFormat))
+        if (outputFormat != '\0' && strchr(GetSupportedOutputFormats(), outputFormat))
             sprintf(commandStr, "-%c", outputFormat);
     } while (strlen(commandStr) == 0);
 
@@ -214,7 +214,7 @@ void TestAllGraphsMenu(void)
         if (scanf(" %c", &algorithmSpecifier) != 1)
             return;
         algorithmSpecifier = tolower(algorithmSpecifier);
-        if (strchr(GetAlgorithmChoices(), algorithmSpecifier))
+        if (algorithmSpecifier != '\0' && strchr(GetAlgorithmChoices(), algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
     } while (strlen(commandStr) == 0);
 
diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 6f791aa..164aada 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -100,7 +100,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 			if (gp_CopyGraph(origGraph, theGraph) != OK)
 				Result = NOTOK;
 
-			if (Result == OK && strchr(GetAlgorithmChoices(), command))
+			if (Result == OK && command != '\0' && strchr(GetAlgorithmChoices(), command))
 			{
 				Result = gp_Embed(theGraph, embedFlags);
 
@@ -434,7 +434,7 @@ char saveEdgeListFormat;
 	Message("Now processing\n");
 	FlushConsole(stdout);
 
-	if (strchr(GetAlgorithmChoices(), command))
+	if (command != '\0' && strchr(GetAlgorithmChoices(), command))
 	{
 		platform_GetTime(start);
 		Result = gp_Embed(theGraph, embedFlags);
diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 62ffadd..b125fae 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -79,7 +79,7 @@ int Result = OK;
 		origGraph = gp_DupGraph(theGraph);
 
         // Run the algorithm
-        if (strchr(GetAlgorithmChoices(), command))
+        if (command != '\0' && strchr(GetAlgorithmChoices(), command))
         {
 			switch (command)
 			{
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 1f71b9c..01477c4 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -66,7 +66,7 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	if (commandString[0] == '-')
 	{
-		if (strchr(GetAlgorithmChoices(), commandString[1]))
+		if (commandString[1] != '\0' && strchr(GetAlgorithmChoices(), commandString[1]))
 		{
 			if (infileName == NULL)
 			{
-- 
2.43.0


From 5170db9fdd6dc5ad348b9328a17addc2da99286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 94/98] fix: require the dash of the command letter after -q

---
 c/planarityApp/planarityCommandLine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index cda74be..7dda07f 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -622,6 +622,8 @@ int callRandomGraphs(int argc, char *argv[])
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
+		if (argv[3][0] != '-')
+			return NOTOK;
 		Choice = argv[3][1];
 		if (argc < 6)
 			return NOTOK;
@@ -649,6 +651,8 @@ int callSpecificGraph(int argc, char *argv[])
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
+		if (argv[3][0] != '-')
+			return NOTOK;
 		Choice = argv[3][1];
 		if (argc < 6)
 			return NOTOK;
-- 
2.43.0


From f470c82a529b64038fed67963b2e6b94c3ca7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:25 +0000
Subject: [PATCH 95/98] fix: SpecificGraph() reported a graph that could not be
 read as not embeddable

---
 c/planarityApp/planaritySpecificGraph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index b125fae..dba42f3 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -71,6 +71,7 @@ int Result = OK;
 	if (Result != OK)
 	{
 		ErrorMessage("Failed to read graph\n");
+		Result = NOTOK;
 	}
 	// Otherwise, call the correct algorithm on it
 	else
-- 
2.43.0


From 225263f382f79eb66f574107db5f96a3df12e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:25 +0000
Subject: [PATCH 96/98] fix: TransformGraph() reported a graph that could not
 be read with the status of a nonembeddable result

---
 c/planarityApp/planarityTransformGraph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 769856c..5df48d2 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -63,6 +63,7 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		if (Result != OK)
 		{
 			ErrorMessage("Unable to transform input graph.\n");
+			Result = NOTOK;
 		}
 		else
 		{
-- 
2.43.0


From a0f4063388f6b9baa3d0101a67ee37b1c48707b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:25 +0000
Subject: [PATCH 97/98] fix: testAllGraphs() could report a graph that could
 not be read with the status of a nonembeddable result

---
 c/planarityApp/planarityTestAllGraphs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 01477c4..5fe023c 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -250,6 +250,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 
 		if (Result != OK)
 		{
+			Result = NOTOK;
 			messageFormat = "Unable to read graph on line %d from .g6 read iterator.\n";
 			sprintf(messageContents, messageFormat, pG6ReadIterator->numGraphsRead + 1);
 			ErrorMessage(messageContents);
-- 
2.43.0


From 9b9264daa087384e334c424fbeaea06a40d5d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:30 +0000
Subject: [PATCH 98/98] fix: sf_fgets refuses a buffer without room for the
 terminator

---
 c/graphLib/io/strOrFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 3edf447..46c631c 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -113,7 +113,7 @@ int sf_ungetc(int theChar, strOrFileP theStrOrFile)
  ********************************************************************/
 char *sf_fgets(char *str, int count, strOrFileP theStrOrFile)
 {
-	if (str == NULL || count < 0 || theStrOrFile == NULL)
+	if (str == NULL || count < 1 || theStrOrFile == NULL)
 		return NULL;
 
 	if (theStrOrFile->pFile != NULL)
-- 
2.43.0

