From 13af609f3326e7c00fccb7ed4e6a285c79af6074 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:38:24 +0000
Subject: [PATCH 001/158] fix: graphCheck: detect load sum overflow before it
 happens

The overflow tests relied on signed wrap-around, which compilers
optimise away: vertex load sums that overflow were accepted.
---
 src/libscotch/graph_check.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/libscotch/graph_check.c b/src/libscotch/graph_check.c
index e631391..219dc68 100644
--- a/src/libscotch/graph_check.c
+++ b/src/libscotch/graph_check.c
@@ -137,14 +137,12 @@ const Graph * const         grafptr)
 
       vertend = edgetax[edgenum];
       if (edlotax != NULL) {
-        Gnum                edlotmp;
-
-        edlotmp = edlosum + edlotax[edgenum];
-        if (edlotmp < edlosum) {                  /* If overflow */
+        if ((edlotax[edgenum] < 0) ||             /* If negative load or overflow (signed overflow cannot be tested after it happened) */
+            (edlotax[edgenum] > (GNUMMAX - edlosum))) {
           errorPrint ("graphCheck: edge load sum overflow");
           return (1);
         }
-        edlosum = edlotmp;
+        edlosum += edlotax[edgenum];
       }
 
       if ((vertend < baseval) || (vertend >= grafptr->vertnnd)) { /* If invalid edge end */
@@ -172,18 +170,15 @@ const Graph * const         grafptr)
       }
     }
     if (velotax != NULL) {
-      Gnum                velotmp;
-
       if (velotax[vertnum] < 0) {                 /* If non positive loads */
         errorPrint ("graphCheck: invalid vertex load array");
         return (1);
       }
-      velotmp = velosum + velotax[vertnum];
-      if (velotmp < velosum) {                    /* If overflow */
+      if (velotax[vertnum] > (GNUMMAX - velosum)) { /* If overflow (signed overflow cannot be tested after it happened) */
         errorPrint ("graphCheck: vertex load sum overflow");
         return (1);
       }
-      velosum = velotmp;
+      velosum += velotax[vertnum];
     }
   }
   if (grafptr->edgenbr != edgenbr) {
-- 
2.43.0


From d4c0b6b74bb51b851c48717a84c09b30aa9b6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 002/158] fix: SCOTCH_graphInducePart: read base value of
 context-bound graph

---
 src/libscotch/library_graph_induce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_induce.c b/src/libscotch/library_graph_induce.c
index 050ff36..61fd358 100644
--- a/src/libscotch/library_graph_induce.c
+++ b/src/libscotch/library_graph_induce.c
@@ -109,7 +109,7 @@ const SCOTCH_GraphPart2                   partval,
 SCOTCH_Graph * restrict const             indgrafptr)
 {
   return (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           ((GraphPart * restrict const) parttab) - ((const Graph * const) orggrafptr)->baseval,
+                           ((GraphPart * restrict const) parttab) - ((const Graph * const) CONTEXTOBJECT (orggrafptr))->baseval,
                            (const Gnum) vnumnbr,
                            (const GraphPart) partval,
                            (Graph * restrict const) indgrafptr));
-- 
2.43.0


From 81739936c9f7b906cd53b32d91aa1839c3cd1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 003/158] fix: SCOTCH_graphColor: do not give same color to
 neighbors in same round

---
 src/libscotch/library_graph_color.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_color.c b/src/libscotch/library_graph_color.c
index 9065781..2b32b15 100644
--- a/src/libscotch/library_graph_color.c
+++ b/src/libscotch/library_graph_color.c
@@ -142,7 +142,8 @@ const SCOTCH_Num                    flagval)      /* Flag value (not used)
 
         vertend = edgetax[edgenum];
 
-        if (colotax[vertend] >= 0)
+        if ((colotax[vertend] >= 0) &&            /* Skip neighbors colored in previous rounds only */
+            (colotax[vertend] != colonum))
           continue;
 
         randend = randtax[vertend];
-- 
2.43.0


From ff87f9e31cf3324216dbbea2a6571d49591cfe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:08 +0000
Subject: [PATCH 004/158] fix: graphCoarsenMatch: enforce coarsening ratio
 threshold

---
 src/libscotch/graph_coarsen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index 1c23fad..547de5c 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -185,8 +185,7 @@ GraphCoarsenData * restrict const coarptr)
   if ((coarptr->flagval & GRAPHCOARSENUSEMATE) == 0) { /* If matching data not provided */
     graphMatch (descptr, coarptr);                /* Perform threaded matching          */
 
-    if ((coarptr->retuval != 0) ||                /* If matching failed                    */
-        (coargrafptr == NULL))                    /* Or if only matching wanted, stop here */
+    if (coarptr->retuval != 0)                    /* If matching failed, stop here */
       return;
 
     coarvertnbr = coarptr->coarvertnbr;           /* Get number of vertices actually created    */
@@ -197,6 +196,9 @@ GraphCoarsenData * restrict const coarptr)
 	coarptr->retuval = 1;
       return;
     }
+
+    if (coargrafptr == NULL)                      /* If only matching wanted, stop here */
+      return;
   }
   else
     coarvertnbr = coarptr->coarvertnbr;           /* Get provided number of vertices */
-- 
2.43.0


From 9153a42fd0fd59fdb7522a965b9cf912234aaa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 005/158] fix: archDecoDomTerm: return the domain of the
 requested terminal

---
 src/libscotch/arch_deco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index e5d88b9..07001b3 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -464,7 +464,7 @@ const ArchDomNum            domnnum)
     if (archptr->domverttab[domvertnum].size == 1) { /* If terminal vertex                      */
       domtermnum --;                              /* One more terminal scanned                  */
       if (archptr->domverttab[domvertnum].labl == domnnum) { /* If terminal domain number found */
-        domnptr->num = domvertnum;                /* Set domain number                          */
+        domnptr->num = domvertnum + 1;            /* Set domain number; domain indices start at 1 */
         return (0);
       }
     }
-- 
2.43.0


From 1ff0685940b39248147bbfed3a76349aef96e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 006/158] fix: archDecoArchBuild: do not un-base the index of
 the based part array

---
 src/libscotch/arch_build.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index d5ce943..196ed0b 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -306,7 +306,7 @@ Context * const             contptr)              /*+ Execution context
     tgtvertnum = (tgtlistptr != NULL) ? tgtlistptr->vnumtab[termdomnum] : (termdomnum + tgtgrafptr->baseval);
     termverttab[termdomnum].labl = tgtvertnum;
     termverttab[termdomnum].wght = (tgtgrafptr->velotax != NULL) ? tgtgrafptr->velotax[tgtvertnum] : 1;
-    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum - tgtgrafptr->baseval));
+    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum)); /* Part array is based */
     if (termverttab[termdomnum].num > termdommax) /* Find maximum terminal number */
       termdommax = termverttab[termdomnum].num;
   }
-- 
2.43.0


From 5929b6fa3669b1340d1399f1a4f7f11767cf9f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:21 +0000
Subject: [PATCH 007/158] fix: vgraphSeparateEs: pass execution context to
 bipartitioning method

---
 src/libscotch/vgraph_separate_es.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index 65e8b82..f5905a9 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -490,6 +490,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
   actgrafdat.veextax   = NULL;                    /* No external gains                           */
   actgrafdat.parttax   = grafptr->parttax;        /* Inherit arrays from vertex separation graph */
   actgrafdat.frontab   = grafptr->frontab;
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context */
   bgraphInit2 (&actgrafdat, 1, grafptr->dwgttab[0], grafptr->dwgttab[1], 0, 0); /* Complete initialization and set all vertices to part 0 */
 
   if (bgraphBipartSt (&actgrafdat, paraptr->strat) != 0) { /* Bipartition active subgraph */
-- 
2.43.0


From ee3cdbe0b1558e26bcd90ff12e2a70d3641ac487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 008/158] fix: vgraphSeparateEs: weight the load imbalance by
 the part target loads

---
 src/libscotch/vgraph_separate_es.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index f5905a9..67373a7 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -757,7 +757,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
     }
   }
 
-  grafptr->comploaddlt = grafptr->compload[0] - grafptr->compload[1];
+  grafptr->comploaddlt = grafptr->compload[0] * grafptr->dwgttab[1] - grafptr->compload[1] * grafptr->dwgttab[0];
   grafptr->compload[2] = grafptr->s.velosum - grafptr->compload[0] - grafptr->compload[1];
   grafptr->fronnbr     = grafptr->s.vertnbr - grafptr->compsize[0] - grafptr->compsize[1];
 
-- 
2.43.0


From 342c33481ce5096094b25830f5251877a68c551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:46 +0000
Subject: [PATCH 009/158] fix: archSubArchBuild, archDeco2ArchBuild: handle
 lists reduced to a single terminal

---
 src/libscotch/arch_build2.c | 2 +-
 src/libscotch/arch_sub.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 3037afe..2698245 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -649,7 +649,7 @@ Context * const             contptr)              /*+ Execution context
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   matcdat.vertsum = vnumnbr;                      /* Account for kept vertices of original graph */
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vertnbr);
 
   if (velotmp != NULL)                            /* Temporary vertex load array will no longer be necessary */
     memFree (velotmp);
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index d0e2b4b..40e5ab9 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -475,7 +475,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
     treetab[orgtermnum].vertnum = orgtermnum;     /* Vertex number in original architecture                    */
   }
 
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, orgtermnbr);
 
   orgarchptr->clasptr->matchExit (&matcdat);      /* Free matching structure */
 
-- 
2.43.0


From 30aaba486bcc6dfda311f17758b9a047c8912788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:20 +0000
Subject: [PATCH 010/158] fix: kgraphMapRbMapPoolSwap: keep terminal domains
 across levels when mappings are not tied

---
 src/libscotch/kgraph_map_rb_map.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index c59f952..710db6f 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -232,6 +232,9 @@ KgraphMapRbMapPoolData * restrict const poolptr)
   domntmp             = poolptr->domntab[0];
   poolptr->domntab[0] = poolptr->domntab[1];
   poolptr->domntab[1] = domntmp;
+
+  if (poolptr->domntab[0] != poolptr->domntab[1])  /* If mappings are not tied, domains that are not processed further must be kept */
+    memCpy (poolptr->domntab[0], poolptr->domntab[1], poolptr->mappptr->domnnbr * sizeof (ArchDom));
 }
 
 /* This routine doubles the size all of the arrays
-- 
2.43.0


From 4b4d48a9a908fef1509194d32f0c5cc28de0f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:20 +0000
Subject: [PATCH 011/158] fix: kgraphMapRbMapPoolExit: free secondary domain
 array of untied mappings

---
 src/libscotch/kgraph_map_rb_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index 710db6f..9cb2f6a 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -207,6 +207,8 @@ KgraphMapRbMapPoolData * restrict const poolptr)
     mappptr->flagval |= MAPPINGFREEDOMN;          /* Keep current domain array as private mapping domain array */
     mappptr->domntab  = poolptr->domntab[1];
   }
+  else if (poolptr->domntab[0] != poolptr->domntab[1]) /* Else if mappings were not tied, free secondary domain array */
+    memFree (poolptr->domntab[0]);
 
   memFree (poolptr->jobtab);
 }
-- 
2.43.0


From 1ccedb55bff74f3044e06148d747b9783ce91a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:34 +0000
Subject: [PATCH 012/158] fix: SCOTCH_graphPartOvl: initialize partition state
 before applying strategy

---
 src/libscotch/library_graph_part_ovl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index 5bc5b89..ba23cf0 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -115,6 +115,8 @@ SCOTCH_Num * const          parttab)              /*+ Partition array       +*/
     goto abort;
   }
 
+  wgraphZero (&grafdat);                          /* Set initial state, which strategies may save and restore */
+
   o = wgraphPartSt (&grafdat, partstraptr);
 
   wgraphExit (&grafdat);
-- 
2.43.0


From 97d5788194a8fbfbdeb03aea537b58d3fcab40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:34 +0000
Subject: [PATCH 013/158] fix: bgraphZero: do not account twice for the load of
 fixed vertices

---
 src/libscotch/bgraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph.c b/src/libscotch/bgraph.c
index 120b9d2..60ff659 100644
--- a/src/libscotch/bgraph.c
+++ b/src/libscotch/bgraph.c
@@ -243,7 +243,7 @@ Bgraph * restrict const     grafptr)
 {
   Gnum                compload0;
 
-  compload0 = grafptr->s.velosum + grafptr->vfixload[0];
+  compload0 = grafptr->s.velosum;                 /* Load of fixed vertices is accounted for in compload0avg */
   grafptr->fronnbr      = 0;                      /* No frontier vertices */
   grafptr->compload0dlt = compload0 - grafptr->compload0avg;
   grafptr->compload0    = compload0;
-- 
2.43.0


From eb1c3b891106f24433be321a86b837d2cae57b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:34 +0000
Subject: [PATCH 014/158] fix: archDecoArchBuild, archDeco2ArchBuild: size edge
 load arrays for non-compact graphs

---
 src/libscotch/arch_build.c  | 10 +++++++++-
 src/libscotch/arch_build2.c | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index 196ed0b..b82f815 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -162,7 +162,15 @@ Context * const             contptr)              /*+ Execution context
   if (termdomnbr == 0)                            /* If nothing to do */
     return (0);
 
-  invedlosiz = (tgtedlotax != NULL) ? tgtgrafptr->edgenbr : 0;
+  invedlosiz = 0;
+  if (tgtedlotax != NULL) {                       /* If edge loads present */
+    Gnum                tgtvertnum;
+
+    for (tgtvertnum = tgtgrafptr->baseval; tgtvertnum < tgtgrafptr->vertnnd; tgtvertnum ++) { /* Edge array may not be compact */
+      if ((tgtvendtax[tgtvertnum] - tgtgrafptr->baseval) > invedlosiz)
+        invedlosiz = tgtvendtax[tgtvertnum] - tgtgrafptr->baseval;
+    }
+  }
   if ((memAllocGroup ((void **) (void *)
                       &jobtab,     (size_t) (termdomnbr * sizeof (ArchDecoBuildJob)),
                       &actfrontab, (size_t) (termdomnbr * sizeof (Gnum)),
diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 2698245..7c06c7c 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -192,16 +192,20 @@ Context * const                       contptr)
   }
 
   if (matcptr->levltab[0].grafdat.edlotax != NULL) { /* If original graph has edge loads */
-    Gnum                edgenbr;
+    Gnum                edgesiz;                  /* Size of (possibly non-compact) edge array */
+    Gnum                vertnum;
 
-    edgenbr = matcptr->levltab[0].grafdat.edgenbr;
-    if ((matcptr->lewgtab[0].edwgtab = memAlloc (edgenbr * sizeof (Gnum))) == NULL) {
+    for (vertnum = grafptr->baseval, edgesiz = 0; vertnum < grafptr->vertnnd; vertnum ++) {
+      if ((grafptr->vendtax[vertnum] - grafptr->baseval) > edgesiz)
+        edgesiz = grafptr->vendtax[vertnum] - grafptr->baseval;
+    }
+    if ((matcptr->lewgtab[0].edwgtab = memAlloc (edgesiz * sizeof (Gnum))) == NULL) {
       errorPrint ("archDeco2BuildMatchInit: out of memory (5)");
       archDeco2BuildMatchExit (matcptr);
       return (1);
     }
     matcptr->lewgtab[0].edwgsum = grafptr->edlosum; /* Record edge load sum for finest graph */
-    memCpy (matcptr->lewgtab[0].edwgtab, matcptr->levltab[0].grafdat.edlotax + grafptr->baseval, edgenbr * sizeof (Gnum));  /* Keep edge costs (if any) */
+    memCpy (matcptr->lewgtab[0].edwgtab, matcptr->levltab[0].grafdat.edlotax + grafptr->baseval, edgesiz * sizeof (Gnum));  /* Keep edge costs (if any) */
     matcptr->levltab[0].grafdat.edlosum =         /* Record edge load sum of inversed loads */
     graphIelo (&matcptr->levltab[0].grafdat, matcptr->levltab[0].grafdat.edlotax, matcptr->levltab[0].grafdat.edlotax); /* Inverse edge costs for coarsening */
   }
@@ -681,7 +685,9 @@ Context * const             contptr)              /*+ Execution context
       levlptr->grafdat.velosum = levlptr->grafdat.vertnbr;
     }
     if (lewgptr->edwgtab != NULL) {
-      memCpy (levlptr->grafdat.edlotax + levlptr->grafdat.baseval, lewgptr->edwgtab, levlptr->grafdat.edgenbr * sizeof (Gnum));
+      for (vertnum = levlptr->grafdat.baseval; vertnum < levlptr->grafdat.vertnnd; vertnum ++) /* Edge array may not be compact */
+        memCpy (levlptr->grafdat.edlotax + levlptr->grafdat.verttax[vertnum], lewgptr->edwgtab + levlptr->grafdat.verttax[vertnum] - levlptr->grafdat.baseval,
+                (levlptr->grafdat.vendtax[vertnum] - levlptr->grafdat.verttax[vertnum]) * sizeof (Gnum));
       levlptr->grafdat.edlosum = lewgptr->edwgsum;
       memFree (lewgptr->edwgtab);
       lewgptr->edwgtab = NULL;
-- 
2.43.0


From b25ce0878b539b96e315e3582bf69310c252c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:44 +0000
Subject: [PATCH 015/158] fix: wgraphPartEs: do not assume that every part has
 a domain

---
 src/libscotch/wgraph_part_es.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 0986624..1729864 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -111,7 +111,8 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
   comploadtab = grafptr->compload;
   compsizetab = grafptr->compsize;
 
-  for (partnum = 0; partnum < partnbr; partnum ++)
+  memSet (comploadtab, 0, partnbr * sizeof (Gnum)); /* Some parts may have no associated domain */
+  for (partnum = 0; partnum < actgrafdat.m.domnnbr; partnum ++)
     comploadtab[archDomNum (&archdat, &actgrafdat.m.domntab[partnum])] = actgrafdat.comploadavg[partnum] + actgrafdat.comploaddlt[partnum];
 
   memSet (compsizetab, 0, partnbr * sizeof (Gnum));
-- 
2.43.0


From a3d1912c42f896da3f86c0f39349c02397d05a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:39 +0000
Subject: [PATCH 016/158] fix: kgraphMapRbVfloSplit: classify every fixed
 vertex load slot exactly once

---
 src/libscotch/kgraph_map_rb.c | 62 ++++++++++-------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7256549..f27ce91 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -337,60 +337,33 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
 
   vflomax = vflonbr;
   if (archVar (archptr) == 0) {
-    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum < vflonnd; ) {
-      while (1) {
+    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum <= vflonnd; ) { /* As long as slots remain to be classified */
 #ifdef SCOTCH_DEBUG_KGRAPH2
-        int                 o;
+      int                 o;
 
-        o =
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-        archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
-#ifdef SCOTCH_DEBUG_KGRAPH2
-        if (o != 0) {
-          errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
-          return;
-        }
+      o =
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-        if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
-          compload0 += vflotab[vflonum].veloval;  /* Fixed vertex belongs to first subdomain                                    */
-          if (++ vflonum > vflonnd)               /* If passed beyond the limit of the second subdomain                         */
-            goto quit;
-        }
-        else {
+      archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
-            return;
-          }
+      if (o != 0) {
+        errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
+        return;
+      }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
+        compload0 += vflotab[vflonum ++].veloval; /* Fixed vertex belongs to first subdomain; keep slot in place              */
+        continue;
       }
-      while (1) {
-        archDomTerm (archptr, &domndat, vflotab[vflonnd].termnum);
-        if (archDomIncl (archptr, &domnsubtab[1], &domndat) == 1) { /* If terminal vertex subdomain included in second subdomain */
-          compload1 += vflotab[vflonnd].veloval;  /* Fixed vertex belongs to second subdomain                                    */
-          if (-- vflonnd <= vflonum) {            /* If matched the location of a slot that also belongs to second subdomain     */
-            compload1 += vflotab[vflonnd].veloval; /* Add load of reached slot to second subdomain                               */
-            goto quit;
-          }
-        }
-        else {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[0], &domndat) != 1) { /* If terminal vertex subdomain not included in first subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (3)");
-            return;
-          }
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
+        errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
+        return;
       }
-
+#endif /* SCOTCH_DEBUG_KGRAPH2 */
       vflodat          = vflotab[vflonum];        /* Swap slots */
       vflotab[vflonum] = vflotab[vflonnd];
       vflotab[vflonnd] = vflodat;
-      compload0 += vflotab[vflonum ++].veloval;
-      compload1 += vflotab[vflonnd --].veloval;
+      compload1 += vflotab[vflonnd --].veloval;   /* Fixed vertex belongs to second subdomain */
     }
   }
   else {                                          /* If variable-sized architecture, pseudo-terminals may not always be included */
@@ -403,7 +376,7 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
       archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
 #ifdef SCOTCH_DEBUG_KGRAPH2
       if (o != 0) {
-        errorPrint ("kgraphMapRbVfloSplit: internal error (4)");
+        errorPrint ("kgraphMapRbVfloSplit: internal error (3)");
         return;
       }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
@@ -430,7 +403,6 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
     }
   }
 
-quit:
   vflonbrtab[0] = vflonum;
   vflonbrtab[1] = vflomax - vflonum;
   vflowgttab[0] = compload0;
-- 
2.43.0


From 4733a176d0e45f7af34ed4b228a85cee1a72d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:11 +0000
Subject: [PATCH 017/158] fix: archLoad: do not crash nor free twice when
 architecture data cannot be loaded

---
 src/libscotch/arch.c        | 5 ++++-
 src/libscotch/arch_cmpltw.c | 1 +
 src/libscotch/arch_deco2.c  | 4 ++++
 src/libscotch/arch_sub.c    | 8 +++++++-
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch.c b/src/libscotch/arch.c
index 86239fe..c724adc 100644
--- a/src/libscotch/arch.c
+++ b/src/libscotch/arch.c
@@ -208,10 +208,13 @@ FILE * const                stream)
   archptr->clasptr = clasptr;                     /* Set architecture class                                                         */
   archptr->flagval = archptr->clasptr->flagval | ARCHFREE; /* Copy architecture flag before it can be modified and set freeing flag */
 
+  memSet (&archptr->data, 0, sizeof (archptr->data)); /* Nothing allocated yet */
+
   if (clasptr->archLoad != NULL) {                /* If class has loading function */
     if (clasptr->archLoad (&archptr->data, stream) != 0) { /* Load class data      */
       errorPrint ("archLoad: cannot load architecture data");
-      clasptr->archFree (&archptr->data);         /* Perform clean-up             */
+      if (archptr->clasptr->archFree != NULL)     /* If class has freeing function */
+        archptr->clasptr->archFree (&archptr->data); /* Perform clean-up           */
       memSet (archptr, 0, sizeof (Arch));         /* Initialize architecture body */
       return (1);
     }
diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 71fbb18..d4efe82 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -247,6 +247,7 @@ FILE * restrict const       stream)
     if ((fscanf (stream, "%ld", &velotmp) != 1) ||
         (velotmp < 1)) {
       errorPrint ("archCmpltwArchLoad: bad input (2)");
+      memFree    (vecwtab);
       return (1);
     }
     veloval = (Anum) velotmp;
diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 24e021d..475b8b6 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -94,6 +94,10 @@ ArchDeco2 * const           archptr)
   if (archptr->termtab != NULL)                   /* Free group leader */
     memFree (archptr->termtab);
 
+  archptr->vnumtab = NULL;
+  archptr->levltab = NULL;
+  archptr->termtab = NULL;
+
   return (0);
 }
 
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 40e5ab9..3b3a258 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -88,7 +88,8 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &termnbr) != 1) {
+  if ((intLoad (stream, &termnbr) != 1) ||
+      (termnbr < 1)) {
     errorPrint ("archSubArchLoad: bad input (1)");
     return (1);
   }
@@ -112,12 +113,14 @@ FILE * restrict const       stream)
     return (1);
   }
 
+  archInit (orgarchptr);
   o = archLoad (orgarchptr, stream);
   if (o == 0)
     o = archSubArchBuild (subarchptr, orgarchptr, termnbr, termtab);
   if (o != 0) {
     archExit (orgarchptr);
     memFree  (orgarchptr);
+    subarchptr->archptr = NULL;                   /* Sub-architecture not usable */
   }
 
   memFree (termtab);
@@ -190,6 +193,9 @@ ArchSub * const             archptr)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
+  if (archptr->archptr == NULL)                   /* If nothing to free */
+    return (0);
+
   if ((archArch (archptr)->flagval & ARCHFREE) != 0) { /* If sub-architecture needs to be freed too */
     archFree (archptr->archptr);
     memFree  (archptr->archptr);
-- 
2.43.0


From eb5e9abaf6cdcbc1fbabf566c0b5863d1bc28d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:10 +0000
Subject: [PATCH 018/158] fix: kgraphBand: set the old part of exactly the
 anchor vertices

---
 src/libscotch/kgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 42c2a9a..cdfd366 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -264,7 +264,7 @@ abort:
       errorPrint ("kgraphBand: out of memory (5)");
       goto abort;
     }
-    memSet (bandparotax + bandvertnbr - bandgrafptr->r.m.domnnbr, ~0, bandgrafptr->r.m.domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
+    memSet (bandparotax + bandvertnbr - domnnbr, ~0, domnnbr * sizeof (Gnum)); /* Old parts of anchors are unspecified */
     bandparotax -= bandgrafptr->s.baseval;
     bandgrafptr->r.m.flagval |= MAPPINGINCOMPLETE | MAPPINGFREEPART; /* Remapping may be incomplete */
     bandgrafptr->r.m.parttax  = bandparotax;
-- 
2.43.0


From 42c39dc5904eb62b766f807bf9d3a7107ee8f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:10 +0000
Subject: [PATCH 019/158] fix: kgraphBand: start edge traversal from base value
 when linking anchors

---
 src/libscotch/kgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index cdfd366..149fcfa 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -583,7 +583,7 @@ abort:
 
   if (pfixtax != NULL) {                          /* We have fixed vertices */
     memFree (termhashtab);                        /* Free group leader      */
-    for (bandvertnum = bandgrafptr->s.baseval, bandedgenum = 0; bandvertnum < bandvertnnd;
+    for (bandvertnum = bandedgenum = bandgrafptr->s.baseval; bandvertnum < bandvertnnd;
         bandvertnum ++) {                         /* Link anchors to vertices */
       for ( ; bandedgenum < bandverttax[bandvertnum + 1]; bandedgenum ++) {
         Gnum                  bandvertend;
-- 
2.43.0


From ed3a94053e93a5bb0b314f5ee3fec634830a3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:07 +0000
Subject: [PATCH 020/158] fix: vgraphSeparateFm: handle separator vertices of
 null load

---
 src/libscotch/vgraph_separate_fm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/vgraph_separate_fm.c b/src/libscotch/vgraph_separate_fm.c
index 07f6fad..b4db75f 100644
--- a/src/libscotch/vgraph_separate_fm.c
+++ b/src/libscotch/vgraph_separate_fm.c
@@ -120,7 +120,7 @@ const int                   partval)              /* Current preferred */
 
     vertpart = 0;                                 /* Assume we point to gainlink0      */
     vexxptr  = (VgraphSeparateFmVertex *) linkptr; /* TRICK: gainlink0 is at beginning */
-    if (vexxptr->veloval >= 0) {                  /* If in fact we point to gainlink1  */
+    if (vexxptr->veloval > 0) {                   /* If in fact we point to gainlink1  */
       vertpart = 1;                               /* Then point to vertex structure    */
       vexxptr  = (VgraphSeparateFmVertex *) ((byte *) vexxptr - ((byte *) &vexxdat.gainlink1 - (byte *) &vexxdat));
     }
@@ -378,7 +378,7 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
       Gnum                edgenum;
 
       partval = 0;                                /* Assume we point to gainlink0     */
-      if (vexxptr->veloval >= 0) {                /* If in fact we point to gainlink1 */
+      if (vexxptr->veloval > 0) {                 /* If in fact we point to gainlink1 */
         partval = 1;                              /* Then point to vertex structure   */
         vexxptr = (VgraphSeparateFmVertex *) ((byte *) vexxptr - ((byte *) &vexxptr->gainlink1 - (byte *) vexxptr));
       }
-- 
2.43.0


From cb560d090f5809a2d5b1a7fd32d4f11052e2b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 021/158] fix: archDeco2DomDist: return the same distance
 irrespective of the order of domains

---
 src/libscotch/arch_deco2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 475b8b6..e9a5b93 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -514,8 +514,8 @@ const ArchDeco2Dom * const  dom1ptr)
   const ArchDeco2Data * restrict const  doextab = archptr->doextab;
   const Gnum * restrict const           vnumtab = archptr->vnumtab;
 
-  domnidx0 = dom0ptr->domnidx;
-  domnidx1 = dom1ptr->domnidx;
+  domnidx0 = MIN (dom0ptr->domnidx, dom1ptr->domnidx); /* Traversals are heuristics: always start from same end so as to be symmetric */
+  domnidx1 = MAX (dom0ptr->domnidx, dom1ptr->domnidx);
   if (domnidx0 == domnidx1)                       /* If same domains, zero distance */
     return (0);
 
-- 
2.43.0


From 41150d8b38e1b00da0b610c9a6cd63d160b384c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 022/158] fix: archDeco2DomDist: index level vertices by vertex
 index, not by domain index

---
 src/libscotch/arch_deco2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index e9a5b93..efbff25 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -582,7 +582,7 @@ const ArchDeco2Dom * const  dom1ptr)
   }
 
   if (domnidx0 == domnidx1)                       /* If same domains after leveling, half distance of largest domain */
-    return (levlptr->grafdat.velotax[vnumtab[domnidx0]]);
+    return (levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]]);
 
   if (memAllocGroup ((void **) (void *)
                      &queutab, (size_t) ((vertnbr + ARCHDECO2PASSNBR + 1) * sizeof (Anum)), /* Room for pass markers */
@@ -716,7 +716,7 @@ loop: vertnum = queutab[queutailidx ++];          /* Get vertex number from queu
     }
 
     if (domnidx0 == domnidx1) {                   /* If same domains after leveling, half distance of largest domain */
-      distmin = levlptr->grafdat.velotax[vnumtab[domnidx0]];
+      distmin = levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]];
       break;
     }
 #ifdef SCOTCH_DEBUG_ARCH2
-- 
2.43.0


From 7543fd6103fbf0219f30e1298816aae5d025c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:13 +0000
Subject: [PATCH 023/158] fix: kgraphMapRbMapPoolInit: initialize secondary
 domain array of untied mappings

---
 src/libscotch/kgraph_map_rb_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/kgraph_map_rb_map.c b/src/libscotch/kgraph_map_rb_map.c
index 9cb2f6a..fe6a4ea 100644
--- a/src/libscotch/kgraph_map_rb_map.c
+++ b/src/libscotch/kgraph_map_rb_map.c
@@ -166,6 +166,7 @@ Context * const                         contptr)
       memFree    (poolptr->jobtab);
       return (1);
     }
+    memCpy (poolptr->domntab[1], mappptr->domntab, mappptr->domnnbr * sizeof (ArchDom)); /* In case kgraphMapRbPoolExit() is called just afterwards */
   }
 
   poolptr->flagval = flagval;
-- 
2.43.0


From 2a0d42a37d6d50335dee6a6169aedd913ff9d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:47 +0000
Subject: [PATCH 024/158] fix: bgraphBipartGp: stop when all vertices have been
 moved

---
 src/libscotch/bgraph_bipart_gp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph_bipart_gp.c b/src/libscotch/bgraph_bipart_gp.c
index ed266c6..28bbfa8 100644
--- a/src/libscotch/bgraph_bipart_gp.c
+++ b/src/libscotch/bgraph_bipart_gp.c
@@ -128,8 +128,11 @@ const BgraphBipartGpParam * const paraptr)        /*+ Method parameters +*/
     Gnum                diamdeg;                  /* Degree of current diameter vertex                  */
     int                 diamflag;                 /* Flag set if improvement in diameter between passes */
 
-    while (vexxtax[rootnum].passnum != 0)         /* Find first unallocated vertex */
+    while ((rootnum < grafptr->s.vertnnd) &&      /* Find first unallocated vertex, if any remains */
+           (vexxtax[rootnum].passnum != 0))
       rootnum ++;
+    if (rootnum >= grafptr->s.vertnnd)            /* If all vertices already moved to part 1 */
+      break;
 
     for (diamnum = rootnum, diamval = diamdeg = 0, diamflag = 1, passnum = 1; /* Start from root   */
          (passnum < paraptr->passnbr) && (diamflag -- != 0); passnum ++) { /* Loop if improvements */
-- 
2.43.0


From 892fc1b4d8b9cde56383d34c963ddf71b14b2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:29 +0000
Subject: [PATCH 025/158] fix: kgraphMapFm: refresh domain data after
 remapping, and free strategy

---
 src/libscotch/kgraph_map_fm.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 4943341..1cd74ce 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -994,8 +994,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   const Gnum * restrict const     edgetax = grafptr->s.edgetax;
   const Gnum * restrict const     edlotax = grafptr->s.edlotax;
   const Arch * restrict const     archptr = grafptr->m.archptr;
-  const Gnum                      domnnbr = grafptr->m.domnnbr;
-  const ArchDom * restrict const  domntab = grafptr->m.domntab;
+  Gnum                            domnnbr = grafptr->m.domnnbr; /* Domain data may change if graph has to be remapped */
+  const ArchDom *                 domntab = grafptr->m.domntab;
   Anum * restrict const           parttax = grafptr->m.parttax;
   Anum * restrict const           parotax = grafptr->r.m.parttax;
   const Gnum * restrict const     pfixtax = grafptr->pfixtax;
@@ -1034,10 +1034,19 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       return  (0);
     }
     else {                                        /* Imbalance must be fought */
-      const Strat *         strat;
+      Strat *               strat;
+      int                   o;
 
       strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}"); /* Use a standard algorithm */
-      kgraphMapSt (grafptr, strat);               /* Perform mapping */
+      o = kgraphMapSt (grafptr, strat);           /* Perform mapping */
+      stratExit (strat);
+      if (o != 0) {
+        errorPrint ("kgraphMapFm: cannot compute initial mapping");
+        memFree    (comploadmax);
+        return     (1);
+      }
+      domnnbr = grafptr->m.domnnbr;               /* Mapping domain array may have changed */
+      domntab = grafptr->m.domntab;
 
       if (grafptr->fronnbr == 0) {                /* If new partition has no frontier */
         memFree (comploadmax);
-- 
2.43.0


From f23f139405b98bcba5032982d20705d20c696ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:56 +0000
Subject: [PATCH 026/158] fix: vgraphSeparateFm: do not unlock vertices of null
 load endlessly

---
 src/libscotch/vgraph_separate_fm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/vgraph_separate_fm.c b/src/libscotch/vgraph_separate_fm.c
index b4db75f..b21c08f 100644
--- a/src/libscotch/vgraph_separate_fm.c
+++ b/src/libscotch/vgraph_separate_fm.c
@@ -569,7 +569,8 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
         }
         else {
           vexxptr->gainlink0.next = VGRAPHSEPAFMSTATEUSED;
-          if (vexxptr->compgain[partval] == vexxptr->veloval) { /* If immediate gain                 */
+          if ((vexxptr->compgain[partval] == vexxptr->veloval) && /* If immediate gain     */
+              (vexxptr->veloval != 0)) {          /* And gain is not null, else endless moves */
             vexxptr->gainlink1.next->prev = vexxptr->gainlink1.prev; /* Remove vertex from lock list */
             vexxptr->gainlink1.prev->next = vexxptr->gainlink1.next;
             gainTablAdd (tablptr, &vexxptr->gainlink0, vexxptr->compgain[0]); /* Link it */
-- 
2.43.0


From cb986b55f88ef5a1df8a569e2e214d9563f5035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 027/158] fix: archMeshXDomDist: mesh distances do not wrap
 around

---
 src/libscotch/arch_mesh.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 0cc08ce..e9ca1d2 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -908,13 +908,10 @@ const ArchMeshXDom * const  dom1ptr)
 {
   Anum                dimnnum;
   Anum                distval;
-  Anum                disttmp;
 
-  for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++) {
-    disttmp = abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
-                   dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]);
-    distval += (disttmp > archptr->c[dimnnum]) ? (2 * archptr->c[dimnnum] - disttmp) : disttmp;
-  }
+  for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++)
+    distval += abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
+                    dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]);
 
   return (distval >> 1);
 }
-- 
2.43.0


From ab588daf3074e0665aa12302c9b45001041ee77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 028/158] fix: archDeco2DomDist: accept distances to the whole
 domain

---
 src/libscotch/arch_deco2.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index efbff25..e98d539 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -524,12 +524,6 @@ const ArchDeco2Dom * const  dom1ptr)
   levlnum  = MAX (levlnum0, levlnum1);            /* Level where to start distance computations    */
   levlptr  = &archptr->levltab[levlnum];          /* Point to start level for distance computation */
   vertnbr  = levlptr->grafdat.vertnbr;            /* Get upper bound on number of vertices         */
-#ifdef SCOTCH_DEBUG_ARCH2
-  if (vertnbr <= 1) {                             /* If coarsest graph hit without exiting before */
-    errorPrint ("archDeco2DomDist: internal error (1)");
-    return     (-1);
-  }
-#endif /* SCOTCH_DEBUG_ARCH2 */
 
 #ifdef SCOTCH_DEBUG_ARCH2
   domnnum0 = domntab[domnidx0].domnnum;
@@ -584,6 +578,13 @@ const ArchDeco2Dom * const  dom1ptr)
   if (domnidx0 == domnidx1)                       /* If same domains after leveling, half distance of largest domain */
     return (levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]]);
 
+#ifdef SCOTCH_DEBUG_ARCH2
+  if (vertnbr <= 1) {                             /* If coarsest graph hit without exiting before */
+    errorPrint ("archDeco2DomDist: internal error (1)");
+    return     (-1);
+  }
+#endif /* SCOTCH_DEBUG_ARCH2 */
+
   if (memAllocGroup ((void **) (void *)
                      &queutab, (size_t) ((vertnbr + ARCHDECO2PASSNBR + 1) * sizeof (Anum)), /* Room for pass markers */
                      &disttax, (size_t) (vertnbr * sizeof (Anum)), NULL) == NULL) {
-- 
2.43.0


From 3c2e5b0e7db6052312dee2ebddba7a2e1f60d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 029/158] fix: archDeco2ArchLoad2: set number of domains

---
 src/libscotch/arch_deco2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index e98d539..9b69fd3 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -152,6 +152,7 @@ FILE * restrict const       stream)
 
   termnbr = archptr->termnbr;
   domnnbr = 2 * termnbr - 1;
+  archptr->domnnbr = domnnbr;                     /* Set number of domains, to be able to save it */
   levlnbr = archptr->levlmax --;                  /* Get levlmax */
   if (memAllocGroup ((void **) (void *)
                      &archptr->termtab, (size_t) (termnbr * sizeof (ArchSubTerm)),
-- 
2.43.0


From 70b66a8630f6986b1e1777c8544d885e7a7f0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:56 +0000
Subject: [PATCH 030/158] fix: hgraphOrderHd, hgraphOrderHf: handle vertices of
 null load

---
 src/libscotch/hgraph_order_hd.c | 10 ++++++---
 src/libscotch/hgraph_order_hf.c | 10 ++++++---
 src/libscotch/hgraph_order_hx.c | 36 ++++++++++++++++++++++++++++++---
 src/libscotch/hgraph_order_hx.h |  3 ++-
 src/libscotch/module.h          |  1 +
 5 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/libscotch/hgraph_order_hd.c b/src/libscotch/hgraph_order_hd.c
index fe5a39e..dc4b041 100644
--- a/src/libscotch/hgraph_order_hd.c
+++ b/src/libscotch/hgraph_order_hd.c
@@ -116,7 +116,7 @@ const HgraphOrderHdParam * restrict const paraptr)
     return (hgraphOrderSi (grafptr, ordeptr, ordenum, cblkptr));
 
   n     = grafptr->s.vertnbr;
-  norig = grafptr->s.velosum;
+  norig = hgraphOrderHxSize (grafptr);
   iwlen = (Gnum) ((double) grafptr->s.edgenbr * HGRAPHORDERHDCOMPRAT) + 32;
   if (iwlen < n)                                  /* Prepare to re-use array */
     iwlen = n;
@@ -138,7 +138,7 @@ const HgraphOrderHdParam * restrict const paraptr)
     return (1);
   }
 
-  hgraphOrderHxFill (grafptr, petab, lentab, iwtab, nvartab, elentab, &pfree);
+  hgraphOrderHxFill (grafptr, norig, petab, lentab, iwtab, nvartab, elentab, &pfree);
 
   hallOrderHdR2Halmd (norig, n, 0, iwlen, petab, pfree, /* No elements here */
                       lentab, iwtab, nvartab, elentab, lasttab, &ncmpa,
@@ -150,7 +150,11 @@ const HgraphOrderHdParam * restrict const paraptr)
   }
 
   if (grafptr->s.velotax != NULL) {
-    memCpy (cwgttax, grafptr->s.velotax + grafptr->s.baseval, n * sizeof (Gnum));
+    const Gnum * restrict const velotab = grafptr->s.velotax + grafptr->s.baseval;
+    Gnum                        vertnum;
+
+    for (vertnum = 0; vertnum < n; vertnum ++)    /* Use same weights as above */
+      cwgttax[vertnum] = MAX (velotab[vertnum], 1);
     cwgttax -= grafptr->s.baseval;
   }
   else
diff --git a/src/libscotch/hgraph_order_hf.c b/src/libscotch/hgraph_order_hf.c
index 4dd30de..7ec9c17 100644
--- a/src/libscotch/hgraph_order_hf.c
+++ b/src/libscotch/hgraph_order_hf.c
@@ -116,7 +116,7 @@ const HgraphOrderHfParam * restrict const paraptr)
     return (hgraphOrderSi (grafptr, ordeptr, ordenum, cblkptr));
 
   n      = grafptr->s.vertnbr;
-  norig  = grafptr->s.velosum;
+  norig  = hgraphOrderHxSize (grafptr);
   nbbuck = norig * 2;
   iwlen  = (Gnum) ((double) grafptr->s.edgenbr * HGRAPHORDERHFCOMPRAT) + 32;
   if (iwlen < n)                                  /* TRICK: make sure to be able to re-use array */
@@ -140,7 +140,7 @@ const HgraphOrderHfParam * restrict const paraptr)
     return (1);
   }
 
-  hgraphOrderHxFill (grafptr, petab, lentab, iwtab, nvtab, elentab, &pfree);
+  hgraphOrderHxFill (grafptr, norig, petab, lentab, iwtab, nvtab, elentab, &pfree);
 
   hallOrderHfR3Hamdf4 (norig, n, 0, nbbuck, iwlen, petab, pfree,
                        lentab, iwtab, nvtab, elentab, lasttab, &ncmpa,
@@ -152,7 +152,11 @@ const HgraphOrderHfParam * restrict const paraptr)
   }
 
   if (grafptr->s.velotax != NULL) {
-    memCpy (cwgttax, grafptr->s.velotax + grafptr->s.baseval, n * sizeof (Gnum));
+    const Gnum * restrict const velotab = grafptr->s.velotax + grafptr->s.baseval;
+    Gnum                        vertnum;
+
+    for (vertnum = 0; vertnum < n; vertnum ++)    /* Use same weights as above */
+      cwgttax[vertnum] = MAX (velotab[vertnum], 1);
     cwgttax -= grafptr->s.baseval;
   }
   else
diff --git a/src/libscotch/hgraph_order_hx.c b/src/libscotch/hgraph_order_hx.c
index 06d424b..03514b3 100644
--- a/src/libscotch/hgraph_order_hx.c
+++ b/src/libscotch/hgraph_order_hx.c
@@ -66,6 +66,35 @@
 /*                                 */
 /***********************************/
 
+/* This routine computes the size of the
+** uncompressed graph, such as it will be seen
+** by the graph ordering routines. Since null
+** weights denote secondary variables, vertices
+** of null load are given a weight of one.
+** It returns:
+** - >=0  : sum of the weights of all vertices.
+*/
+
+Gnum
+hgraphOrderHxSize (
+const Hgraph * restrict const grafptr)
+{
+  Gnum                vertnum;
+  Gnum                velosum;
+
+  const Gnum * restrict const velotax = grafptr->s.velotax;
+
+  velosum = grafptr->s.velosum;
+  if (velotax != NULL) {
+    for (vertnum = grafptr->s.baseval; vertnum < grafptr->s.vertnnd; vertnum ++) {
+      if (velotax[vertnum] == 0)
+        velosum ++;
+    }
+  }
+
+  return (velosum);
+}
+
 /* This routine fills the input arrays for
 ** the graph ordering routines.
 ** It returns:
@@ -75,6 +104,7 @@
 void
 hgraphOrderHxFill (
 const Hgraph * restrict const grafptr,
+const Gnum                    norig,              /*+ Number of nodes in uncompressed graph +*/
 Gnum * restrict const         petab,
 Gnum * restrict const         lentab,
 Gnum * restrict const         iwtab,
@@ -107,7 +137,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnew]   = edgenew;
     lentax[vertnew]  = degrval;
     elentax[vertnew] = 0;
-    nvtax[vertnew]   = (velotax != NULL) ? velotax[vertnum] : 1;
+    nvtax[vertnew]   = (velotax != NULL) ? MAX (velotax[vertnum], 1) : 1; /* Null weights are for secondary variables */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++, edgenew ++)
       iwtax[edgenew] = edgetax[edgenum] + vertadj;
@@ -118,9 +148,9 @@ Gnum * restrict const         pfreptr)
 
     degrval = verttax[vertnum] - vendtax[vertnum]; /* Negative degree */
     petax[vertnew]   = edgenew;
-    lentax[vertnew]  = (degrval != 0) ? degrval : (-1 - grafptr->s.velosum);
+    lentax[vertnew]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnew] = 0;
-    nvtax[vertnew]   = (velotax != NULL) ? velotax[vertnum] : 1;
+    nvtax[vertnew]   = (velotax != NULL) ? MAX (velotax[vertnum], 1) : 1; /* Null weights are for secondary variables */
 
     for (edgenum = grafptr->s.verttax[vertnum];
          edgenum < grafptr->s.vendtax[vertnum]; edgenum ++, edgenew ++)
diff --git a/src/libscotch/hgraph_order_hx.h b/src/libscotch/hgraph_order_hx.h
index e165b10..52fddcf 100644
--- a/src/libscotch/hgraph_order_hx.h
+++ b/src/libscotch/hgraph_order_hx.h
@@ -51,4 +51,5 @@
 **  The function prototypes.
 */
 
-void                        hgraphOrderHxFill   (const Hgraph * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const);
+Gnum                        hgraphOrderHxSize   (const Hgraph * restrict const);
+void                        hgraphOrderHxFill   (const Hgraph * restrict const, const Gnum, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const, Gnum * restrict const);
diff --git a/src/libscotch/module.h b/src/libscotch/module.h
index 3ced1d6..c8784e9 100644
--- a/src/libscotch/module.h
+++ b/src/libscotch/module.h
@@ -902,6 +902,7 @@
 #define hgraphOrderHd               SCOTCH_NAME_INTERN (hgraphOrderHd)
 #define hgraphOrderHf               SCOTCH_NAME_INTERN (hgraphOrderHf)
 #define hgraphOrderHxFill           SCOTCH_NAME_INTERN (hgraphOrderHxFill)
+#define hgraphOrderHxSize           SCOTCH_NAME_INTERN (hgraphOrderHxSize)
 #define hgraphOrderKp               SCOTCH_NAME_INTERN (hgraphOrderKp)
 #define hgraphOrderNd               SCOTCH_NAME_INTERN (hgraphOrderNd)
 #define hgraphOrderSi               SCOTCH_NAME_INTERN (hgraphOrderSi)
-- 
2.43.0


From 5d349a8f32019e94fc748a6ad8d9916e9239c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 031/158] fix: hgraphOrderCc: start numbering components at the
 given ordering number

---
 src/libscotch/hgraph_order_cc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cc.c b/src/libscotch/hgraph_order_cc.c
index aacbb03..0703b97 100644
--- a/src/libscotch/hgraph_order_cc.c
+++ b/src/libscotch/hgraph_order_cc.c
@@ -177,7 +177,7 @@ const HgraphOrderCcParam * restrict const paraptr)
     cblkptr->cblktab[rootnum].cblktab = NULL;
   }
 
-  for (rootnum = 0, indordenum = 0; rootnum < rootnbr; rootnum ++) {
+  for (rootnum = 0, indordenum = ordenum; rootnum < rootnbr; rootnum ++) {
     Gnum                indvnohnbr;
     int                 o;
 
-- 
2.43.0


From 355ce986223d72f4e79cff23fa7f3be7b84a6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 032/158] fix: hgraphOrderCp: write permutation of compressed
 subgraphs at the given ordering number

---
 src/libscotch/hgraph_order_cp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index 20a65d0..747781b 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -127,7 +127,7 @@ const HgraphOrderCpParam * const  paraptr)
 #endif /* SCOTCH_DEBUG_ORDER2 */
 
 
-  Gnum * restrict const         fineperitab = fineordeptr->peritab;
+  Gnum * restrict const         fineperitab = fineordeptr->peritab + ordenum; /* Inverse permutation sub-array of subgraph */
   const Gnum * restrict const   fineverttax = finegrafptr->s.verttax;
   const Gnum * restrict const   finevelotax = finegrafptr->s.velotax;
   const Gnum * restrict const   finevendtax = finegrafptr->s.vendtax;
-- 
2.43.0


From 2d9054869b6cc6d56be5529ed19f1903bdd6920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:34 +0000
Subject: [PATCH 033/158] fix: hallOrderHdR2Halmd: account for the load of
 isolated vertices

---
 src/libscotch/hall_order_hd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index b3b07e1..1a50d1e 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -495,7 +495,7 @@ Gnum * restrict     w)                            /* Flag array
       head[deg] = i;
     }
     else {
-      nel ++;
+      nel += nv[i];                               /* Take load of isolated vertices into account */
       elen[i] = - nel;
       pe[i]   = 0;
       w[i]    = 0;
-- 
2.43.0


From 6ae1060a0dc18fca4f4126bee466a5603f7e962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 034/158] fix: hgraphOrderBl: split all column blocks, of
 weighted and induced subgraphs as well

---
 src/libscotch/hgraph_order_bl.c | 257 +++++++++++++++++++++-----------
 1 file changed, 166 insertions(+), 91 deletions(-)

diff --git a/src/libscotch/hgraph_order_bl.c b/src/libscotch/hgraph_order_bl.c
index 1bb4daa..3f1ecab 100644
--- a/src/libscotch/hgraph_order_bl.c
+++ b/src/libscotch/hgraph_order_bl.c
@@ -65,6 +65,132 @@
 #include "hgraph_order_bl.h"
 #include "hgraph_order_st.h"
 
+/*********************************/
+/*                               */
+/* These are the block splitting */
+/* routines.                     */
+/*                               */
+/*********************************/
+
+/* This routine recursively splits the leaves
+** of the given column block tree node.
+** It returns:
+** - 0   : if the splitting could be performed.
+** - !0  : on error.
+*/
+
+static
+int
+hgraphOrderBl2 (
+Order * restrict const                    ordeptr,
+OrderCblk * restrict const                cblkptr, /*+ Column block to split                               +*/
+const Gnum * restrict const               velotab, /*+ Vertex loads of column block, in permuted order, or NULL +*/
+const Gnum                                cblkmin) /*+ Minimum size of column blocks                       +*/
+{
+  Gnum                cblknbr;                    /* Number of column blocks for splitting */
+  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  Gnum                cblknum;                    /* Current number of column sub-block    */
+  Gnum                velosum;                    /* Load of column block to split         */
+
+  if (cblkptr->cblktab != NULL) {                 /* If block already partitioned */
+    Gnum                vnodnum;
+
+    for (cblknum = 0, vnodnum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
+      Gnum                vnodnbr;
+
+      vnodnbr = cblkptr->cblktab[cblknum].vnodnbr;
+      if (hgraphOrderBl2 (ordeptr, &cblkptr->cblktab[cblknum], (velotab != NULL) ? velotab + vnodnum : NULL, cblkmin) != 0)
+        return (1);
+      vnodnum += vnodnbr;
+    }
+
+    return (0);
+  }
+
+  velosum = cblkptr->vnodnbr;
+  if (velotab != NULL) {
+    Gnum                vnodnum;
+
+    for (vnodnum = 0, velosum = 0; vnodnum < cblkptr->vnodnbr; vnodnum ++)
+      velosum += velotab[vnodnum];
+  }
+
+  if ((cblkptr->vnodnbr <= 1) ||                  /* If block has only one column */
+      (velosum < (2 * cblkmin)))                  /* Or does not need to be split */
+    return (0);
+
+  cblknbr = velosum / cblkmin;                    /* Get new (maximum) number of blocks      */
+  cblksiz = MIN (cblknbr, cblkptr->vnodnbr);      /* No more column blocks than columns      */
+
+  if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
+    errorPrint ("hgraphOrderBl2: out of memory");
+    return (1);
+  }
+
+  if (velotab == NULL) {                          /* For unweighted graphs, split blocks evenly */
+    for (cblknum = 0; cblknum < cblksiz; cblknum ++)
+      cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (velosum, cblknbr, cblknum);
+  }
+  else {
+    Gnum                velomax;                  /* Maximum weight to reach for this sub-block     */
+    Gnum                veloval;                  /* Current accumulated weight                     */
+    Gnum                vnodnum;                  /* Current permuted node index                    */
+    Gnum                vnodbas;                  /* Starting permuted node index for current block */
+    Gnum                cblkidx;                  /* Ghost column block index for even splitting    */
+
+    veloval = 0;
+    vnodbas =
+    vnodnum = 0;
+    cblknum =
+    cblkidx = 0;
+    do {                                          /* Go on filling column blocks    */
+      do {                                        /* Compute bound of next subblock */
+        cblkidx ++;
+        velomax = DATASCAN (velosum, cblknbr, cblkidx); /* Bound of next sub-block                    */
+      } while (velomax <= veloval);               /* Next bound must be higher than current state     */
+
+      do {                                        /* Accumulate weights until bound is reached */
+        veloval += velotab[vnodnum];
+        vnodnum ++;
+      } while (veloval < velomax);
+
+      if (veloval >= velosum)                     /* If last block, take remaining vertices of null load too */
+        vnodnum = cblkptr->vnodnbr;
+
+      cblkptr->cblktab[cblknum].vnodnbr = vnodnum - vnodbas; /* Build relevant column block */
+      cblknum ++;                                 /* One more effective column block */
+      vnodbas = vnodnum;                          /* Reset base for next block       */
+    } while (veloval < velosum);                  /* As long as columns remain       */
+
+    cblknbr = cblknum;                            /* Use effective number of blocks */
+  }
+
+  if (cblknbr < 2) {                              /* If block could not be split */
+    memFree (cblkptr->cblktab);
+    cblkptr->cblktab = NULL;
+    return (0);
+  }
+
+  for (cblknum = 0; cblknum < cblknbr; cblknum ++) {
+    cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
+    cblkptr->cblktab[cblknum].cblknbr = 0;
+    cblkptr->cblktab[cblknum].cblktab = NULL;
+  }
+
+  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
+  cblkptr->cblknbr = cblknbr;
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_lock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+  ordeptr->treenbr += cblknbr;                    /* That many more tree nodes    */
+  ordeptr->cblknbr += cblknbr - 1;                /* That many more column blocks */
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_unlock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+
+  return (0);
+}
+
 /*****************************/
 /*                           */
 /* This is the main routine. */
@@ -85,8 +211,14 @@ const Gnum                                ordenum, /*+ Zero-based ordering numbe
 OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
 const HgraphOrderBlParam * restrict const paraptr)
 {
-  Gnum                cblknbr;                    /* Number of column blocks for splitting */
-  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  Gnum * restrict     velotab;                    /* Vertex loads, in permuted order               */
+  Gnum * restrict     sorttab;                    /* Array for matching subgraph vertex indices    */
+  Gnum                vnodnum;
+  int                 o;
+
+  const Gnum * restrict const velotax = grafptr->s.velotax;
+  const Gnum * restrict const vnumtax = grafptr->s.vnumtax;
+  const Gnum * restrict const peritab = ordeptr->peritab + ordenum;
 
   if (paraptr->cblkmin <= 0) {
     errorPrint ("hgraphOrderBl: invalid minimum block size");
@@ -96,103 +228,46 @@ const HgraphOrderBlParam * restrict const paraptr)
   if (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
     return (1);
 
-  if (cblkptr->cblktab == NULL) {                 /* If single column block */
 #ifdef SCOTCH_DEBUG_HGRAPH2
-    if (cblkptr->vnodnbr != grafptr->vnohnbr) {
-      errorPrint ("hgraphOrderBl: invalid column block");
-      return (1);
-    }
+  if (cblkptr->vnodnbr != grafptr->vnohnbr) {
+    errorPrint ("hgraphOrderBl: invalid column block");
+    return (1);
+  }
 #endif /* SCOTCH_DEBUG_HGRAPH2 */
 
-    if ((cblkptr->vnodnbr <= 1) ||                /* Il block has only one column    */
-        (grafptr->vnlosum < (2 * paraptr->cblkmin))) /* Or does not need to be split */
-      return (0);
-
-    cblknbr = grafptr->vnlosum / paraptr->cblkmin; /* Get new (maximum) number of blocks */
-    cblksiz = MIN (cblknbr, grafptr->vnohnbr);    /* No more column blocks than columns  */
-
-    if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
-      errorPrint ("hgraphOrderBl: out of memory");
-      return (1);
-    }
-
-    if (grafptr->s.velotax == NULL) {             /* For unweighted graphs, split blocks evenly */
-      Gnum                cblknum;
+  if (velotax == NULL)
+    return (hgraphOrderBl2 (ordeptr, cblkptr, NULL, paraptr->cblkmin));
 
-      for (cblknum = 0; cblknum < cblksiz; cblknum ++) { /* No more column blocks than those allocated */
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
-        cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (grafptr->vnlosum, cblknbr, cblknum);
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-      }
-    }
-    else {
-      Gnum                vnlomax;                /* Maxumum weight to reach for this subblock      */
-      Gnum                vnlosum;                /* Current accumulated weight                     */
-      Gnum                vnodnum;                /* Current permuted node index                    */
-      Gnum                vnodbas;                /* Starting permuted node index for current block */
-      Gnum                cblknum;                /* Current number of column subblocks             */
-      Gnum                cblkidx;                /* Ghost column block index for even splitting    */
-
-      vnlomax =
-      vnlosum = 0;
-      vnodbas =
-      vnodnum = 0;
-      cblknum =
-      cblkidx = 0;
-      do {                                        /* Go on filling column blocks    */
-#ifdef SCOTCH_DEBUG_HGRAPH2
-        if (cblknum >= cblksiz) {                 /* No more column blocks than those allocated */
-          errorPrint ("hgraphOrderBl: internal error (1)");
-          return (1);
-        }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-        do {                                      /* Compute bound of next subblock */
-          cblkidx ++;
-#ifdef SCOTCH_DEBUG_HGRAPH2
-          if (cblkidx > cblknbr) {                /* No more ghost indices than ghost column blocks */
-            errorPrint ("hgraphOrderBl: internal error (2)");
-            return (1);
-          }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-          vnlomax = DATASCAN (grafptr->vnlosum, cblknbr, cblkidx); /* Bound of next subblock      */
-        } while (vnlomax <= vnlosum);             /* Next bound must be higher than current state */
-
-        do {                                      /* Accumulate weights until bound is reached */
-          vnlosum += grafptr->s.velotax[ordeptr->peritab[vnodnum]];
-          vnodnum ++;
-        } while (vnlosum < vnlomax);
-
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF; /* Build relevant column block */
-        cblkptr->cblktab[cblknum].vnodnbr = vnodnum - vnodbas;
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-        cblknum ++;                               /* One more effective column block */
-        vnodbas = vnodnum;                        /* Reset base for next block       */
-      } while (vnlosum < grafptr->vnlosum);       /* As long as columns remain       */
-
-      cblknbr = cblknum;                          /* Use effective number of blocks */
-    }
+  if (memAllocGroup ((void **) (void *)
+                     &velotab, (size_t) (grafptr->vnohnbr * sizeof (Gnum)),
+                     &sorttab, (size_t) (grafptr->vnohnbr * 4 * sizeof (Gnum)), NULL) == NULL) {
+    errorPrint ("hgraphOrderBl: out of memory");
+    return (1);
+  }
 
-    cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
-    cblkptr->cblknbr = cblknbr;
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_lock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
-    ordeptr->treenbr += cblknbr;                  /* That many more tree nodes    */
-    ordeptr->cblknbr += cblknbr - 1;              /* That many more column blocks */
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_unlock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
+  if (vnumtax == NULL) {                          /* If graph is original graph */
+    for (vnodnum = 0; vnodnum < grafptr->vnohnbr; vnodnum ++)
+      velotab[vnodnum] = velotax[peritab[vnodnum]];
   }
-  else {                                          /* Block already partitioned */
-    Gnum                cblknum;
+  else {                                          /* Inverse permutation contains original vertex indices */
+    Gnum * restrict const     sortloc = sorttab;
+    Gnum * restrict const     sortper = sorttab + 2 * grafptr->vnohnbr;
 
-    for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hgraphOrderBl (grafptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
-        return (1);
+    for (vnodnum = 0; vnodnum < grafptr->vnohnbr; vnodnum ++) {
+      sortloc[2 * vnodnum]     = vnumtax[vnodnum + grafptr->s.baseval];
+      sortloc[2 * vnodnum + 1] = velotax[vnodnum + grafptr->s.baseval];
+      sortper[2 * vnodnum]     = peritab[vnodnum];
+      sortper[2 * vnodnum + 1] = vnodnum;
     }
+    intSort2asc1 (sortloc, grafptr->vnohnbr);
+    intSort2asc1 (sortper, grafptr->vnohnbr);
+    for (vnodnum = 0; vnodnum < grafptr->vnohnbr; vnodnum ++)
+      velotab[sortper[2 * vnodnum + 1]] = sortloc[2 * vnodnum + 1];
   }
 
-  return (0);
+  o = hgraphOrderBl2 (ordeptr, cblkptr, velotab, paraptr->cblkmin);
+
+  memFree (velotab);                              /* Free group leader */
+
+  return (o);
 }
-- 
2.43.0


From f4eeb66f548c9f47e82665b581726acc1412aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 035/158] fix: hgraphOrderNd: report errors when ordering
 leaves

---
 src/libscotch/hgraph_order_nd.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libscotch/hgraph_order_nd.c b/src/libscotch/hgraph_order_nd.c
index 8982714..8d63974 100644
--- a/src/libscotch/hgraph_order_nd.c
+++ b/src/libscotch/hgraph_order_nd.c
@@ -175,8 +175,7 @@ const HgraphOrderNdParam * restrict const paraptr)
   if ((vspgrafdat.compsize[0] == 0) ||            /* If could not separate more */
       (vspgrafdat.compsize[1] == 0)) {
     vgraphExit    (&vspgrafdat);                  /* Free useless space */
-    hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    return (0);                                   /* Leaf has been processed */
+    return (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea)); /* Order this leaf */
   }
 
   vsplisttab[0].vnumnbr = vspgrafdat.compsize[0]; /* Build vertex lists within frontier array */
-- 
2.43.0


From a93100f2ac09512a1c81544921720ae49448cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:45 +0000
Subject: [PATCH 036/158] fix: hgraphOrderKp: set execution context of mapping
 graph

---
 src/libscotch/hgraph_order_kp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 4288c35..51f9217 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -108,6 +108,7 @@ const HgraphOrderKpParam * restrict const paraptr)
 
   hgraphUnhalo (grafptr, &actgrafdat.s);          /* Extract non-halo part of given graph       */
   actgrafdat.s.vnumtax = NULL;                    /* Do not keep numbers from nested dissection */
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context                 */
 
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
-- 
2.43.0


From 9a8bca058a9beb67c30ba229389a774b36e61ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 037/158] fix: SCOTCH_graphOrderComputeList: return the
 identity ordering of empty lists as a success

---
 src/libscotch/library_graph_order.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 3ecb02e..9206c0c 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -276,7 +276,8 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
 
   if (listnbr == 0) {                             /* If empty list, return identity permutation */
     intAscn (libordeptr->o.peritab, srcgrafptr->vertnbr, srcgrafptr->baseval);
-    goto abort;
+    o = 0;
+    goto finalize;
   }
 
   if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
@@ -368,8 +369,9 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   if (o != 0)
     goto abort;
 
+finalize:
 #ifdef SCOTCH_DEBUG_LIBRARY2
-  if (orderCheck (&libordeptr->o) != 0)
+  if ((o = orderCheck (&libordeptr->o)) != 0)
     goto abort;
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
-- 
2.43.0


From dc91a7ade46f7ab68d13a1c3d6fc1b0d91d73ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 038/158] fix: graph mapping view handles based, sparse and
 partial mappings, and leaves part arrays unchanged

---
 src/libscotch/library_graph_map_view.c | 38 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 2d42a6a..11c95b8 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -126,11 +126,11 @@ const Anum                  partval)              /*+ Part value +*/
   for (passnum = 1, rootnum = grafptr->baseval; ; passnum ++) { /* For all connected components */
     Gnum                diamnum;                  /* Vertex which achieves diameter             */
 
-    while ((rootnum < grafptr->vertnbr) &&
+    while ((rootnum < grafptr->vertnnd) &&
            ((vexxtax[rootnum].passnum != 0) ||    /* Find first unallocated vertex */
             (parttax[rootnum] != partval)))
       rootnum ++;
-    if (rootnum >= grafptr->vertnbr)              /* Exit if all of graph processed */
+    if (rootnum >= grafptr->vertnnd)              /* Exit if all of graph processed */
       break;
 
     diambase = ++ diamdist;                       /* Start from previous distance */
@@ -200,8 +200,9 @@ FILE * const                  stream)             /*+ Output stream
 {
   const Arch * restrict     archptr;
   LibMapping * restrict     lmaoptr;
-  Anum * restrict           parttax;              /* Part array                                   */
-  Anum * restrict           parotax;              /* Old part array                               */
+  const Anum * restrict     parttax;              /* Part array                                   */
+  Anum * restrict           prnmtax;              /* Array of parts renumbered from 0 to mapnbr-1 */
+  const Anum * restrict     parotax;              /* Old part array                               */
   MappingSort * restrict    domntab;              /* Pointer to domain sort array                 */
   ArchDom                   domnfrst;             /* Largest domain in architecture               */
   ArchDom                   domnorg;              /* Vertex domain                                */
@@ -222,6 +223,7 @@ FILE * const                  stream)             /*+ Output stream
   Anum                      nghbsum;
   Gnum                      vertnum;
   Gnum                      vertidx;
+  Gnum                      vertmap;              /* Index of first mapped vertex in sort array   */
   Gnum                      veloval;
   Gnum                      edloval;
   Gnum                      commdist[256];        /* Array of load distribution */
@@ -268,7 +270,7 @@ FILE * const                  stream)             /*+ Output stream
 
   if (libmapoptr != NULL) {
     lmaoptr = (LibMapping *) libmapoptr;
-    parotax = lmaoptr->parttab;
+    parotax = lmaoptr->parttab - grafptr->baseval;
   }
   else {
     lmaoptr = NULL;
@@ -291,7 +293,8 @@ FILE * const                  stream)             /*+ Output stream
 
   if (memAllocGroup ((void **) (void *)
                      &domntab, (size_t) ((grafptr->vertnbr + 1) * sizeof (MappingSort)),
-                     &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)), NULL) == NULL) {
+                     &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)),
+                     &prnmtax, (size_t) (grafptr->vertnbr * sizeof (Anum)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphMapView) ": out of memory");
     return (1);
   }
@@ -301,6 +304,7 @@ FILE * const                  stream)             /*+ Output stream
     domntab[vertnum].peri = vertnum + grafptr->baseval; /* Build inverse permutation */
   }
   parttax -= grafptr->baseval;
+  prnmtax -= grafptr->baseval;
   domntab[grafptr->vertnbr].labl = ARCHDOMNOTTERM; /* TRICK: avoid testing (i+1)   */
   domntab[grafptr->vertnbr].peri = ~0;            /* Prevent Valgrind from yelling */
 
@@ -309,11 +313,14 @@ FILE * const                  stream)             /*+ Output stream
   archDomFrst (archptr, &domnfrst);               /* Get architecture domain */
   tgtnbr = archDomSize (archptr, &domnfrst);      /* Get architecture size   */
 
+  for (vertmap = 0; (vertmap < grafptr->vertnbr) && (domntab[vertmap].labl == ~0); vertmap ++) /* Skip unmapped vertices */
+    prnmtax[domntab[vertmap].peri] = ~0;
+
   mapnbr  = 0;
   mapsum  = 0;
   veloval = 1;                                    /* Assume unweighted vertices */
-  for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
-    parttax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
+  for (vertidx = vertmap; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
+    prnmtax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
     if (domntab[vertidx].labl != domntab[vertidx + 1].labl) /* TRICK: if new (or end) domain label */
       mapnbr ++;
     if (velotax != NULL)
@@ -328,7 +335,7 @@ FILE * const                  stream)             /*+ Output stream
   if (mapnbr > 0) {
     mapmin = GNUMMAX;
 
-    for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
+    for (vertidx = vertmap; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
       if (velotax != NULL)
         veloval = velotax[domntab[vertidx].peri];
       mapsum += veloval;
@@ -382,19 +389,20 @@ FILE * const                  stream)             /*+ Output stream
   if (mapnbr > 0) {
     nghbmin = ANUMMAX;
 
-    for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
+    for (vertidx = vertmap; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
       Gnum                edgenum;
       Gnum                edgennd;
       Anum                partnum;
 
-      partnum = parttax[domntab[vertidx].peri];
+      partnum = prnmtax[domntab[vertidx].peri];
       for (edgenum = verttax[domntab[vertidx].peri],
            edgennd = vendtax[domntab[vertidx].peri];
            edgenum < edgennd; edgenum ++) {
         Anum                partend;
 
-        partend = parttax[edgetax[edgenum]];
-        if ((partend != partnum) &&               /* If edge is not internal                                      */
+        partend = prnmtax[edgetax[edgenum]];
+        if ((partend != ~0) &&                    /* If neighbor is mapped                                        */
+            (partend != partnum) &&               /* And edge is not internal                                     */
             (partend != nghbtab[nghbnbr])) {      /* And neighbor is not sole neighbor or has not just been found */
           Anum                partmin;
           Anum                partmax;
@@ -484,7 +492,7 @@ FILE * const                  stream)             /*+ Output stream
         continue;
       if (parotax[vertnum] != parttax[vertnum]) {
         migrnbr ++;
-        archDomTerm (archptr, &domnorg, parotax[vertnum]); /* Get terminal domains */
+        archDomTerm (archptr, &domnorg, parttax[vertnum]); /* Get terminal domains */
         archDomTerm (archptr, &domnold, parotax[vertnum]);
         migrdistavg += archDomDist (archptr, &domnorg, &domnold);
         migrloadavg += (grafptr->velotax == NULL) ? 1 : grafptr->velotax[vertnum];
@@ -535,7 +543,7 @@ FILE * const                  stream)             /*+ Output stream
     do {
       Gnum                diamval;
 
-      diamval  = graphMapView3 (grafptr, parttax, mapnum);
+      diamval  = graphMapView3 (grafptr, prnmtax, mapnum);
       diamsum += diamval;
       if (diamval < diammin)
         diammin = diamval;
-- 
2.43.0


From 6bc2b2a3d79f1beaa3b6098b349ea98d9ccc21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:42 +0000
Subject: [PATCH 039/158] fix: load mappings of labelled graphs whose base
 value is not zero

---
 src/libscotch/library_graph_map_io.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_map_io.c b/src/libscotch/library_graph_map_io.c
index c982276..8307205 100644
--- a/src/libscotch/library_graph_map_io.c
+++ b/src/libscotch/library_graph_map_io.c
@@ -150,7 +150,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
     vertsortflag = 1;                             /* Assume graph data sorted */
     vertsortlabl = GNUMMIN;
     for (vertsortnum = 0; vertsortnum < vertnbr; vertsortnum ++) {
-      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum];
+      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum + grafptr->baseval];
       vertsorttab[vertsortnum].num  = vertsortnum;
 
       if (vertsorttab[vertsortnum].labl < vertsortlabl) /* Check if graph data sorted */
@@ -166,8 +166,11 @@ FILE * const                  stream)             /*+ Input stream  +*/
         if (mappfilenum >= mappfilenbr)           /* If all mapping data processed         */
           goto end;                               /* Exit main loop                        */
       }
-      if (mappsorttab[mappfilenum].labl == vertsorttab[vertsortnum].labl) /* If label match found */
+      if (mappsorttab[mappfilenum].labl == vertsorttab[vertsortnum].labl) { /* If label match found */
         ((Anum *) parttab)[vertsorttab[vertsortnum].num] = mappsorttab[mappfilenum ++].num;
+        if (mappfilenum >= mappfilenbr)           /* If all mapping data processed */
+          break;                                  /* Exit main loop                */
+      }
     }
 end: ;
   }
-- 
2.43.0


From 2cad88a5d0a7f37ad030866496735ce2c49f85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 040/158] fix: meshGraphDual: set vertex load sum of unweighted
 dual graph

---
 src/libscotch/mesh_graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index fba9556..6e89aea 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -264,7 +264,7 @@ const Gnum                  noconbr)              /*+ number of common points to
   grafptr->verttax -= grafptr->baseval;
   grafptr->vendtax  = grafptr->verttax + 1;
   grafptr->velotax  = NULL;                       /* TODO: not implemented */
-  grafptr->velosum  = meshptr->velosum;
+  grafptr->velosum  = meshptr->velmnbr;          /* Since no vertex load array */
 
   edgemax = 2 * meshptr->edgenbr;                 /* Compute lower bound on number of edges in graph */
 
-- 
2.43.0


From 2ac0e0e675d38a1f666d744decd2c020602fe0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 041/158] fix: meshGraph, meshGraphDual: always increase size
 of edge array

---
 src/libscotch/mesh_graph.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index 6e89aea..c6ed089 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -173,8 +173,8 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
               Gnum                edgemax;
               Gnum * restrict     edgetmp;
 
-              edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-              edgemax = edgemax + (edgemax >> 2);
+              edgemax = edgennd - grafptr->baseval; /* Increase size by at least 25 % */
+              edgemax = edgemax + (edgemax >> 2) + 1;
 
               if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                 errorPrint ("meshGraph: out of memory (3)");
@@ -324,8 +324,8 @@ test:         if (nghbnbr <= 0) {                 /* If new instance allows us t
                   Gnum                edgemax;
                   Gnum * restrict     edgetmp;
 
-                  edgemax = edgennd - grafptr->baseval; /* Increase size by 25 % */
-                  edgemax = edgemax + (edgemax >> 2);
+                  edgemax = edgennd - grafptr->baseval; /* Increase size by at least 25 % */
+                  edgemax = edgemax + (edgemax >> 2) + 1;
 
                   if ((edgetmp = memRealloc (grafptr->edgetax + grafptr->baseval, edgemax * sizeof (Gnum))) == NULL) {
                     errorPrint ("meshGraphDual: out of memory (3)");
-- 
2.43.0


From 436e6b27ddd4c0bf9f10926d971304a2ca44ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:06 +0000
Subject: [PATCH 042/158] fix: meshSave: set load array of nodes when elements
 come first

---
 src/libscotch/mesh_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 2a916a2..bf6ee86 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -353,7 +353,7 @@ FILE * restrict const       stream)
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
-    velotabtab[0] = meshptr->vnlotax;
+    velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
   else {
-- 
2.43.0


From 99a16928c5fcb39d0bcf84e3ff6587dbe5b71d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:27 +0000
Subject: [PATCH 043/158] fix: meshLoad: count isolated elements

---
 src/libscotch/mesh_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index bf6ee86..a73b71a 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -98,6 +98,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   Gnum                baseadj;
   Gnum                versval;
   Gnum                degrmax;
+  Gnum                veisnbr;                    /* Number of isolated element vertices */
   Gnum                propval;
   char                proptab[4];
   Gnum                vertbastab[2];
@@ -175,6 +176,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->edgetax -= meshptr->baseval;
 
   degrmax = 0;
+  veisnbr = 0;
   edgennd = meshptr->edgenbr + meshptr->baseval;
   edgenum = meshptr->baseval;                     /* No edges allocated yet */
   vlblmax = vertnbr + meshptr->baseval - 1;       /* No vertex labels known */
@@ -241,6 +243,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
+      if ((degrval == 0) && (vertbas == meshptr->velmbas)) /* Count isolated element vertices */
+        veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
       degrval += edgenum;
@@ -289,6 +293,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   }
 
   meshptr->degrmax = degrmax;
+  meshptr->veisnbr = veisnbr;
 
   if (meshptr->vlbltax != NULL) {                 /* If vertex label renaming necessary                 */
     if (graphLoad2 (meshptr->baseval, vertnbr + meshptr->baseval, meshptr->verttax, /* Rename edge ends */
-- 
2.43.0


From 2d37702462a44cfd87c0d41229a99372fdf36db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:27 +0000
Subject: [PATCH 044/158] fix: meshLoad: number edge ends with respect to
 requested base, and keep labels of elements and nodes apart

---
 src/libscotch/mesh_io.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index a73b71a..8542235 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -220,8 +220,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->vlbltax[vertnum] = vlblval + vertbas + baseadj; /* Adjust vertex label */
-        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label           */
+        meshptr->vlbltax[vertnum] = vlblval;
+        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label */
           vlblmax = meshptr->vlbltax[vertnum];
       }
       if (proptab[2] != 0) {                      /* If must read vertex load */
@@ -267,7 +267,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->edgetax[edgenum] = edgeval + edgeadj;
+        meshptr->edgetax[edgenum] = (meshptr->vlbltax != NULL) ? edgeval : edgeval + baseadj + edgeadj;
       }
     }
 
@@ -296,8 +296,21 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->veisnbr = veisnbr;
 
   if (meshptr->vlbltax != NULL) {                 /* If vertex label renaming necessary                 */
-    if (graphLoad2 (meshptr->baseval, vertnbr + meshptr->baseval, meshptr->verttax, /* Rename edge ends */
-                    meshptr->vendtax, meshptr->edgetax, vlblmax, meshptr->vlbltax) != 0) {
+    Gnum                vertnum;
+    int                 o;
+
+    for (edgenum = meshptr->baseval; edgenum < meshptr->verttax[vertbastab[1]]; edgenum ++)
+      meshptr->edgetax[edgenum] += vlblmax + 1;   /* Elements and nodes may have similar labels */
+    for (vertnum = vertbastab[1]; vertnum < vertnndtab[1]; vertnum ++)
+      meshptr->vlbltax[vertnum] += vlblmax + 1;
+
+    o = graphLoad2 (meshptr->baseval, vertnbr + meshptr->baseval, meshptr->verttax, /* Rename edge ends */
+                    meshptr->vendtax, meshptr->edgetax, 2 * vlblmax + 1, meshptr->vlbltax);
+
+    for (vertnum = vertbastab[1]; vertnum < vertnndtab[1]; vertnum ++) /* Restore labels */
+      meshptr->vlbltax[vertnum] -= vlblmax + 1;
+
+    if (o != 0) {
       errorPrint ("meshLoad: cannot relabel vertices");
       meshFree   (meshptr);
       return     (1);
-- 
2.43.0


From 8f349c47ecb42c5b14261734a7336233fe7c90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:36 +0000
Subject: [PATCH 045/158] fix: meshFree: do not free separately the label array
 of loaded meshes

---
 src/libscotch/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh.h b/src/libscotch/mesh.h
index 6bbc31c..16589a3 100644
--- a/src/libscotch/mesh.h
+++ b/src/libscotch/mesh.h
@@ -63,7 +63,7 @@
 #define MESHFREEVNUM                0x0008        /* Free vnumtab array        */
 #define MESHFREEOTHR                0x0010        /* Free all other arrays     */
 #define MESHFREETABS                0x001F        /* Free all mesh arrays      */
-#define MESHVERTGROUP               0x0010        /* All vertex arrays grouped */
+#define MESHVERTGROUP               0x0020        /* All vertex arrays grouped */
 
 /*+ The Mesh flag type. +*/
 
-- 
2.43.0


From 78864f2c48821032fd70fd87e38b21c6af898851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:36 +0000
Subject: [PATCH 046/158] fix: hmeshOrderCp: handle nodes that belong to no
 element

---
 src/libscotch/hmesh_order_cp.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 634f766..e02ecf9 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -325,6 +325,29 @@ loop_failed: ;
     return (1);
   }
 #endif /* SCOTCH_DEBUG_ORDER2 */
+
+  for (finevnodnum = finemeshptr->m.vnodbas, coarvnodnum = ~0; /* Merge all isolated nodes, which belong to no element, into a single cluster */
+       finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) {
+    if (finecoartax[finevnodnum] != ~0)           /* If node already considered, skip it */
+      continue;
+
+    if (coarvnodnum != ~0) {                      /* If cluster of isolated nodes already exists */
+      finecoartax[finevnodnum] = -2 - coarvnodnum; /* Set index of cluster non-leader            */
+      coarvsiztax[coarvnodnum] ++;
+      continue;
+    }
+
+    if (coarvnodnnd >= (coarvnodmax + coarmeshdat.m.vnodbas)) { /* If mesh needs not be compressed */
+      memFree (coarverttax + coarmeshdat.m.baseval);
+      return  (hmeshOrderSt (finemeshptr, fineordeptr, ordenum, cblkptr, paraptr->stratunc));
+    }
+
+    coarvnodnum = coarvnodnnd ++;
+    finecoartax[finevnodnum] = coarvnodnum;       /* Record node as cluster leader       */
+    coarfinetax[coarvnodnum] = finevnodnum;       /* Record node to build edge sub-array */
+    coarvsiztax[coarvnodnum] = 1;
+  }
+
   coarmeshdat.m.vnodnnd = coarvnodnnd;
   coarmeshdat.m.vnodnbr = coarvnodnnd - coarmeshdat.m.vnodbas;
 
-- 
2.43.0


From d2cd44420a2249198e29bf96ba123b9b1ce79462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:36 +0000
Subject: [PATCH 047/158] fix: hmeshOrderCp: sum loads of all merged nodes, and
 index element loads with respect to coarse base

---
 src/libscotch/hmesh_order_cp.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index e02ecf9..aaa2392 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -206,7 +206,8 @@ const HmeshOrderCpParam * restrict const  paraptr)
 
   coarmeshdat.m.verttax = coarverttax;
   coarmeshdat.m.vendtax = coarverttax + 1;        /* Use compact representation of arrays     */
-  coarmeshdat.m.velotax = finemeshptr->m.velotax; /* Re-use element vertex load array, if any */
+  coarmeshdat.m.velotax = (finemeshptr->m.velotax == NULL) ? NULL /* Re-use element vertex load array, if any */
+                          : finemeshptr->m.velotax + (finemeshptr->m.velmbas - coarmeshdat.m.velmbas);
   coarmeshdat.m.vnlotax = coarvnlotax;
   coarmeshdat.m.edgetax = coaredgetax;
 
@@ -393,7 +394,12 @@ loop_failed: ;
     memSet (coarmeshdat.m.vnlotax + coarmeshdat.m.vnodbas, 0, coarmeshdat.m.vnodnbr * sizeof (Gnum));
 
     for (finevnodnum = finemeshptr->m.vnodbas; finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) { /* Compute vertex loads for compressed mesh */
-      coarmeshdat.m.vnlotax[finecoartax[finevnodnum]] += finemeshptr->m.vnlotax[finevnodnum];
+      Gnum                coarvnodnum;
+
+      coarvnodnum = finecoartax[finevnodnum];     /* Get index of corresponding coarse node */
+      if (coarvnodnum < 0)                        /* If node is not cluster leader          */
+        coarvnodnum = -2 - coarvnodnum;           /* Get index of cluster leader            */
+      coarvnlotax[coarvnodnum] += finemeshptr->m.vnlotax[finevnodnum];
     }
   }
 
-- 
2.43.0


From 515c1f54bc6315e864cccd6fd7f5dce0a9150a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:36 +0000
Subject: [PATCH 048/158] fix: hmeshOrderCp: write permutation of compressed
 submeshes at the given ordering number

---
 src/libscotch/hmesh_order_cp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index aaa2392..92c5407 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -457,7 +457,9 @@ loop_failed: ;
     coarvnodnum = finecoartax[finevnodnum];       /* Get index of corresponding coarse node */
     if (coarvnodnum < 0)                          /* If node is not cluster leader          */
       coarvnodnum = -2 - coarvnodnum;             /* Get index of cluster leader            */
-    fineordeptr->peritab[coarvpostax[coarvnodnum] ++] = finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas);
+    fineordeptr->peritab[ordenum + coarvpostax[coarvnodnum] ++] = (finemeshptr->m.vnumtax == NULL) /* Order node vertex */
+                                                                  ? finevnodnum + (finemeshptr->m.baseval - finemeshptr->m.vnodbas)
+                                                                  : finemeshptr->m.vnumtax[finevnodnum];
   }
 
   orderExit (&coarordedat);
-- 
2.43.0


From 15ff92f98810a82d958b33bcfa297851395c4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:21 +0000
Subject: [PATCH 049/158] fix: meshLoad: tell nodes from elements in meshes
 without elements

---
 src/libscotch/mesh_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 8542235..d55b590 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -243,7 +243,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
-      if ((degrval == 0) && (vertbas == meshptr->velmbas)) /* Count isolated element vertices */
+      if ((degrval == 0) && (vertnum >= meshptr->velmbas) && (vertnum < meshptr->velmnnd)) /* Count isolated element vertices */
         veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
@@ -271,7 +271,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
     }
 
-    if (vertbastab[i] == meshptr->velmbas) {      /* If elements are processed        */
+    if ((vertbastab[i] == meshptr->velmbas) &&    /* If elements are processed (bases */
+        (vertnndtab[i] == meshptr->velmnnd)) {    /* are equal if there is none)      */
       if (velomax == 1)                           /* If element loads not significant */
         meshptr->velotax = NULL;
       else
-- 
2.43.0


From fd67d9d226bcfd4f14f0f15a4121fc77862c2e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 050/158] fix: hmeshOrderHxFill: use node loads, and set number
 of neighbors of isolated nodes

---
 src/libscotch/hmesh_order_hx.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 6f133b1..8df97cf 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -103,11 +103,11 @@ Gnum * restrict const         pfreptr)
   Gnum * restrict const       elentax = elentab - 1;
   const Gnum * restrict const verttax = meshptr->m.verttax;
   const Gnum * restrict const vendtax = meshptr->m.vendtax;
-  const Gnum * restrict const velotax = meshptr->m.velotax;
+  const Gnum * restrict const vnlotax = meshptr->m.vnlotax;
   const Gnum * restrict const edgetax = meshptr->m.edgetax;
 
   n     = meshptr->m.velmnbr + meshptr->m.vnodnbr;
-  norig = meshptr->m.velmnbr + meshptr->m.vnodnbr; /* Elements always have load 1                        */
+  norig = meshptr->m.velmnbr + meshptr->m.vnlosum; /* Elements always have load 1                        */
   for (hashsiz = 16, degrval = meshptr->m.degrmax * (meshptr->m.degrmax - 1); /* Compute hash table size */
        hashsiz < degrval; hashsiz <<= 1) ;
   hashsiz <<= 1;
@@ -127,7 +127,7 @@ Gnum * restrict const         pfreptr)
 
     petax[vertnum]  = edgenum;
     lentax[vertnum] = vendtax[vnodnum] - verttax[vnodnum];
-    nvtax[vertnum]  = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]  = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum], nghbnbr = -1; /* -1 since loop edge will be processed in the main loop */
          enodnum < vendtax[vnodnum]; enodnum ++) {
@@ -153,8 +153,8 @@ Gnum * restrict const         pfreptr)
             break;                                /* Skip to next end vertex        */
         }
       }
-      elentax[vertnum] = nghbnbr;
     }
+    elentax[vertnum] = (nghbnbr > 0) ? nghbnbr : 0; /* Isolated nodes have no neighbors */
   }
 
   for ( ; vnodnum < meshptr->m.vnodnnd; vnodnum ++, vertnum ++) { /* Copy halo vertices with base 1 */
@@ -165,7 +165,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnum]   = edgenum;
     lentax[vertnum]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnum] = 0;
-    nvtax[vertnum]   = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]   = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum];
          enodnum < vendtax[vnodnum]; enodnum ++)
-- 
2.43.0


From cfe6645c1abd3dae2a750453f351018cf77a9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:28 +0000
Subject: [PATCH 051/158] fix: meshSave: do not write twice the vertices of
 meshes with only nodes or only elements

---
 src/libscotch/mesh_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index d55b590..a4e3bb0 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -366,12 +366,12 @@ FILE * restrict const       stream)
   }
 
   vertbastab[0] = meshptr->baseval;
-  vertnndtab[1] = meshptr->velmnbr + meshptr->vnodnbr + meshptr->baseval;
   if (meshptr->velmbas <= meshptr->vnodbas) {     /* If elements first */
     vertnndtab[0] = meshptr->velmnnd;
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
+    vertnndtab[1] = meshptr->vnodnnd;
     velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
@@ -380,6 +380,7 @@ FILE * restrict const       stream)
     velotabtab[0] = meshptr->vnlotax;
     edgeadjtab[0] = meshptr->velmbas - meshptr->baseval;
     vertbastab[1] = meshptr->velmbas;
+    vertnndtab[1] = meshptr->velmnnd;
     velotabtab[1] = meshptr->velotax;
     edgeadjtab[1] = meshptr->vnodbas - meshptr->baseval;
   }
-- 
2.43.0


From c339cdc7258a4a24787922db38dc6121e57feba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:03 +0000
Subject: [PATCH 052/158] fix: hallOrderHdR2Halmd, hallOrderHfR3Hamdf4: order
 all nodes of meshes

---
 src/libscotch/hall_order_hd.c | 1 +
 src/libscotch/hall_order_hf.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index 1a50d1e..cdc5fff 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -437,6 +437,7 @@ Gnum * restrict     w)                            /* Flag array
       else {                                      /* i \in Ve or V0 */
         if (elen[i] < 0) {                        /* If i \in Ve    */
           nel    += nv[i];
+          totel  += nv[i];                        /* Elements are eliminated first */
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
diff --git a/src/libscotch/hall_order_hf.c b/src/libscotch/hall_order_hf.c
index 8ec12b9..e94683b 100644
--- a/src/libscotch/hall_order_hf.c
+++ b/src/libscotch/hall_order_hf.c
@@ -780,6 +780,7 @@ Gnum * restrict     head /* [0:nbbuck+1] */)      /* Linked list structure
       else {                                      /* Non-halo vertex or element */
         if (elen[i] < 0) {                        /* If i \in Ve                */
           nel    += nv[i];
+          totel  += nv[i];                        /* Elements are eliminated first */
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
-- 
2.43.0


From 41656f2d9107d797e314523843eb74d93fbb5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:03 +0000
Subject: [PATCH 053/158] fix: hmeshOrderHd, hmeshOrderHf: set column weights
 according to order of nodes and elements

---
 src/libscotch/hmesh_order_hd.c | 4 ++--
 src/libscotch/hmesh_order_hf.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/hmesh_order_hd.c b/src/libscotch/hmesh_order_hd.c
index 0fc53c8..df9383c 100644
--- a/src/libscotch/hmesh_order_hd.c
+++ b/src/libscotch/hmesh_order_hd.c
@@ -150,8 +150,8 @@ const HmeshOrderHdParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum)); /* Nodes are numbered first */
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0,                  meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
diff --git a/src/libscotch/hmesh_order_hf.c b/src/libscotch/hmesh_order_hf.c
index 3212638..c037649 100644
--- a/src/libscotch/hmesh_order_hf.c
+++ b/src/libscotch/hmesh_order_hf.c
@@ -153,8 +153,8 @@ const HmeshOrderHfParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum)); /* Nodes are numbered first */
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0,                  meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
-- 
2.43.0


From d2415ebd7c4c16442f8424e4a20845e5929152e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:29 +0000
Subject: [PATCH 054/158] fix: vmeshSeparateGr: set weights of parts

---
 src/libscotch/vmesh_separate_gr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/vmesh_separate_gr.c b/src/libscotch/vmesh_separate_gr.c
index 2570516..6658421 100644
--- a/src/libscotch/vmesh_separate_gr.c
+++ b/src/libscotch/vmesh_separate_gr.c
@@ -92,6 +92,8 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
   grafdat.compload[1] = meshptr->ncmpload[1];
   grafdat.compload[2] = meshptr->ncmpload[2];
   grafdat.comploaddlt = meshptr->ncmploaddlt;
+  grafdat.dwgttab[0]  =                           /* Parts of mesh separators have same weight */
+  grafdat.dwgttab[1]  = 1;
   grafdat.compsize[0] = meshptr->ncmpsize[0];
   grafdat.compsize[1] = meshptr->ncmpsize[1];
   grafdat.fronnbr     = meshptr->fronnbr;
-- 
2.43.0


From 311bbe2e4c89b6cef1dc46ed6086c7d4f08eef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:29 +0000
Subject: [PATCH 055/158] fix: vmeshSeparateGr: free auxiliary graph

---
 src/libscotch/vmesh_separate_gr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/vmesh_separate_gr.c b/src/libscotch/vmesh_separate_gr.c
index 6658421..c883482 100644
--- a/src/libscotch/vmesh_separate_gr.c
+++ b/src/libscotch/vmesh_separate_gr.c
@@ -107,12 +107,14 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
 #ifdef SCOTCH_DEBUG_VMESH2
   if (vgraphCheck (&grafdat) != 0) {
     errorPrint ("vmeshSeparateGr: internal error (1)");
+    graphExit  (&grafdat.s);
     return (1);
   }
 #endif /* SCOTCH_DEBUG_VMESH2 */
 
   if (vgraphSeparateSt (&grafdat, paraptr->stratptr) != 0) {
     errorPrint ("vmeshSeparateGr: cannot separate graph");
+    graphExit  (&grafdat.s);
     return (1);
   }
 
@@ -126,6 +128,8 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
   meshptr->ncmpsize[1] = grafdat.compsize[1];
   meshptr->fronnbr     = grafdat.fronnbr;
 
+  graphExit (&grafdat.s);
+
   for (velmnum = meshptr->m.velmbas, ecmpsize1 = 0;
        velmnum < meshptr->m.velmnnd; velmnum ++) { /* Compute part of all elements */
     Gnum                              eelmnum;
-- 
2.43.0


From eacb5fe4dc8efd3771f83e1a3a14361ce3454563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 056/158] fix: meshInduceSepa: use node loads, not element
 loads

---
 src/libscotch/mesh_induce_sepa.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index 524f781..c31b569 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -177,13 +177,13 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   hashmsk = hashmsk * 4 + 3;                      /* Compute size of node hash table */
 
   indvertnbr = indvelmnbr + orgsepanbr;           /* Upper bound on number of all vertices */
-  if (orgmeshptr->velotax != NULL) {
+  if (orgmeshptr->vnlotax != NULL) {
     p = memAllocGroup ((void **) (void *)
           &indmeshptr->verttax, (size_t) (indvertnbr * sizeof (Gnum)), /* verttab is not compact */
           &indmeshptr->vendtax, (size_t) (indvertnbr * sizeof (Gnum)),
           &indmeshptr->vnumtax, (size_t) (orgsepanbr * sizeof (Gnum)), /* vnumtab is of size indnodenbr                */
-          &indmeshptr->velotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
-    indmeshptr->velotax -= indmeshptr->vnodbas;
+          &indmeshptr->vnlotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
+    indmeshptr->vnlotax -= indmeshptr->vnodbas;
   }
   else
     p = memAllocGroup ((void **) (void *)
@@ -224,12 +224,12 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
       orgindxtax[orgvnodnum] = indvnodnum ++;     /* One more node vertex created                */
     indmeshptr->verttax[orgindxtax[orgvnodnum]] = indedgenum; /* Set beginning of edge sub-array */
     indmeshptr->vnumtax[orgindxtax[orgvnodnum]] = orgvnodnum - (orgmeshptr->vnodbas - orgmeshptr->baseval);
-    if (indmeshptr->velotax != NULL) {
+    if (indmeshptr->vnlotax != NULL) {
       Gnum                indvnloval;
 
-      indvnloval  = orgmeshptr->velotax[orgvnodnum];
+      indvnloval  = orgmeshptr->vnlotax[orgvnodnum];
       indvnlosum += indvnloval;
-      indmeshptr->velotax[orgindxtax[orgvnodnum]] = indvnloval;
+      indmeshptr->vnlotax[orgindxtax[orgvnodnum]] = indvnloval;
     }
 
     indenodnum  = indedgenum;                     /* Record position of node edge sub-array */
@@ -344,7 +344,7 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   indmeshptr->edgetax -= indmeshptr->baseval;
 
   indmeshptr->velosum = indmeshptr->velmnbr;      /* TODO: account for element weights */
-  indmeshptr->vnlosum = (indmeshptr->velotax == NULL) ? orgsepanbr : indvnlosum;
+  indmeshptr->vnlosum = (indmeshptr->vnlotax == NULL) ? orgsepanbr : indvnlosum;
   indmeshptr->degrmax = orgmeshptr->degrmax;      /* Rough estimate */
 
   if (orgmeshptr->vnumtax != NULL) {              /* If mesh is a submesh */
-- 
2.43.0


From 552fbfacf460ff5b2ffbdec2db527aab4c4e6443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 057/158] fix: meshInduceSepa: do not create twice the elements
 that replace smaller ones

---
 src/libscotch/mesh_induce_sepa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index c31b569..7cdcef2 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -304,11 +304,13 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
             break;                                /* No need to go any further                  */
           }
           if (mtchnbr == (indmeshptr->vendtax[indvelmtmp] - indmeshptr->verttax[indvelmtmp])) { /* If other element is useless */
-            indedgenbr -= mtchnbr;                /* Remove its edges */
+            indedgenbr += (indedgenum - indmeshptr->verttax[indvelmnum]) - mtchnbr; /* Replace its edges by ours */
             indmeshptr->verttax[indvelmtmp] = indmeshptr->verttax[indvelmnum]; /* Recycle it into our element */
             indmeshptr->vendtax[indvelmtmp] = indmeshptr->vendtax[indvelmnum];
             orgindxtax[indvneltax[indvelmtmp]] = -2;
             indvneltax[indvelmtmp] = orgvelmnum;
+            orgindxtax[orgvelmnum] = indvelmtmp;  /* Element is already in edge sub-array of current node */
+            break;
           }
         }
         if (indenodtmp < indmeshptr->verttax[orgindxtax[orgvnodnum]]) { /* If new element distinct from all other neighboring elements */
-- 
2.43.0


From d93a8060298235ff5fd35dd6fbd7709480365432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 058/158] fix: meshInduceSepa: handle separators without edges

---
 src/libscotch/mesh_induce_sepa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index 7cdcef2..bf0897b 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -337,7 +337,7 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   indmeshptr->velmnnd   = indvelmnum;
   indmeshptr->edgenbr = indedgenbr;
 
-  if ((indmeshptr->edgetax = (Gnum *) memRealloc (indedgetax + indmeshptr->baseval, (indedgenum - indmeshptr->baseval) * sizeof (Gnum))) == NULL) {
+  if ((indmeshptr->edgetax = (Gnum *) memRealloc (indedgetax + indmeshptr->baseval, (indedgenum - indmeshptr->baseval + 1) * sizeof (Gnum))) == NULL) { /* TRICK: +1 to never have an empty array */
     errorPrint ("meshInduceSepa: out of memory (3)");
     memFree    (indedgetax + indmeshptr->baseval); /* Free group leader */
     meshFree   (indmeshptr);
-- 
2.43.0


From 07a259371fc2a9fa6a6956fc5edadf60ef53e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 059/158] fix: hmeshOrderNd: complete halo structure of
 separator mesh, and free right array on error

---
 src/libscotch/hmesh_order_nd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_nd.c b/src/libscotch/hmesh_order_nd.c
index 5f5762b..309a992 100644
--- a/src/libscotch/hmesh_order_nd.c
+++ b/src/libscotch/hmesh_order_nd.c
@@ -212,9 +212,10 @@ const HmeshOrderNdParam * const   paraptr)
 
     if (meshInduceSepa (&nspmeshdat.m, nspmeshdat.parttax, nspmeshdat.fronnbr, nspmeshdat.frontab, &indmeshdat.m) != 0) {
       errorPrint ("hmeshOrderNd: cannot build induced subgraph (1)");
-      memFree    (nspmeshdat.frontab);            /* Free remaining space */
+      vmeshExit  (&nspmeshdat);                   /* Free remaining space */
       return (1);
     }
+    indmeshdat.veihnbr = 0;                       /* No halo-isolated elements           */
     indmeshdat.vnohnbr = indmeshdat.m.vnodnbr;    /* Fill halo mesh structure of non-halo mesh */
     indmeshdat.vnohnnd = indmeshdat.m.vnodnnd;
     indmeshdat.vehdtax = indmeshdat.m.vendtax;
-- 
2.43.0


From 8a215ccfc608a7ddcb418392b13cebdaf4002118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:31 +0000
Subject: [PATCH 060/158] fix: meshLoad: do not write to discarded load array

---
 src/libscotch/mesh_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index a4e3bb0..182d01e 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -99,6 +99,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   Gnum                versval;
   Gnum                degrmax;
   Gnum                veisnbr;                    /* Number of isolated element vertices */
+  Gnum *              velotax;                    /* Load array common to elements and nodes */
   Gnum                propval;
   char                proptab[4];
   Gnum                vertbastab[2];
@@ -170,6 +171,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   meshptr->vendtax  = meshptr->verttax + 1;       /* Use compact vertex array */
   meshptr->velotax  = (velonbr != 0) ? (meshptr->velotax - meshptr->baseval) : NULL; /* Store based load array access in velotax */
   meshptr->vnlotax  = meshptr->velotax;
+  velotax           = meshptr->velotax;           /* Keep access to common load array, as any of its parts may be discarded */
   meshptr->vlbltax  = (vlblnbr != 0) ? (meshptr->vlbltax - meshptr->baseval) : NULL;
   meshptr->velosum  = meshptr->velmnbr;           /* Assume element and node vertices not weighted */
   meshptr->vnlosum  = meshptr->vnodnbr;
@@ -233,7 +235,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         }
         if (veloval > velomax)
           velomax = veloval;
-        meshptr->velotax[vertnum] = veloval;
+        velotax[vertnum] = veloval;
         velosum += veloval;
       }
       if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
-- 
2.43.0


From 8cb3836c207aaf9d02c6549d71ff46c9e1595f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 061/158] fix: meshCoarsen: compute number of coarse elements
 when nodes of fine mesh come first

---
 src/libscotch/mesh_coarsen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 64a14c4..6693d31 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -606,7 +606,7 @@ fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax
 
   memFree (finehashtab);
 
-  *coarvelmptr = coarvelmnum - finemeshptr->velmbas;
+  *coarvelmptr = coarvelmnum - finemeshptr->baseval; /* Coarse elements are numbered first */
   *coarvnodptr = coarvnodnbr;
   *coaredgeptr = coaredgenbr;
 
-- 
2.43.0


From 72dcf1f5c3cec5f96503ba902adc71d91d32e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 062/158] fix: meshCoarsen: keep nodes that belong to no
 element

---
 src/libscotch/mesh_coarsen.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 6693d31..1488b79 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -119,6 +119,8 @@ Context * restrict const      contptr)            /*+ Execution context
   Gnum                        coarvelmnum;        /* Number of currently selected coarse element */
   Gnum                        coareelmnum;
   Gnum                        coarvnodnum;
+  Gnum                        coarvnodtmp;        /* Number of coarse node for nodes without elements */
+  Gnum                        finevnodnum;
   Gnum                        coardegrmax;
   MeshCoarsenMult * restrict  finemulttax;
   Gnum                        coaredgetmp;
@@ -294,6 +296,24 @@ Context * restrict const      contptr)            /*+ Execution context
       coardegrmax = coardegrval;
   }
   coarmeshptr->veisnbr = coarveisnbr;
+
+  coarvnodtmp = ~0;                               /* Merge all nodes which belong to no element */
+  for (finevnodnum = finemeshptr->vnodbas; finevnodnum < finemeshptr->vnodnnd; finevnodnum ++) {
+    Gnum                finevnloval;
+
+    if (finecoartax[finevnodnum] != ~0)
+      continue;
+
+    if (coarvnodtmp == ~0) {                      /* If no such coarse node yet */
+      coarvnodtmp = coarvnodnum ++;
+      coarverttax[coarvnodtmp] = 0;               /* Node has no connections */
+      coarvelotax[coarvnodtmp] = 0;
+    }
+    finevnloval = (finemeshptr->vnlotax != NULL) ? finemeshptr->vnlotax[finevnodnum] : 1;
+    coarvelotax[coarvnodtmp] += finevnloval;
+    finecoartax[finevnodnum]  = coarvnodtmp;
+  }
+
   coarmeshptr->vnodnnd = coarvnodnum;
   coarmeshptr->vnodnbr = coarvnodnum - coarmeshptr->vnodbas;
   coarmeshptr->velosum = finemeshptr->velosum;
-- 
2.43.0


From 999b6bb6665f87559602b809c5eb9a6ba7c1927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:44 +0000
Subject: [PATCH 063/158] fix: hmeshOrderGr: set execution context of halo
 graph

---
 src/libscotch/hmesh_order_gr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/hmesh_order_gr.c b/src/libscotch/hmesh_order_gr.c
index 04cad98..767f17e 100644
--- a/src/libscotch/hmesh_order_gr.c
+++ b/src/libscotch/hmesh_order_gr.c
@@ -89,6 +89,8 @@ const HmeshOrderGrParam * const paraptr)
     errorPrint ("hmeshOrderGr: cannot build halo graph");
     return (1);
   }
+  grafdat.levlnum = meshptr->levlnum;
+  grafdat.contptr = meshptr->contptr;
 
   if ((o = hgraphOrderSt (&grafdat, ordeptr, ordenum, cblkptr, paraptr->stratptr)) != 0)
     errorPrint ("hmeshOrderGr: cannot order graph");
-- 
2.43.0


From 310027b3305f78174365f30cc621f5f65e9eb1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 064/158] fix: hmeshOrderBl: do not order mesh again for every
 column block to split

---
 src/libscotch/hmesh_order_bl.c | 78 ++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/src/libscotch/hmesh_order_bl.c b/src/libscotch/hmesh_order_bl.c
index 2d80412..d3f690e 100644
--- a/src/libscotch/hmesh_order_bl.c
+++ b/src/libscotch/hmesh_order_bl.c
@@ -62,45 +62,38 @@
 #include "hmesh_order_bl.h"
 #include "hmesh_order_st.h"
 
-/*****************************/
-/*                           */
-/* This is the main routine. */
-/*                           */
-/*****************************/
+/*********************************/
+/*                               */
+/* These are the block splitting */
+/* routines.                     */
+/*                               */
+/*********************************/
 
-/* This routine performs the ordering.
+/* This routine recursively splits the leaves
+** of the given column block tree node.
 ** It returns:
-** - 0   : if the ordering could be computed.
+** - 0   : if the splitting could be performed.
 ** - !0  : on error.
 */
 
+static
 int
-hmeshOrderBl (
-Hmesh * restrict const                    meshptr,
+hmeshOrderBl2 (
 Order * restrict const                    ordeptr,
-const Gnum                                ordenum, /*+ Zero-based ordering number +*/
-OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
-const HmeshOrderBlParam * restrict const  paraptr)
+OrderCblk * restrict const                cblkptr, /*+ Column block to split         +*/
+const Gnum                                cblkmin) /*+ Minimum size of column blocks +*/
 {
-  Gnum                cblknbr;                    /* Number of old column blocks before splitting */
-  Gnum                cblknum;                    /* Number of current column block               */
-
-  if (paraptr->cblkmin <= 0) {
-    errorPrint ("hmeshOrderBl: invalid minimum block size");
-    return (1);
-  }
-
-  if (hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
-    return (1);
+  Gnum                cblknbr;                    /* Number of column blocks for splitting */
+  Gnum                cblknum;                    /* Number of current column block        */
 
   if (cblkptr->cblktab == NULL) {                 /* If single column block    */
-    if (cblkptr->vnodnbr < (2 * paraptr->cblkmin)) /* If block cannot be split */
-	return (0);
+    if (cblkptr->vnodnbr < (2 * cblkmin)) /* If block cannot be split */
+      return (0);
 
-    cblknbr = cblkptr->vnodnbr / paraptr->cblkmin; /* Get new number of blocks */
+    cblknbr = cblkptr->vnodnbr / cblkmin; /* Get new number of blocks */
 
     if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblknbr * sizeof (OrderCblk))) == NULL) {
-      errorPrint ("hgraphOrderBl: out of memory");
+      errorPrint ("hmeshOrderBl2: out of memory");
       return (1);
     }
     cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
@@ -123,10 +116,41 @@ const HmeshOrderBlParam * restrict const  paraptr)
   }
   else {                                          /* Block already partitioned */
     for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hmeshOrderBl (meshptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
+      if (hmeshOrderBl2 (ordeptr, cblkptr->cblktab + cblknum, cblkmin) != 0)
         return (1);
     }
   }
 
   return (0);
 }
+
+/*****************************/
+/*                           */
+/* This is the main routine. */
+/*                           */
+/*****************************/
+
+/* This routine performs the ordering.
+** It returns:
+** - 0   : if the ordering could be computed.
+** - !0  : on error.
+*/
+
+int
+hmeshOrderBl (
+Hmesh * restrict const                    meshptr,
+Order * restrict const                    ordeptr,
+const Gnum                                ordenum, /*+ Zero-based ordering number +*/
+OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
+const HmeshOrderBlParam * restrict const  paraptr)
+{
+  if (paraptr->cblkmin <= 0) {
+    errorPrint ("hmeshOrderBl: invalid minimum block size");
+    return (1);
+  }
+
+  if (hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
+    return (1);
+
+  return (hmeshOrderBl2 (ordeptr, cblkptr, paraptr->cblkmin)); /* Split all column blocks */
+}
-- 
2.43.0


From e432a50f63db606727dfe5247333ec09214045ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 065/158] fix: meshCoarsen: do not coarsen when the contraction
 ratio is not met

---
 src/libscotch/mesh_coarsen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 1488b79..ce34cba 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -167,6 +167,13 @@ Context * restrict const      contptr)            /*+ Execution context
 
   meshCoarsenFuncTab[coartype] (finemeshptr, finemulttax, finecoartax, &coarvelmnbr, &coarvnodnbr, &coaredgenbr, contptr); /* Call proper matching function */
 
+  if (((double) coarvelmnbr > ((double) finemeshptr->velmnbr * coarrat)) || /* If coarse mesh not small enough, or not smaller at all */
+      (coarvelmnbr >= finemeshptr->velmnbr)) {
+    memFree (coarverttax);                        /* Free group leader */
+    memFree (finecoartax + finemeshptr->baseval);
+    return (1);
+  }
+
 #ifndef DEAD_CODE
   coarvnodnbr = finemeshptr->vnodnbr;             /* TODO : coarvnodnbr estimator is wrong : too tight */
   coaredgenbr = finemeshptr->edgenbr;
-- 
2.43.0


From ea3a94a84d83ee82f70bfded75bea094c70d13b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 066/158] fix: hmeshOrderHxFill: mark empty elements so that
 compression skips them

---
 src/libscotch/hmesh_order_hx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 8df97cf..b6b7699 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -176,8 +176,8 @@ Gnum * restrict const         pfreptr)
   for (velmnum = meshptr->m.velmbas; velmnum < meshptr->m.velmnnd; velmnum ++, vertnum ++) {
     Gnum                      eelmnum;
 
-    petax[vertnum]   = edgenum;
     lentax[vertnum]  = meshptr->m.vendtax[velmnum] - meshptr->m.verttax[velmnum];
+    petax[vertnum]   = (lentax[vertnum] != 0) ? edgenum : 0; /* Empty elements must be skipped by compression */
     elentax[vertnum] = - (n + 1);
     nvtax[vertnum]   = 1;                         /* Elements always have weight 1 */
 
-- 
2.43.0


From fb9a73e87ca1b22fb2530532f994b7d63815398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:01 +0000
Subject: [PATCH 067/158] fix: hgraphInduceList: do not read vertex numbers of
 halo vertices

---
 src/libscotch/hgraph_induce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_induce.c b/src/libscotch/hgraph_induce.c
index d0a1a16..1a953d9 100644
--- a/src/libscotch/hgraph_induce.c
+++ b/src/libscotch/hgraph_induce.c
@@ -215,7 +215,7 @@ Gnum * restrict const           indedgetab)       /* Pointer to pre-allocated sp
     const Gnum * restrict const orgvnumtax = orggrafptr->s.vnumtax;
     Gnum * restrict const indvnumtax       = indgrafptr->s.vnumtax;
 
-    for (indvertnum = indgrafptr->s.baseval; indvertnum < indgrafptr->s.vertnnd; indvertnum ++)
+    for (indvertnum = indgrafptr->s.baseval; indvertnum < indgrafptr->vnohnnd; indvertnum ++) /* Numbers of halo vertices may not be available */
       indvnumtax[indvertnum] = orgvnumtax[indvnumtax[indvertnum]];
   }
 
-- 
2.43.0


From a1eff6a6464ddf6bdb2367406212326ec8e17fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 068/158] fix: meshCoarsen: handle weighted meshes without
 elements

---
 src/libscotch/mesh_coarsen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index ce34cba..6b01085 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -432,7 +432,8 @@ Context * restrict const          contptr)
   coarvnodnbr = finemeshptr->vnodnbr;
   coaredgenbr = finemeshptr->edgenbr;
 
-  if (finemeshptr->velotax != NULL) {             /* If fine mesh has element coarsening vertex weights, perform first pass */
+  if ((finemeshptr->velotax != NULL) &&           /* If fine mesh has element coarsening vertex weights, perform first pass */
+      (finemeshptr->velmnbr > 0)) {               /* And has elements at all */
     Gnum                          finevelomin;
     Gnum                          finevelomax;
     Gnum                          finevelmnum;
@@ -455,7 +456,6 @@ Context * restrict const          contptr)
           finecoartax[finevelmnum] = coarvelmnum;
           finemulttax[coarvelmnum].finevelmnum[0] =
           finemulttax[coarvelmnum].finevelmnum[1] = finevelmnum;
-fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax[finevelmnum]); /* TODO REMOVE */
           coarvelmnum ++;                         /* One more single vertex created */
         }
         continue;
-- 
2.43.0


From 7c8a67bea89fdbcee161d249c69c02e6ff60e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 069/158] fix: graphGeomLoadScot/meshGeomLoadScot: follow
 documented labels, record dimension, accept extra coordinates

---
 src/libscotch/graph_io_scot.c | 15 +++++++++------
 src/libscotch/mesh_io_scot.c  | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index a0f385d..56d570d 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -105,7 +105,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("graphGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (grafptr->vertnbr != coornbr)) {
+  if (grafptr->vertnbr > coornbr) {
     errorPrint ("graphGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
@@ -113,14 +113,16 @@ const char * const          dataptr)              /* No use           */
   if (grafptr->vertnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL)) {
+  if (geomptr->geomtab != NULL)                   /* Replace any previous geometry */
+    memFree (geomptr->geomtab);
+  geomptr->dimnnbr = dimnnbr;
+  if ((geomptr->geomtab = (double *) memAlloc ((size_t) grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("graphGeomLoadScot: out of memory (1)");
     return     (1);
   }
 
   if (memAllocGroup ((void **)
-                     &coorfileptr, (size_t) (coornbr * dimnnbr * sizeof (double)),
+                     &coorfileptr, ((size_t) coornbr * dimnnbr * sizeof (double)),
                      &coorsorttab, (size_t) (coornbr           * sizeof (GraphGeomScotSort)),
                      &vertsorttab, (size_t) (grafptr->vertnbr  * sizeof (GraphGeomScotSort)), NULL) == NULL) {
     errorPrint ("graphGeomLoadScot: out of memory (2)");
@@ -180,9 +182,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vertsorttab, grafptr->vertnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++)
-      vertsorttab[vertnum].labl =
+    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
+      vertsorttab[vertnum].labl = vertnum + grafptr->baseval;
       vertsorttab[vertnum].num  = vertnum;
+    }
   }
 
   for (coornum = vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) { /* For all vertices in graph */
diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index 0a42b0a..5da8092 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -103,7 +103,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("meshGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (meshptr->vnodnbr != coornbr)) {
+  if (meshptr->vnodnbr > coornbr) {
     errorPrint ("meshGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
@@ -111,14 +111,16 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vnodnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL)) {
+  if (geomptr->geomtab != NULL)                   /* Replace any previous geometry */
+    memFree (geomptr->geomtab);
+  geomptr->dimnnbr = dimnnbr;
+  if ((geomptr->geomtab = (double *) memAlloc ((size_t) meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("meshGeomLoadScot: out of memory (1)");
     return     (1);
   }
 
   if (memAllocGroup ((void **)
-                     &coorfiletab, (size_t) (coornbr * dimnnbr * sizeof (double)),
+                     &coorfiletab, ((size_t) coornbr * dimnnbr * sizeof (double)),
                      &coorsorttab, (size_t) (coornbr           * sizeof (MeshGeomScotSort)),
                      &vnodsorttab, (size_t) (meshptr->vnodnbr  * sizeof (MeshGeomScotSort)), NULL) == NULL) {
     errorPrint ("meshGeomLoadScot: out of memory (2)");
@@ -166,7 +168,7 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vlbltax != NULL) {                 /* If graph has vertex labels */
     vnodsortflag = 1;                             /* Assume graph data sorted   */
     for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
-      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->baseval];
+      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->vnodbas];
       vnodsorttab[vnodnum].num  = vnodnum;
       if ((vnodnum > 0) &&                        /* Check if graph data sorted */
           (vnodsorttab[vnodnum].labl < vnodsorttab[vnodnum - 1].labl))
@@ -176,9 +178,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vnodsorttab, meshptr->vnodnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++)
-      vnodsorttab[vnodnum].labl =
+    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
+      vnodsorttab[vnodnum].labl = vnodnum + meshptr->vnodbas;
       vnodsorttab[vnodnum].num  = vnodnum;
+    }
   }
 
   for (coornum = vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) { /* For all vertices in graph */
-- 
2.43.0


From 0f70bce28f51691e32ab71297a6f68acf466224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 070/158] fix: graphGeomLoadChac: check edge count before
 storing edges

---
 src/libscotch/graph_io_chac.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 53c97ea..1678c3d 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -112,7 +112,9 @@ const char * const          dataptr)              /* No use           */
       (sscanf (chalinetab, "%ld%ld%ld",
                &chavertnbr,
                &chaedgenbr,
-               &chaflagval) < 2)) {
+               &chaflagval) < 2)                          ||
+      (chavertnbr < 0) || (chavertnbr >= GNUMMAX)         ||
+      (chaedgenbr < 0) || (chaedgenbr >= (GNUMMAX / 2))) {
     errorPrint ("graphGeomLoadChac: bad input (1)");
     return     (1);
   }
@@ -212,6 +214,11 @@ const char * const          dataptr)              /* No use           */
 
       ungetc (chabuffcar, filesrcptr);            /* Else put character back to stream */
 
+      if (edgenum > grafptr->edgenbr) {           /* Test edge array overflow */
+        errorPrint ("graphGeomLoadChac: bad input (5)");
+        graphFree  (grafptr);
+        return     (1);
+      }
       if ((intLoad (filesrcptr, &chavertnum) != 1) ||
           (chavertnum < 1)                         ||
           (chavertnum > chavertnbr)                ||
@@ -222,11 +229,6 @@ const char * const          dataptr)              /* No use           */
         graphFree  (grafptr);
         return     (1);
       }
-      if (edgenum > (grafptr->edgenbr + 1)) { /* Test edge array overflow */
-        errorPrint ("graphGeomLoadChac: bad input (5)");
-        graphFree  (grafptr);
-        return     (1);
-      }
       grafptr->edgetax[edgenum ++] = chavertnum;
     }
 
@@ -234,6 +236,11 @@ const char * const          dataptr)              /* No use           */
       degrmax = edgenum - grafptr->verttax[vertnum];
   }
   grafptr->verttax[vertnum] = edgenum;            /* Set end of based vertex array */
+  if (edgenum != (grafptr->edgenbr + 1)) {        /* Test that all edges were read */
+    errorPrint ("graphGeomLoadChac: bad input (6)");
+    graphFree  (grafptr);
+    return     (1);
+  }
   grafptr->velosum = velosum;
   grafptr->edlosum = edlosum;
   grafptr->degrmax = degrmax;
-- 
2.43.0


From 4b3c757b5ecef4805170895b73e267be20425601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 071/158] fix: graphGeomLoadMmkt: handle base values other than
 1

---
 src/libscotch/graph_io_mmkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index 2d89f68..3ebdc4c 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -224,7 +224,7 @@ const char * const          dataptr)              /* Fake base value  */
   edgetmp = edgenum - edgetmp;                    /* Compute degree and see if it is maximum degree */
   if (edgetmp > degrmax)
     degrmax = edgetmp;
-  while (vertnum < mrownbr)                       /* Fill gaps with isolated vertices and mark beginning of new one */
+  while (vertnum < (grafptr->vertnnd - 1))                       /* Fill gaps with isolated vertices and mark beginning of new one */
     grafptr->verttax[++ vertnum] = edgenum;
   grafptr->verttax[++ vertnum] = edgenum;         /* Mark end of array */
 
-- 
2.43.0


From 82ef482715be46a7a30ee66468568cd6c3558fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:29 +0000
Subject: [PATCH 072/158] fix: graphGeomLoadHabo: read repeat counts that
 follow skipped columns

---
 src/libscotch/graph_io_habo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index b961f0e..bfe0462 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -404,7 +404,7 @@ const char * const                  dataptr)      /* Format string       */
     for (charptr ++; *charptr != '\0'; charptr ++) {
       if (*charptr == '\0')                       /* Error if end of string */
         return (1);
-      if (! isdigit (*charptr < '0'))
+      if (! isdigit ((int) (unsigned char) *charptr))
         break;
       number = number * 10 + *charptr - '0';
     }
-- 
2.43.0


From 3755c8326a5880dac7820c1458b49df09a561487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:29 +0000
Subject: [PATCH 073/158] fix: graphGeomLoadHabo: reject indices out of range
 and truncated files

---
 src/libscotch/graph_io_habo.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index bfe0462..e00f5fe 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -184,6 +184,11 @@ const char * const          dataptr)              /* Tag value        */
     return (1);
   }
 
+  if ((habcolnbr < 0) || (habnzrnbr < 0)) {
+    errorPrint ("graphGeomLoadHabo: invalid matrix dimensions");
+    return (1);
+  }
+
   if (((grafptr->verttax = (Gnum *) memAlloc ((habcolnbr + 1) * sizeof (Gnum))) == NULL) ||
       (memAllocGroup ((void **) (void *)
                       &grafptr->edgetax, (size_t) (habnzrnbr * 2   * sizeof (Gnum)),
@@ -219,7 +224,7 @@ const char * const          dataptr)              /* Tag value        */
     if (habvalnum ++ >= habcolfmt.datanbr) {      /* If all useful data read from line */
       habvalnum = 1;                              /* Start at beginning of new line    */
 
-      while ((c != '\n') && (c != '\r'))          /* Eat up all remaining spaces */
+      while ((c != '\n') && (c != '\r') && (c != EOF))          /* Eat up all remaining spaces */
         c = getc (filesrcptr);
       while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
@@ -237,6 +242,12 @@ const char * const          dataptr)              /* Tag value        */
       graphFree  (grafptr);
       return (1);
     }
+    if ((habcolval < ((habcolnum > 0) ? habcoltab[habcolnum - 1] : 1)) || /* Column indices must be ascending and in range */
+        (habcolval > (habnzrnbr + 1))) {
+      errorPrint ("graphGeomLoadHabo: bad input (9)");
+      graphFree  (grafptr);
+      return (1);
+    }
     habcoltab[habcolnum] = habcolval;
   }
   if (habcoltab[habcolnbr] != (Gnum) habnzrnbr + 1) {
@@ -257,7 +268,7 @@ const char * const          dataptr)              /* Tag value        */
       if (habvalnum ++ >= habnzrfmt.datanbr) {    /* If all useful data read from line */
         habvalnum = 1;                            /* Start at beginning of new line    */
 
-        while ((c != '\n') && (c != '\r'))        /* Eat up all remaining spaces */
+        while ((c != '\n') && (c != '\r') && (c != EOF))        /* Eat up all remaining spaces */
           c = getc (filesrcptr);
         while (((c = getc (filesrcptr)) == '\n') || (c == '\r')) ; /* Read till end of line */
 
@@ -274,6 +285,11 @@ const char * const          dataptr)              /* Tag value        */
         graphFree  (grafptr);
         return (1);
       }
+      if ((habnzrval < 1) || (habnzrval > habcolnbr)) { /* Row indices must be in range */
+        errorPrint ("graphGeomLoadHabo: bad input (10)");
+        graphFree  (grafptr);
+        return (1);
+      }
       habnzrtab[habnzrnum] = habnzrval;
       if (habnzrval != vertnum) {                 /* If not loop edge      */
         grafptr->verttax[vertnum] ++;             /* Account for arc       */
-- 
2.43.0


From 6b1c35995c72e0f56160bf2e6ba231b32a41dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:37 +0000
Subject: [PATCH 074/158] fix: meshGeomLoadHabo: set the element load sum

---
 src/libscotch/mesh_io_habo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index daa7853..46bf9de 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -183,6 +183,7 @@ const char * const          dataptr)              /* No use           */
   meshptr->vnodnbr = habvarnbr;
   meshptr->vnodbas = 1;
   meshptr->vnodnnd = meshptr->velmbas;
+  meshptr->velosum = habeltnbr;
   meshptr->vnlosum = habvarnbr;
 
   for (velmnum = meshptr->velmbas; velmnum <= meshptr->velmnnd; velmnum ++) { /* Read ELTPTR as second part of vertex array */
-- 
2.43.0


From 24a2dd20a7f7b8c43b7f287a53e5472c05a78909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 075/158] fix: orderLoad: reject orderings that are not
 permutations of the graph vertices

---
 src/libscotch/order_io.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/order_io.c b/src/libscotch/order_io.c
index 0a98d2c..d869a46 100644
--- a/src/libscotch/order_io.c
+++ b/src/libscotch/order_io.c
@@ -81,6 +81,7 @@ const Gnum * restrict const vlbltax,
 FILE * restrict const       stream)
 {
   Gnum * restrict     permtab;
+  Gnum                vnodnbr;
   Gnum                vertnum;
 
   if (vlbltax != NULL) {
@@ -93,7 +94,8 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-  if (intLoad (stream, &ordeptr->vnodnbr) != 1) {
+  if ((intLoad (stream, &vnodnbr) != 1) ||        /* Ordering must match the graph for which it has been created */
+      (vnodnbr != ordeptr->vnodnbr)) {
     errorPrint ("orderLoad: bad input (1)");
     memFree    (permtab);
     return     (1);
@@ -117,7 +119,20 @@ FILE * restrict const       stream)
     }
   }
 
-  orderPeri (permtab, ordeptr->baseval, ordeptr->vnodnbr, ordeptr->peritab, ordeptr->baseval); /* Compute inverse permutation */
+  memSet (ordeptr->peritab, ~0, ordeptr->vnodnbr * sizeof (Gnum)); /* Check that loaded array is a permutation */
+  for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) {
+    Gnum                permnum;
+
+    permnum = permtab[vertnum] - ordeptr->baseval;
+    if ((permtab[vertnum] < ordeptr->baseval) ||
+        (permnum >= ordeptr->vnodnbr)         ||
+        (ordeptr->peritab[permnum] != ~0)) {
+      errorPrint ("orderLoad: bad input (4)");
+      memFree    (permtab);
+      return     (1);
+    }
+    ordeptr->peritab[permnum] = vertnum + ordeptr->baseval; /* Compute inverse permutation */
+  }
 
   memFree (permtab);
   return  (0);
-- 
2.43.0


From 10e1d4ac0a6baf3782e5a8e905cbe81e40f08cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 076/158] fix: meshFree: allow meshExit to be called after a
 failed operation

---
 src/libscotch/mesh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/mesh.c b/src/libscotch/mesh.c
index 3ca20db..b50e25e 100644
--- a/src/libscotch/mesh.c
+++ b/src/libscotch/mesh.c
@@ -135,6 +135,7 @@ Mesh * const                meshptr)
 #ifdef SCOTCH_DEBUG_MESH2
   memSet (meshptr, ~0, sizeof (Mesh));            /* Purge mesh fields */
 #endif /* SCOTCH_DEBUG_MESH2 */
+  meshptr->flagval = MESHNONE;                    /* Allow to double-call meshFree or call meshExit */
 }
 
 /* This routine sets the base of the given
-- 
2.43.0


From 56a342d022ac14c0d47deb4e7de366de0389de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 077/158] fix: graphLoad: reject invalid base, sizes and
 degrees, and handle memory shortage

---
 src/libscotch/graph_io.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 57da146..8a5bb65 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -137,12 +137,17 @@ const GraphFlag             flagval)              /* Graph loading flags
     errorPrint ("graphLoad: invalid number of edges");
     return (1);
   }
+  if ((baseadj < 0)                                               || /* If invalid base value or overflow of index values */
+      (grafptr->vertnbr > (GNUMMAX - 1 - MAX (baseadj, baseval))) ||
+      (grafptr->edgenbr > (GNUMMAX - 1 - MAX (baseadj, baseval)))) {
+    errorPrint ("graphLoad: invalid index range");
+    return (1);
+  }
   sprintf (proptab, "%3.3d", (int) propval);      /* Compute file properties */
   proptab[0] -= '0';                              /* Vertex labels flag      */
   proptab[1] -= '0';                              /* Edge weights flag       */
   proptab[2] -= '0';                              /* Vertex loads flag       */
 
-  grafptr->flagval = GRAPHFREETABS | GRAPHVERTGROUP | GRAPHEDGEGROUP;
   if (baseval == -1) {                            /* If keep file graph base     */
     grafptr->baseval = baseadj;                   /* Set graph base as file base */
     baseadj          = 0;                         /* No base adjustment needed   */
@@ -168,9 +173,9 @@ const GraphFlag             flagval)              /* Graph loading flags
     if (grafptr->verttax != NULL)
       memFree (grafptr->verttax);
     errorPrint ("graphLoad: out of memory");
-    graphFree  (grafptr);
-    return (1);
+    return (1);                                   /* No arrays to free as flags not yet set */
   }
+  grafptr->flagval  = GRAPHFREETABS | GRAPHVERTGROUP | GRAPHEDGEGROUP;
   grafptr->vertnnd  = grafptr->vertnbr + grafptr->baseval;
   grafptr->verttax -= grafptr->baseval;
   grafptr->vendtax  = grafptr->verttax + 1;       /* Use compact vertex array */
@@ -221,12 +226,13 @@ const GraphFlag             flagval)              /* Graph loading flags
       degrmax = degrval;
 
     grafptr->verttax[vertnum] = edgenum;          /* Set index in edge array */
-    degrval += edgenum;
-    if (degrval > edgennd) {                      /* Check if edge array overflows */
+    if ((degrval < 0) ||
+        (degrval > (edgennd - edgenum))) {        /* Check if edge array overflows */
       errorPrint ("graphLoad: invalid arc count (1)");
       graphFree  (grafptr);
       return (1);
     }
+    degrval += edgenum;
 
     for ( ; edgenum < degrval; edgenum ++) {
       if (proptab[1] != 0) {                      /* If must read edge load        */
-- 
2.43.0


From e6ab7c9ae9819d8e82cfa06941aa863e79f8b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 078/158] fix: graphLoad2: reject negative vertex labels and
 edge ends

---
 src/libscotch/graph_io.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 8a5bb65..98af7a3 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -298,13 +298,18 @@ const Gnum * const          vlbltax)
   Gnum                vertnum;                    /* Number of current vertex        */
   Gnum * restrict     indxtab;                    /* Vertex label/number index table */
 
-  if ((indxtab = (Gnum *) memAlloc ((vlblmax + 1) * sizeof (Gnum))) == NULL) {
+  if ((indxtab = (Gnum *) memAlloc (((size_t) vlblmax + 1) * sizeof (Gnum))) == NULL) {
     errorPrint  ("graphLoad2: out of memory");
     return (1);
   }
 
-  memSet (indxtab, ~0, (vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
+  memSet (indxtab, ~0, ((size_t) vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
   for (vertnum = baseval; vertnum < vertnnd; vertnum ++) {
+    if (vlbltax[vertnum] < 0) {                   /* If vertex label cannot be an index */
+      errorPrint  ("graphLoad2: invalid vertex label");
+      memFree     (indxtab);
+      return (1);
+    }
     if (indxtab[vlbltax[vertnum]] != ~0) {        /* If vertex label already used */
       errorPrint  ("graphLoad2: duplicate vertex label");
       memFree     (indxtab);
@@ -316,7 +321,8 @@ const Gnum * const          vlbltax)
     Gnum                edgenum;                  /* Number of current edge */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++) {
-      if (edgetax[edgenum] > vlblmax) {           /* If invalid edge end number */
+      if ((edgetax[edgenum] < 0) ||
+          (edgetax[edgenum] > vlblmax)) {         /* If invalid edge end number */
         errorPrint ("graphLoad2: invalid arc end number (1)");
         memFree    (indxtab);
         return (1);
-- 
2.43.0


From fe3b00f03dcf3c70c6b6b3dbb9fe658741c0a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 079/158] fix: meshLoad: reject invalid sizes, degrees, labels
 and edge ends, and handle memory shortage

---
 src/libscotch/mesh_io.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 182d01e..13e01d5 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -123,6 +123,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       (intLoad (stream, &propval)          != 1) ||
       (velmnbr < 0)                              ||
       (vnodnbr < 0)                              ||
+      (meshptr->edgenbr < 0)                     ||
       (velmbas < 0)                              ||
       (vnodbas < 0)                              ||
       (propval < 0)                              ||
@@ -138,6 +139,11 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   proptab[2] -= '0';                              /* Vertex loads flag       */
 
   baseadj = MIN (velmbas, vnodbas);               /* Get file graph base value   */
+  if ((velmnbr          > (GNUMMAX - 1 - MAX (baseadj, baseval) - vnodnbr)) || /* If overflow of index values */
+      (meshptr->edgenbr > (GNUMMAX - 1 - MAX (baseadj, baseval)))) {
+    errorPrint ("meshLoad: invalid index range");
+    return     (1);
+  }
   if (baseval == -1) {                            /* If keep file graph base     */
     meshptr->baseval = baseadj;                   /* Set graph base as file base */
     baseadj            = 0;                       /* No base adjustment needed   */
@@ -146,7 +152,6 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
     meshptr->baseval = baseval;                   /* Set wanted graph base */
     baseadj          = baseval - baseadj;         /* Update base adjust    */
   }
-  meshptr->flagval = MESHFREEVERT | MESHVERTGROUP; /* Edge array grouped with vertex array */
   meshptr->velmnbr = velmnbr;
   meshptr->velmbas = velmbas + baseadj;
   meshptr->velmnnd = velmnbr + (velmbas + baseadj);
@@ -164,9 +169,9 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       &meshptr->velotax, (size_t) ( velonbr          * sizeof (Gnum)), /* Allocate single array for both element and node vertices */
       &meshptr->edgetax, (size_t) ( meshptr->edgenbr * sizeof (Gnum)), NULL) == NULL) { /* Edge array grouped with vertex arrays   */
     errorPrint ("meshLoad: out of memory (1)");
-    meshFree   (meshptr);
-    return     (1);
+    return     (1);                               /* No arrays to free as flags not yet set */
   }
+  meshptr->flagval  = MESHFREEVERT | MESHVERTGROUP; /* Edge array grouped with vertex array */
   meshptr->verttax -= meshptr->baseval;
   meshptr->vendtax  = meshptr->verttax + 1;       /* Use compact vertex array */
   meshptr->velotax  = (velonbr != 0) ? (meshptr->velotax - meshptr->baseval) : NULL; /* Store based load array access in velotax */
@@ -249,12 +254,13 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
-      degrval += edgenum;
-      if (degrval > edgennd) {                    /* Check if edge array overflows */
+      if ((degrval < 0) ||
+          (degrval > (edgennd - edgenum))) {      /* Check if edge array overflows */
         errorPrint ("meshLoad: invalid arc count (1)");
         meshFree   (meshptr);
         return     (1);
       }
+      degrval += edgenum;
 
       for ( ; edgenum < degrval; edgenum ++) {
         if (proptab[1] != 0) {                    /* If must read edge load        */
@@ -302,6 +308,27 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
     Gnum                vertnum;
     int                 o;
 
+    if (vlblmax > ((GNUMMAX - 1) / 2)) {          /* If labels cannot be made distinct */
+      errorPrint ("meshLoad: vertex labels too large");
+      meshFree   (meshptr);
+      return     (1);
+    }
+    for (vertnum = meshptr->baseval; vertnum < vertnbr + meshptr->baseval; vertnum ++) { /* Check labels before they are shifted */
+      if (meshptr->vlbltax[vertnum] < 0) {
+        errorPrint ("meshLoad: invalid vertex label");
+        meshFree   (meshptr);
+        return     (1);
+      }
+    }
+    for (edgenum = meshptr->baseval; edgenum < edgennd; edgenum ++) {
+      if ((meshptr->edgetax[edgenum] < 0) ||
+          (meshptr->edgetax[edgenum] > vlblmax)) {
+        errorPrint ("meshLoad: invalid arc end number");
+        meshFree   (meshptr);
+        return     (1);
+      }
+    }
+
     for (edgenum = meshptr->baseval; edgenum < meshptr->verttax[vertbastab[1]]; edgenum ++)
       meshptr->edgetax[edgenum] += vlblmax + 1;   /* Elements and nodes may have similar labels */
     for (vertnum = vertbastab[1]; vertnum < vertnndtab[1]; vertnum ++)
-- 
2.43.0


From c0f1e43f4e31b6ea9ad12bea406814aa356198a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 080/158] fix: meshGeomLoadHabo: reject invalid sizes and
 indices, and free data on error

---
 src/libscotch/mesh_io_habo.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index 46bf9de..66a391f 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -161,6 +161,16 @@ const char * const          dataptr)              /* No use           */
     return     (1);
   }
 
+  if ((habeltnbr < 0) ||                          /* If invalid sizes or overflow of index values */
+      (habvarnbr < 0) ||
+      (habvixnbr < 0) ||
+      (habeltnbr > (GNUMMAX - 2 - habvarnbr)) ||
+      (habvixnbr > ((GNUMMAX - 2) / 2))) {
+    errorPrint ("meshGeomLoadHabo: invalid sizes");
+    return     (1);
+  }
+
+  meshptr->edgetax = NULL;
   if (((meshptr->verttax = (Gnum *) memAlloc ((habeltnbr + habvarnbr + 1) * sizeof (Gnum))) == NULL) ||
       ((meshptr->edgetax = (Gnum *) memAlloc (habvixnbr * 2               * sizeof (Gnum))) == NULL)) {
     errorPrint ("meshGeomLoadHabo: out of memory (1)");
@@ -201,12 +211,14 @@ const char * const          dataptr)              /* No use           */
       meshFree   (meshptr);
       return     (1);
     }
-#ifdef SCOTCH_DEBUG_MESH2
-    if ((habcolval < 1) || (habcolval > (habvixnbr + 1))) {
+    if ((habcolval < 1) || (habcolval > (habvixnbr + 1)) || /* Indices must be valid and ascending */
+        ((velmnum == meshptr->velmbas)                      ?
+         (habcolval != 1)                                   :
+         ((habcolval + habvixnbr) < meshptr->verttax[velmnum - 1]))) {
       errorPrint ("meshGeomLoadHabo: bad input (7)");
+      meshFree   (meshptr);
       return     (1);
     }
-#endif /* SCOTCH_DEBUG_MESH2 */
 
     meshptr->verttax[velmnum] = habcolval + habvixnbr;
   }
@@ -233,12 +245,11 @@ const char * const          dataptr)              /* No use           */
       meshFree   (meshptr);
       return     (1);
     }
-#ifdef SCOTCH_DEBUG_MESH2
     if ((habnodval < 1) || (habnodval > habvarnbr)) {
       errorPrint ("meshGeomLoadHabo: bad input (10)");
+      meshFree   (meshptr);
       return     (1);
     }
-#endif /* SCOTCH_DEBUG_MESH2 */
     meshptr->edgetax[edgenum] = habnodval;
     meshptr->verttax[habnodval] ++;
   }
@@ -298,6 +309,7 @@ const char * const          dataptr)              /* No use           */
 #ifdef SCOTCH_DEBUG_MESH2
   if (meshCheck (meshptr) != 0) {
     errorPrint ("meshGeomLoadHabo: inconsistent mesh data");
+    meshFree   (meshptr);
     return     (1);
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
-- 
2.43.0


From c2cc146eec39043f169c05477a0b2223dcd0985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 081/158] fix: stratParserParse: do not dereference NULL
 pointers on errors within strategy parameters

---
 src/libscotch/parser_yy.y | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index a9b236d..3379f0c 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -495,9 +495,13 @@ PARAMVAL      : VALCASE
               }
               | error
               {
-                errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
-                            penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
-                            (@1).libenum, (@1).cobenum, (@1).tebeptr);
+                if ((penvptr->straptr != NULL) && (penvptr->paraptr != NULL)) /* If error not within a strategy parameter */
+                  errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
+                              (@1).libenum, (@1).cobenum, (@1).tebeptr);
+                else
+                  errorPrint ("stratParserParse: invalid strategy parameter, line %d, column %d, before \"%s\"",
+                              (@1).libenum, (@1).cobenum, (@1).tebeptr);
                 YYABORT;
               }
               ;
-- 
2.43.0


From cba104bf0c4681763b5ed5be7ca09919520f65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:13 +0000
Subject: [PATCH 082/158] fix: graphGeomLoadChac: do not free arrays twice on
 memory shortage

---
 src/libscotch/graph_io_chac.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 1678c3d..ee5bdb9 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -145,8 +145,10 @@ const char * const          dataptr)              /* No use           */
       (memAllocGroup ((void **) (void *)
                       &grafptr->edgetax, (size_t) (grafptr->edgenbr * sizeof (Gnum)),
                       &grafptr->edlotax, (size_t) (edlosiz          * sizeof (Gnum)), NULL) == NULL)) {
-    if (grafptr->verttax != NULL)
+    if (grafptr->verttax != NULL) {
       memFree (grafptr->verttax);
+      grafptr->verttax = NULL;                    /* Array must not be freed again */
+    }
     errorPrint ("graphGeomLoadChac: out of memory");
     return     (1);
   }
-- 
2.43.0


From 50e8b87885a1f0013d1462163a24fd579988da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:13 +0000
Subject: [PATCH 083/158] fix: graphGeomLoadMmkt: reject invalid matrix
 dimensions

---
 src/libscotch/graph_io_mmkt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index 3ebdc4c..e596dd5 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -141,6 +141,11 @@ const char * const          dataptr)              /* Fake base value  */
     errorPrint ("graphGeomLoadMmkt: bad input (3)");
     return     (1);
   }
+  if ((mrownbr < 0) || (mrownbr > (GNUMMAX - 1 - ((baseval < 0) ? 0 : baseval))) || /* If invalid sizes or overflow of index values */
+      (linenbr < 0) || (linenbr > (GNUMMAX / 2))) {
+    errorPrint ("graphGeomLoadMmkt: invalid matrix dimensions");
+    return     (1);
+  }
   if (mrownbr != mcolnbr) {                       /* If not a square matrix */
     errorPrint ("graphGeomLoadMmkt: not a square matrix");
     return     (1);
@@ -165,7 +170,7 @@ const char * const          dataptr)              /* Fake base value  */
   grafptr->vnumtax  = NULL;
   grafptr->vlbltax  = NULL;
 
-  if ((sorttab = (GraphGeomMmktEdge *) memAlloc (2 * linenbr * sizeof (GraphGeomMmktEdge))) == NULL) { /* Twice the space for symmetric edges */
+  if ((sorttab = (GraphGeomMmktEdge *) memAlloc (2 * (size_t) linenbr * sizeof (GraphGeomMmktEdge))) == NULL) { /* Twice the space for symmetric edges */
     errorPrint ("graphGeomLoadMmkt: out of memory (2)");
     graphExit  (grafptr);
     return     (1);
-- 
2.43.0


From 0c63a0219c8171f7b59728f6c339e3c3995a7570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:13 +0000
Subject: [PATCH 084/158] fix: graphGeomLoadHabo: reject matrix dimensions that
 overflow

---
 src/libscotch/graph_io_habo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index e00f5fe..274486c 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -184,7 +184,8 @@ const char * const          dataptr)              /* Tag value        */
     return (1);
   }
 
-  if ((habcolnbr < 0) || (habnzrnbr < 0)) {
+  if ((habcolnbr < 0) || (habcolnbr > (GNUMMAX - 2)) ||
+      (habnzrnbr < 0) || (habnzrnbr > ((GNUMMAX - 2) / 2))) {
     errorPrint ("graphGeomLoadHabo: invalid matrix dimensions");
     return (1);
   }
-- 
2.43.0


From 0c9f0c881a597d0465f73b07fc7f93cde05a6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 085/158] fix: archDistArchLoad: reject distance graphs without
 sub-architecture

---
 src/libscotch/arch_dist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/arch_dist.c b/src/libscotch/arch_dist.c
index 2620b6c..488f1e6 100644
--- a/src/libscotch/arch_dist.c
+++ b/src/libscotch/arch_dist.c
@@ -95,6 +95,10 @@ FILE * restrict const       stream)
     errorPrint ("archDistArchLoad: bad input");
     return     (1);
   }
+  if (archptr->archptr == NULL) {                 /* Distance graphs do not own their sub-architecture */
+    errorPrint ("archDistArchLoad: no sub-architecture to load");
+    return     (1);
+  }
 
   return (archLoad (archptr->archptr, stream));   /* Load sub-architecture */
 }
-- 
2.43.0


From d9f4850667cee0e43c046f0ae861428b385eb89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 086/158] fix: archMeshXArchLoad: reject invalid number of
 dimensions

---
 src/libscotch/arch_mesh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index e9ca1d2..542780c 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -632,6 +632,7 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
+      (archptr->dimnnbr < 1)                       ||
       (archptr->dimnnbr > ARCHMESHDIMNMAX)) {
     errorPrint ("archMeshXArchLoad: bad input (1)");
     return     (1);
-- 
2.43.0


From 40cb8e58104f82e0d30f72944aa826bbf26b559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 087/158] fix: archCmpltwArchLoad: reject sizes and loads that
 overflow

---
 src/libscotch/arch_cmpltw.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index d4efe82..b4be8f8 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -230,7 +230,8 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((fscanf (stream, "%ld", &vertnbr) != 1) ||
-      (vertnbr < 1)) {
+      (vertnbr < 1)                           ||
+      (vertnbr > (long) ANUMMAX)) {
     errorPrint ("archCmpltwArchLoad: bad input (1)");
     return (1);
   }
@@ -245,7 +246,8 @@ FILE * restrict const       stream)
     Anum                veloval;
 
     if ((fscanf (stream, "%ld", &velotmp) != 1) ||
-        (velotmp < 1)) {
+        (velotmp < 1)                           ||
+        (velotmp > ((long) ANUMMAX - (long) velosum))) { /* If load too big or sum of loads overflows */
       errorPrint ("archCmpltwArchLoad: bad input (2)");
       memFree    (vecwtab);
       return (1);
-- 
2.43.0


From 21fc5adcc14b06ee8478f19373e6b538eb572f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 088/158] fix: archTleafArchLoad/archLtleafArchLoad: check
 sizes without reading out of bounds

---
 src/libscotch/arch_tleaf.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 39a8f3d..d25e52e 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -112,7 +112,9 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &archptr->levlnbr) != 1) {
+  if ((intLoad (stream, &archptr->levlnbr) != 1) ||
+      (archptr->levlnbr < 0)                     ||
+      (archptr->levlnbr > ((ANUMMAX - 1) / 2))) {
     errorPrint ("archTleafArchLoad: bad input (1)");
     return     (1);
   }
@@ -129,7 +131,8 @@ FILE * restrict const       stream)
     if ((intLoad (stream, &archptr->sizetab[levlnum]) != 1) ||
         (intLoad (stream, &archptr->linktab[levlnum]) != 1) ||
         (archptr->sizetab[levlnum] < 2)                     ||
-        (archptr->linktab[levlnum] < 1)) {
+        (archptr->linktab[levlnum] < 1)                     ||
+        (archptr->sizetab[levlnum] > (ANUMMAX / sizeval))) {
       errorPrint ("archTleafArchLoad: bad input (2)");
       return (1);
     }
@@ -694,9 +697,9 @@ FILE * restrict const       stream)
     Anum                levlnum;
     Anum                sizeval;
 
-    for (levlnum = archptr->levlnbr - 1, sizeval = archptr->sizetab[levlnum];
-         sizeval != archptr->permnbr; levlnum --, sizeval *= archptr->sizetab[levlnum]) {
-      if (levlnum < 0) {
+    for (levlnum = archptr->levlnbr, sizeval = 1;
+         sizeval != archptr->permnbr; sizeval *= archptr->sizetab[levlnum]) {
+      if (-- levlnum < 0) {
         errorPrint ("archLtleafArchLoad: permutation size does not match level boundaries");
         return     (1);
       }
-- 
2.43.0


From a45f71ba5a7d8da1cfd9f771b0ddba4d078a88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 089/158] fix: archDecoArchLoad: check sizes and report failure
 to build architecture

---
 src/libscotch/arch_deco.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index 07001b3..6a93b28 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -164,7 +164,7 @@ const Anum * const              termdisttab)      /*+ Terminal distance map
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  memSet (archptr->domdisttab, 0, termdommax * (termdommax - 1) * sizeof (Anum) / 2);
+  memSet (archptr->domdisttab, 0, ((termdommax * (termdommax - 1)) / 2) * sizeof (Anum));
                                                   /* Assume distance is not known   */
   for (i = 1, k = 0; i < termdomnbr; i ++) {      /* Read the terminal distance map */
     for (j = 0; j < i; j ++, k ++)
@@ -250,7 +250,8 @@ FILE * restrict const       stream)
   if ((intLoad (stream, &termdomnbr) != 1) ||     /* Proceed with type-0 and type-1 architectures */
       (intLoad (stream, &termdommax) != 1) ||
       (termdommax < termdomnbr)            ||
-      (termdomnbr < 1)) {
+      (termdomnbr < 1)                     ||
+      ((termdommax - 1) > (ANUMMAX / termdommax))) { /* Distance indices must not overflow */
     errorPrint ("archDecoArchLoad: bad input (2)");
     return     (1);
   }
@@ -294,9 +295,14 @@ FILE * restrict const       stream)
       termdisttab[i] = (Anum) termdistval;
     }
 
-    archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
+    i = archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
 
     memFree (termverttab);                        /* Free group leader */
+
+    if (i != 0) {
+      errorPrint ("archDecoArchLoad: cannot build architecture");
+      return     (1);
+    }
   }
   else {                                          /* If it is a compiled decomposition */
     if (memAllocGroup ((void **) (void *)
-- 
2.43.0


From eb8cb9cb3e83828e30c4ccf506d390b16eb34a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:54 +0000
Subject: [PATCH 090/158] fix: parserLocationUpdate: count white space only
 once in strategy strings

---
 src/libscotch/parser.c    | 2 +-
 src/libscotch/parser_ll.l | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index f7df8cc..3fb9a21 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -646,7 +646,7 @@ const char * const          textptr)
   locaptr->tebeptr = locaptr->teenptr;
 
   for (textidx = 0; textptr[textidx] != '\0'; textidx ++) {
-    if (*textptr == '\n') {
+    if (textptr[textidx] == '\n') {
       locaptr->coennum = 0;
       locaptr->liennum ++;
     }
diff --git a/src/libscotch/parser_ll.l b/src/libscotch/parser_ll.l
index d655669..9d483ba 100644
--- a/src/libscotch/parser_ll.l
+++ b/src/libscotch/parser_ll.l
@@ -160,9 +160,7 @@ STRING                      \"[^\"]*\"
                               return (PARAMNAME);
                             }
 
-[ \t\n]*                    {
-                              parserLocationUpdate (yylloc, yytext); /* Update position without returning */
-                            }
+[ \t\n]+                    ;                        /* Position is updated by YY_USER_ACTION */
 .                           return (yytext[0]);
 
 %%
-- 
2.43.0


From 0a3e86463b2eaaf9bd30cfe9e54fb2559b54ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:14 +0000
Subject: [PATCH 091/158] fix: archTleafMatchInit: handle trees without levels

---
 src/libscotch/arch_tleaf.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index d25e52e..af3e453 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -238,14 +238,16 @@ const ArchTleaf * restrict const   archptr)
   Anum                vertnbr;                    /* Number of vertices in architecture */
   Anum                levlnnd;
   Anum                levlnum;
+  Anum                levlsiz;
 
   const Anum * restrict const sizetab = archptr->sizetab;
 
   for (levlnum = 0, levlnnd = archptr->levlnbr - 1, vertnbr = 1; /* Compute size of blocks save for last level */
        levlnum < levlnnd; levlnum ++)
     vertnbr *= sizetab[levlnum];
-  multnbr  = vertnbr * ((sizetab[levlnum] + 1) >> 1); /* Number of multinodes will account for half the number of vertices in last level */
-  vertnbr *= sizetab[levlnum];
+  levlsiz  = (levlnnd >= 0) ? sizetab[levlnnd] : 1; /* Tree without levels is a single leaf */
+  multnbr  = vertnbr * ((levlsiz + 1) >> 1);      /* Number of multinodes will account for half the number of vertices in last level */
+  vertnbr *= levlsiz;
 
   if ((matcptr->multtab = memAlloc (multnbr * sizeof (ArchCoarsenMulti))) == NULL) {
     errorPrint ("archTleafMatchInit: out of memory");
@@ -255,7 +257,7 @@ const ArchTleaf * restrict const   archptr)
   matcptr->archptr = archptr;
   matcptr->passnum = 0;
   matcptr->levlnum = levlnnd;
-  matcptr->levlsiz = sizetab[levlnnd];
+  matcptr->levlsiz = levlsiz;
   matcptr->vertnbr = vertnbr;
 
   return (0);
-- 
2.43.0


From c70cf2fc4ff1a345d4578ebe3bc896fd090d7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 092/158] fix: stratParserParse: use empty strategy for
 strategy parameters that are not set

---
 src/libscotch/parser_yy.y | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index 3379f0c..50341b8 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -323,11 +323,16 @@ STRATMETHOD   : METHODNAME
                 for (paraidx = 0; paratab[paraidx].nameptr != NULL; paraidx ++) {
                   if ((paratab[paraidx].methnum == penvptr->straptr->data.methdat.methnum) && /* If a strategy parameter found for this method */
                       (paratab[paraidx].typeval == STRATPARAMSTRAT)) {
-                    if (*((Strat **) ((byte *) &penvptr->straptr->data.methdat.datadat + /* And this parameter has not been set */
-                        (paratab[paraidx].doffptr - paratab[paraidx].dbasptr))) == NULL)
+                    Strat **            paraptr;
+
+                    paraptr = (Strat **) ((byte *) &penvptr->straptr->data.methdat.datadat +
+                                          (paratab[paraidx].doffptr - paratab[paraidx].dbasptr));
+                    if (*paraptr == NULL) {       /* And this parameter has not been set  */
+                      *paraptr = &stratdummy;     /* Use empty strategy instead           */
                       errorPrintW ("stratParserParse: strategy parameter \"%s\" of method \"%s\" not set, line %d, column %d, before \"%s\"",
                                    paratab[paraidx].nameptr, penvptr->stratab->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
                                    (@2).libenum, (@2).cobenum, (@2).tebeptr);
+                    }
                   }
                 }
 
-- 
2.43.0


From aaff759e964bd4058e82fdc02fc36c231ae9ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 093/158] fix: stratParserParse: reject parameters without
 values

---
 src/libscotch/parser_yy.y | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index 50341b8..011ce3d 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -486,6 +486,12 @@ PARAMVAL      : VALCASE
                 penvptr->straptr = ($<SAVE>1).strat; /* Restore current method    */
                 penvptr->paraptr = ($<SAVE>1).param; /* Restore current parameter */
 
+                if ((penvptr->paraptr->typeval & ~STRATPARAMDEPRECATED) != STRATPARAMSTRAT) { /* Empty value of another type was taken as empty strategy */
+                  errorPrint ("stratParserParse: no value for parameter \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, (@2).libenum, (@2).cobenum, (@2).tebeptr);
+                  stratExit  ($2);
+                  YYABORT;
+                }
                 if ((penvptr->paraptr->typeval & STRATPARAMDEPRECATED) == 0) { /* If parameter is not deprecated */
 #ifdef SCOTCH_DEBUG_PARSER2
                   if (((penvptr->paraptr->doffptr - penvptr->paraptr->dbasptr) + sizeof (Strat *)) > sizeof (StratNodeMethodData)) {
-- 
2.43.0


From 63fcb63884a42a4c3ad6027897a5860490a3b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:00 +0000
Subject: [PATCH 094/158] fix: stratTestSave: put parentheses around operands
 of lower precedence, not the opposite

---
 src/libscotch/parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index 3fb9a21..c9fedad 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -549,7 +549,7 @@ StratTest * const           testptr)
 */
 
 static char                 strattestsaveop[STRATTESTNBR] = "|&!=><+-*%##";
-static char *               strattestsavepa[2][2] = { { "(", ")" }, { "", "" } };
+static char *               strattestsavepa[2][2] = { { "", "" }, { "(", ")" } };
 
 int
 stratTestSave (
@@ -589,9 +589,10 @@ FILE * const                stream)
       fprintf (stream, "%s", strattestsavepa[i][1]);
       if (o == 0) {
         fprintf (stream, "%c", strattestsaveop[testptr->testval]);
-        i = (testptr->data.testtab[1]->testval < testptr->testval) ? 1 : 0;
+        i = ((testptr->data.testtab[1]->testval < testptr->testval) || /* Arithmetic operators are left-associative */
+             ((testptr->testval >= STRATTESTADD) && (testptr->data.testtab[1]->testval < STRATTESTVAL))) ? 1 : 0;
         fprintf (stream, "%s", strattestsavepa[i][0]);
-        stratTestSave (testptr->data.testtab[1], stream);
+        o = stratTestSave (testptr->data.testtab[1], stream);
         fprintf (stream, "%s", strattestsavepa[i][1]);
       }
       break;
-- 
2.43.0


From 643ebad79600f860317f9230838feea420d17f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 095/158] fix: hgraphOrderSt, hmeshOrderSt, hdgraphOrderSt:
 maximum degree is an integer

---
 src/libscotch/hdgraph_order_st.c | 2 +-
 src/libscotch/hgraph_order_st.c  | 2 +-
 src/libscotch/hmesh_order_st.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_st.c b/src/libscotch/hdgraph_order_st.c
index e481b28..eebd06b 100644
--- a/src/libscotch/hdgraph_order_st.c
+++ b/src/libscotch/hdgraph_order_st.c
@@ -128,7 +128,7 @@ static StratParamTab        hdgraphorderstcondtab[] = { /* Graph condition param
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.veloglbsum,
                                 NULL },
-                              { STRATNODECOND,         STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,         STRATPARAMINT,    "mdeg",
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.degrglbmax,
                                 NULL },
diff --git a/src/libscotch/hgraph_order_st.c b/src/libscotch/hgraph_order_st.c
index 146d3c9..1692ca6 100644
--- a/src/libscotch/hgraph_order_st.c
+++ b/src/libscotch/hgraph_order_st.c
@@ -228,7 +228,7 @@ static StratParamTab        hgraphorderstcondtab[] = { /* Graph condition parame
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.vnlosum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.s.degrmax,
                                 NULL },
diff --git a/src/libscotch/hmesh_order_st.c b/src/libscotch/hmesh_order_st.c
index b7dd2db..906491c 100644
--- a/src/libscotch/hmesh_order_st.c
+++ b/src/libscotch/hmesh_order_st.c
@@ -204,7 +204,7 @@ static StratParamTab        hmeshorderstcondtab[] = { /* Mesh condition paramete
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.vnhlsum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.m.degrmax,
                                 NULL },
-- 
2.43.0


From 268f7356b2bf2e356191cd56a968edc39f03b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 096/158] fix: stratTestEval: return an error on modulus by
 zero

---
 src/libscotch/parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index c9fedad..8362ace 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -424,8 +424,14 @@ const void * restrict const       dataptr)        /*+ Pointer to data structure
         break;
       if (testtab[0].nodeval == STRATPARAMDOUBLE)
         evalptr->data.val.valdbl = fmod (testtab[0].data.val.valdbl, testtab[1].data.val.valdbl);
-      else
+      else {
+        if (testtab[1].data.val.valint == 0) {
+          errorPrint ("stratTestEval: modulus by zero");
+          o = 1;
+          break;
+        }
         evalptr->data.val.valint = testtab[0].data.val.valint % testtab[1].data.val.valint;
+      }
       evalptr->nodeval = testtab[0].nodeval;
       break;
     case STRATTESTVAL :                           /* Constant value */
-- 
2.43.0


From 05cee79bafb1e8b3ae8728f8bba03332167d891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 097/158] fix: SCOTCH_contextOptionSetNum: select the option by
 its number, not by its value

---
 src/libscotch/library_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_context.c b/src/libscotch/library_context.c
index 09b6c79..9939c61 100644
--- a/src/libscotch/library_context.c
+++ b/src/libscotch/library_context.c
@@ -303,7 +303,7 @@ const SCOTCH_Num            optival)
   optitmp = optival;                              /* Set working value */
   o = 0;                                          /* Assume no error   */
 
-  switch (optival) {
+  switch (optinum) {
     case CONTEXTOPTIONNUMRANDOMFIXEDSEED :
       if (optitmp != 0)
         optitmp = 1;                              /* Only two values available */
-- 
2.43.0


From ba024d73686ca65f13cfcb52eb85941e1fd05100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 098/158] fix: intRandReset: give distinct sequences to
 distinct instance numbers

---
 src/libscotch/common_integer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/common_integer.c b/src/libscotch/common_integer.c
index 8dd059d..7b5edf2 100644
--- a/src/libscotch/common_integer.c
+++ b/src/libscotch/common_integer.c
@@ -243,7 +243,7 @@ IntRandContext * const      randptr)
 
   randptr->flagval = 1;                           /* Generator has been initialized */
 
-  randval = (INT) ((((UINT64) randptr->seedval) | 1) * (((UINT64) randptr->procval) + 1)); /* Account for process index */
+  randval = (INT) ((((UINT64) randptr->seedval) | 1) * (((UINT64) randptr->procval) * 2 + 1)); /* Account for process index; odd factor so as not to be altered by intRandSeed2() */
   intRandSeed2 (&randptr->statdat, randval);      /* Initialize state vector from random seed                           */
 }
 
-- 
2.43.0


From 41837bdfddac2b26f01e59db1ab494e0eb404105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 099/158] fix: mesh context containers: build the context
 binding routines and honour bound meshes

---
 src/libscotch/CMakeLists.txt         |  2 ++
 src/libscotch/library_mesh.c         | 18 ++++++++++--------
 src/libscotch/library_mesh_graph.c   |  5 +++--
 src/libscotch/library_mesh_io_habo.c |  3 ++-
 src/libscotch/library_mesh_io_scot.c |  5 +++--
 src/libscotch/library_mesh_order.c   |  8 ++++----
 6 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/libscotch/CMakeLists.txt b/src/libscotch/CMakeLists.txt
index 806c641..24ba20d 100644
--- a/src/libscotch/CMakeLists.txt
+++ b/src/libscotch/CMakeLists.txt
@@ -358,6 +358,8 @@ set(SCOTCH_C_SOURCES
   library_context.c
   library_context_graph.c
   library_context_graph_f.c
+  library_context_mesh.c
+  library_context_mesh_f.c
   library_context_f.c
   #library_errcom.c
   #library_error.c
diff --git a/src/libscotch/library_mesh.c b/src/libscotch/library_mesh.c
index c36256e..a7bcb1e 100644
--- a/src/libscotch/library_mesh.c
+++ b/src/libscotch/library_mesh.c
@@ -58,6 +58,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "graph.h"
 #include "mesh.h"
 #include "scotch.h"
@@ -129,7 +130,8 @@ void
 SCOTCH_meshExit (
 SCOTCH_Mesh * const         meshptr)
 {
-  meshExit ((Mesh *) meshptr);
+  if (! contextContainerTrue (meshptr))
+    meshExit ((Mesh *) meshptr);
 }
 
 /*+ This routine loads the given opaque mesh
@@ -154,7 +156,7 @@ const SCOTCH_Num            baseval)
     return     (1);
   }
 
-  return (meshLoad ((Mesh * const) meshptr, stream, (Gnum) baseval));
+  return (meshLoad ((Mesh * const) CONTEXTOBJECT (meshptr), stream, (Gnum) baseval));
 }
 
 /*+ This routine saves the contents of the given
@@ -169,7 +171,7 @@ SCOTCH_meshSave (
 const SCOTCH_Mesh * const   meshptr,
 FILE * const                stream)
 {
-  return (meshSave ((const Mesh * const) meshptr, stream));
+  return (meshSave ((const Mesh * const) CONTEXTOBJECT (meshptr), stream));
 }
 
 /*+ This routine fills the contents of the given
@@ -219,7 +221,7 @@ const SCOTCH_Num * const    edgetab)              /* Edge array [edgenbr]
     return     (1);
   }
 
-  srcmeshptr = (Mesh *) meshptr;                  /* Use structure as source mesh */
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);  /* Use structure as source mesh */
 
   srcmeshptr->flagval = MESHNONE;
   srcmeshptr->baseval = MIN (velmbas, vnodbas);
@@ -304,7 +306,7 @@ int
 SCOTCH_meshCheck (
 const SCOTCH_Mesh * const   meshptr)
 {
-  return (meshCheck ((const Mesh * const) meshptr));
+  return (meshCheck ((const Mesh * const) CONTEXTOBJECT (meshptr)));
 }
 
 /*+ This routine accesses mesh size data.
@@ -323,7 +325,7 @@ SCOTCH_Num * const          edgenbr)
 {
   const Mesh *        srcmeshptr;
 
-  srcmeshptr = (Mesh *) meshptr;
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);
 
   if (velmnbr != NULL)
     *velmnbr = (SCOTCH_Num) srcmeshptr->velmnbr;
@@ -359,7 +361,7 @@ SCOTCH_Num * const          degrnbr)              /* Maximum degree            *
 {
   const Mesh *       srcmeshptr;                  /* Pointer to source mesh structure */
 
-  srcmeshptr = (const Mesh *) meshptr;
+  srcmeshptr = (const Mesh *) CONTEXTOBJECT (meshptr);
 
   if (velmnbr != NULL)
     *velmnbr = srcmeshptr->velmnbr;
@@ -420,7 +422,7 @@ double * const              ndegdltptr)
   double                degravg;
   double                degrdlt;
 
-  srcmeshptr = (Mesh *) meshptr;
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);
 
   vnlodlt = 0.0L;
   if (srcmeshptr->vnodnbr > 0) {
diff --git a/src/libscotch/library_mesh_graph.c b/src/libscotch/library_mesh_graph.c
index e09c63b..c4a8683 100644
--- a/src/libscotch/library_mesh_graph.c
+++ b/src/libscotch/library_mesh_graph.c
@@ -54,6 +54,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "graph.h"
 #include "mesh.h"
 #include "scotch.h"
@@ -77,7 +78,7 @@ SCOTCH_meshGraph (
 const SCOTCH_Mesh * restrict const  meshptr,
 SCOTCH_Graph * restrict const       grafptr)
 {
-  return (meshGraph ((Mesh *) meshptr, (Graph *) grafptr));
+  return (meshGraph ((Mesh *) CONTEXTOBJECT (meshptr), (Graph *) grafptr));
 }
 
 /*+ This routine builds an opaque dual graph structure
@@ -94,5 +95,5 @@ const SCOTCH_Mesh * restrict const  meshptr,
 SCOTCH_Graph * restrict const       grafptr,
 const SCOTCH_Num                    ncommon)
 {
-  return (meshGraphDual ((Mesh *) meshptr, (Graph *) grafptr, ncommon));
+  return (meshGraphDual ((Mesh *) CONTEXTOBJECT (meshptr), (Graph *) grafptr, ncommon));
 }
diff --git a/src/libscotch/library_mesh_io_habo.c b/src/libscotch/library_mesh_io_habo.c
index 8261ff0..ff84469 100644
--- a/src/libscotch/library_mesh_io_habo.c
+++ b/src/libscotch/library_mesh_io_habo.c
@@ -52,6 +52,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "geom.h"
 #include "graph.h"
 #include "mesh.h"
@@ -79,5 +80,5 @@ FILE * const                  filesrcptr,
 FILE * const                  filegeoptr,
 const char * const            dataptr)            /* No use */
 {
-  return (meshGeomLoadHabo ((Mesh *) meshptr, (Geom *) geomptr, filesrcptr, filegeoptr, dataptr));
+  return (meshGeomLoadHabo ((Mesh *) CONTEXTOBJECT (meshptr), (Geom *) geomptr, filesrcptr, filegeoptr, dataptr));
 }
diff --git a/src/libscotch/library_mesh_io_scot.c b/src/libscotch/library_mesh_io_scot.c
index 997890b..4d1dd8f 100644
--- a/src/libscotch/library_mesh_io_scot.c
+++ b/src/libscotch/library_mesh_io_scot.c
@@ -52,6 +52,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "geom.h"
 #include "graph.h"
 #include "mesh.h"
@@ -79,7 +80,7 @@ FILE * const                  filesrcptr,
 FILE * const                  filegeoptr,
 const char * const            dataptr)            /* No use */
 {
-  return (meshGeomLoadScot ((Mesh *) meshptr, (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
+  return (meshGeomLoadScot ((Mesh *) CONTEXTOBJECT (meshptr), (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
 }
 
 /*+ This routine saves the contents of the given
@@ -97,5 +98,5 @@ FILE * const                        filesrcptr,
 FILE * const                        filegeoptr,
 const char * const                  dataptr)      /* No use */
 {
-  return (meshGeomSaveScot ((Mesh *) meshptr, (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
+  return (meshGeomSaveScot ((Mesh *) CONTEXTOBJECT (meshptr), (Geom *) geomptr, filesrcptr, filegeoptr, NULL));
 }
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 3752a36..e4c90f9 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -107,7 +107,7 @@ SCOTCH_Num * const          treetab)              /*+ Separator tree array
   }
 #endif /* SCOTCH_DEBUG_LIBRARY1 */
 
-  srcmeshptr = (Mesh *) meshptr;                  /* Use structure as source mesh */
+  srcmeshptr = (Mesh *) CONTEXTOBJECT (meshptr);  /* Use structure as source mesh */
   libordeptr = (LibOrder *) ordeptr;
   libordeptr->permtab = ((permtab == NULL) || ((void *) permtab == (void *) meshptr)) ? NULL : (Gnum *) permtab;
   libordeptr->peritab = ((peritab == NULL) || ((void *) peritab == (void *) meshptr)) ? NULL : (Gnum *) peritab;
@@ -144,7 +144,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine saves the mapping data
@@ -161,7 +161,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine saves to the given stream
@@ -178,7 +178,7 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) CONTEXTOBJECT (meshptr))->vlbltax, stream));
 }
 
 /*+ This routine computes an ordering
-- 
2.43.0


From 897021b4c5cec8df91a988cbbe84fa3721476fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 100/158] fix: kgraphMapRbPart2, wgraphPartRb2: do not let
 results depend on scheduling when determinism is requested

---
 src/libscotch/kgraph_map_rb_part.c | 8 +++++++-
 src/libscotch/wgraph_part_rb.c     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/kgraph_map_rb_part.c b/src/libscotch/kgraph_map_rb_part.c
index 5dc7392..5e37e82 100644
--- a/src/libscotch/kgraph_map_rb_part.c
+++ b/src/libscotch/kgraph_map_rb_part.c
@@ -69,6 +69,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "parser.h"
 #include "graph.h"
 #include "arch.h"
@@ -216,6 +217,9 @@ KgraphMapRbPartSplit * const  spltptr)
   KgraphMapRbPartSplit  spltdat;                  /* Parameters for context splitting            */
   int                   avarval;                  /* Flag set if variable-sized                  */
   GraphPart             partval;
+#ifndef KGRAPHMAPRBPARTNOTHREAD
+  Gnum                  deteval;                    /* Flag set if deterministic behavior          */
+#endif /* KGRAPHMAPRBPARTNOTHREAD */
   int                   o;
 
   Mapping * restrict const          mappptr    = spltptr->dataptr->mappptr;
@@ -313,7 +317,9 @@ KgraphMapRbPartSplit * const  spltptr)
   spltdat.revaptr = &o;
 
 #ifndef KGRAPHMAPRBPARTNOTHREAD
-  if (contextThreadLaunchSplit (contptr, (ContextSplitFunc) kgraphMapRbPart2, &spltdat) != 0) /* If counld not split context to run concurrently */
+  contextValuesGetInt (contptr, CONTEXTOPTIONNUMDETERMINISTIC, &deteval);
+  if ((deteval != 0) ||                           /* If order of domain numbers must not depend on scheduling */
+      (contextThreadLaunchSplit (contptr, (ContextSplitFunc) kgraphMapRbPart2, &spltdat) != 0)) /* Or if could not split context to run concurrently */
 #endif /* KGRAPHMAPRBPARTNOTHREAD */
   {
     kgraphMapRbPart2 (contptr, 0, &spltdat);      /* Run tasks in sequence */
diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 42e886f..4b0cf0e 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -60,6 +60,7 @@
 
 #include "module.h"
 #include "common.h"
+#include "context.h"
 #include "parser.h"
 #include "graph.h"
 #include "arch.h"
@@ -282,6 +283,9 @@ const WgraphPartRbSplit * const spltptr)
   Vgraph              actgrafdat;
   WgraphPartRbSplit   spltdat;
   int                 partval;
+#ifndef WGRAPHPARTRBNOTHREAD
+  Gnum                deteval;                    /* Flag set if deterministic behavior          */
+#endif /* WGRAPHPARTRBNOTHREAD */
   int                 o;
 
   WgraphPartRbData * restrict const dataptr = spltptr->dataptr;
@@ -374,7 +378,9 @@ const WgraphPartRbSplit * const spltptr)
   spltdat.parttax = actgrafdat.parttax;
 
 #ifndef WGRAPHPARTRBNOTHREAD
-  if (contextThreadLaunchSplit (contptr, (ContextSplitFunc) wgraphPartRb2, &spltdat) != 0) /* If counld not split context to run concurrently */
+  contextValuesGetInt (contptr, CONTEXTOPTIONNUMDETERMINISTIC, &deteval);
+  if ((deteval != 0) ||                           /* If order of frontier vertices must not depend on scheduling */
+      (contextThreadLaunchSplit (contptr, (ContextSplitFunc) wgraphPartRb2, &spltdat) != 0)) /* Or if could not split context to run concurrently */
 #endif /* WGRAPHPARTRBNOTHREAD */
   {
     wgraphPartRb2 (contptr, 0, &spltdat);         /* Run tasks in sequence */
-- 
2.43.0


From 85fe8be5b3b3f4c7921a31858598ad18a4e82d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:05 +0000
Subject: [PATCH 101/158] fix: archDecoArchBuild: free initial job when not
 processed, and handle empty job pools

---
 src/libscotch/arch_build.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index b82f815..0aaad93 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -95,11 +95,8 @@ ArchDecoBuildJob * const    jobtab)
 {
   ArchDecoBuildJob *      jobptr;
 
-  jobptr = jobtab;
-  do {
+  for (jobptr = jobtab; jobptr != NULL; jobptr = jobptr->joblink) /* Job pool may be empty */
     graphExit (&jobptr->grafdat);
-    jobptr = jobptr->joblink;
-  } while (jobptr != NULL);
 }
 
 /********************************************/
@@ -223,6 +220,8 @@ Context * const             contptr)              /*+ Execution context
     jobtab[0].joblink = joblink;                  /* Add initial job to list        */
     joblink = &jobtab[0];
   }
+  else                                            /* Initial job will not be processed */
+    graphExit (&jobtab[0].grafdat);               /* Free its graph if it was induced  */
   while (joblink != NULL) {                       /* For all jobs in list */
     joborgptr          = joblink;                 /* Get job              */
     joblink            = joblink->joblink;        /* Remove job from list */
-- 
2.43.0


From 2c20752a0c12f526b90f995edd6afe1b9cf69ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 102/158] fix: stratParserParse: free pending strategies and
 conditions on error, and replaced strategy parameters

---
 src/libscotch/parser_yy.y | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index 011ce3d..3dae05e 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -150,6 +150,11 @@ YY_BUFFER_STATE scotchyy_scan_string (const char *, yyscan_t);
 %type <INTEGER>      VALSINT
 %type <STRAT>        STRATCONCAT   STRATTEST     STRATTESTELSE STRATEMPTY
 %type <STRAT>        STRATGROUP    STRATMETHOD   STRATSELECT
+%type <SAVE>         PARAMSTRAT
+
+%destructor { stratExit     (($$)); }       <STRAT> /* Free pending data on error */
+%destructor { stratTestExit (($$)); }       <TEST>
+%destructor { stratExit     (($$).strat); } PARAMSTRAT
 
 %start STRAT
 
@@ -474,17 +479,10 @@ PARAMVAL      : VALCASE
                           ($1));
                 }
               }
-              |
-              {
-                ($<SAVE>$).strat = penvptr->straptr;
-                ($<SAVE>$).param = penvptr->paraptr;
-                penvptr->straptr = NULL;
-                penvptr->paraptr = NULL;
-              }
-                STRATSELECT
+              | PARAMSTRAT STRATSELECT
               {
-                penvptr->straptr = ($<SAVE>1).strat; /* Restore current method    */
-                penvptr->paraptr = ($<SAVE>1).param; /* Restore current parameter */
+                penvptr->straptr = ($1).strat;    /* Restore current method    */
+                penvptr->paraptr = ($1).param;    /* Restore current parameter */
 
                 if ((penvptr->paraptr->typeval & ~STRATPARAMDEPRECATED) != STRATPARAMSTRAT) { /* Empty value of another type was taken as empty strategy */
                   errorPrint ("stratParserParse: no value for parameter \"%s\", line %d, column %d, before \"%s\"",
@@ -496,13 +494,18 @@ PARAMVAL      : VALCASE
 #ifdef SCOTCH_DEBUG_PARSER2
                   if (((penvptr->paraptr->doffptr - penvptr->paraptr->dbasptr) + sizeof (Strat *)) > sizeof (StratNodeMethodData)) {
                     errorPrint ("stratParserParse: internal error (5)");
+                    stratExit  ($2);
                     YYABORT;
                   }
 #endif /* SCOTCH_DEBUG_PARSER2 */
 
+                  stratExit (*((Strat **) ((byte *) &penvptr->straptr->data.methdat.datadat + /* Free previous value if parameter already set */
+                                           (penvptr->paraptr->doffptr - penvptr->paraptr->dbasptr))));
                   *((Strat **) ((byte *) &penvptr->straptr->data.methdat.datadat +
                                 (penvptr->paraptr->doffptr - penvptr->paraptr->dbasptr))) = ($2);
                 }
+                else                              /* Value of deprecated parameter is not used */
+                  stratExit ($2);
               }
               | error
               {
@@ -517,6 +520,15 @@ PARAMVAL      : VALCASE
               }
               ;
 
+PARAMSTRAT    :
+              {
+                ($$).strat = penvptr->straptr;    /* Save current method    */
+                ($$).param = penvptr->paraptr;    /* Save current parameter */
+                penvptr->straptr = NULL;
+                penvptr->paraptr = NULL;
+              }
+              ;
+
 TEST          : TESTOR
               ;
 
-- 
2.43.0


From ba8ebecd8b5343134dac5c24a57cf9f9a13fa371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:58 +0000
Subject: [PATCH 103/158] fix: archSubArchBuild: leave nothing to free, and
 free all arrays, on error

---
 src/libscotch/arch_sub.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 3b3a258..26e50e4 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -384,6 +384,8 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
   const char *            messptr;                /* Pointer to error message              */
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
+  subarchptr->archptr = NULL;                     /* Nothing to free on error */
+
   if ((orgarchptr->clasptr->flagval & ARCHVAR) != 0) {
     errorPrint ("archSubArchBuild: variable-sized architectures not supported");
     return (1);
@@ -426,12 +428,6 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
 
   treetab ++;                                     /* TRICK: Hide first slot */
 
-  subarchptr->archptr = orgarchptr;
-  subarchptr->termnbr = vnumnbr;
-  subarchptr->termtab = termtab;
-  subarchptr->domnnbr = domnnbr;
-  subarchptr->domntab = domntab;
-
   for (orgtermnum = 0; orgtermnum < orgtermnbr; orgtermnum ++) { /* Initialize values for all vertices of original architecture */
     treetab[orgtermnum].domnsiz =
     treetab[orgtermnum].domnwgt = 0;
@@ -488,6 +484,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
   if (rootptr == NULL) {
     errorPrint ("archSubArchBuild: cannot create sub-architecture (1)");
     memFree    (treetab - 1);
+    memFree    (termtab);
     return (2);
   }
 #ifdef SCOTCH_DEBUG_ARCH2
@@ -499,8 +496,12 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
 
   if (archSubArchBuild3 (domntab, termtab, rootptr, 1, 0) != domnnbr) {
     errorPrint ("archSubArchBuild: cannot create sub-architecture (2)");
-    memFree    (treetab - 1);
-    return (2);
+    for (treetab --; treetab != NULL; treetab = treetmp) { /* Free all tree blocks */
+      treetmp = treetab[0].sonstab[0];
+      memFree (treetab);
+    }
+    memFree (termtab);
+    return  (2);
   }
   domntab[0].dfatidx = -1;                        /* Set index of root father as -1 */
 
@@ -509,6 +510,12 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
     memFree (treetab);
   }
 
+  subarchptr->archptr = orgarchptr;
+  subarchptr->termnbr = vnumnbr;
+  subarchptr->termtab = termtab;
+  subarchptr->domnnbr = domnnbr;
+  subarchptr->domntab = domntab;
+
   return (0);
 }
 
-- 
2.43.0


From afb9137ee47bfcbbfdec0f4bff1ced4b0d1ce682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 104/158] fix: METIS_MeshToDual: reject node index just beyond
 last one

---
 src/libscotchmetis/metis_graph_dual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_dual.c b/src/libscotchmetis/metis_graph_dual.c
index decc768..5662761 100644
--- a/src/libscotchmetis/metis_graph_dual.c
+++ b/src/libscotchmetis/metis_graph_dual.c
@@ -102,7 +102,7 @@ const SCOTCH_Num * const    edgetab)              /*+ Array of elements
     }
     for ( ; edgenum < edgennd; edgenum ++) {
       if ((edgetax[edgenum] <  baseval) ||
-          (edgetax[edgenum] > (baseval + vnodnbr))) {
+          (edgetax[edgenum] >= (baseval + vnodnbr))) {
         SCOTCH_errorPrint ("_SCOTCH_METIS_MeshToDual2: invalid input indices (2)");
         return            (METIS_ERROR_INPUT);
       }
-- 
2.43.0


From 09b67ad571073a85a2899251aa217079238cdedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 105/158] fix: METIS_MeshToDual: handle meshes without nodes

---
 src/libscotchmetis/metis_graph_dual.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_dual.c b/src/libscotchmetis/metis_graph_dual.c
index 5662761..5e3a997 100644
--- a/src/libscotchmetis/metis_graph_dual.c
+++ b/src/libscotchmetis/metis_graph_dual.c
@@ -193,7 +193,8 @@ const SCOTCH_Num * const    edgetab)              /*+ Array of elements
       srcedgetax[srcverttax[edgetax[edgenum] + velmnbr] ++] = vertnum;
   }
 
-  memMov (srcverttax + velmnnd + 1, srcverttax + velmnnd, (vnodnbr - 1) * sizeof (Gnum));  /* Re-build node part of vertex array */
+  if (vnodnbr > 0)                                /* If mesh has nodes */
+    memMov (srcverttax + velmnnd + 1, srcverttax + velmnnd, (vnodnbr - 1) * sizeof (Gnum));  /* Re-build node part of vertex array */
   srcverttax[velmnnd] = verttax[velmnnd];
 
   return (METIS_OK);
-- 
2.43.0


From 9b1573799d46c57904f74c47e41cbc028358b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 106/158] fix: METIS routines: convert part weights accurately
 and without overflow

---
 src/libscotchmetis/metis_graph_part.c | 32 ++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index 3559d5a..3983d5d 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -203,6 +203,8 @@ SCOTCH_Num * const          cvolptr)
 */
 
 #define EPSILON 1e-6
+#define DOUBADJMAX 1000.0                         /* Maximum exact renormalization factor to search for */
+#define DOUBSUMMAX 1.0e8                          /* Sum of integer weights when values are approximated */
 
 void
 _SCOTCH_METIS_doubleToInt (
@@ -211,22 +213,32 @@ const double * const        doubtab,
 SCOTCH_Num * const          intetab)
 {
   double              doubadj;
+  double              doubsum;
   SCOTCH_Num          i;
 
-  for (i = 0, doubadj = 1.0; i < valunbr; i ++) {
-    double              doubval;
-    double              doubtmp;
+  for (i = 0, doubsum = 0.0; i < valunbr; i ++)
+    doubsum += doubtab[i];
 
-    doubval  = doubtab[i];
-    doubval *= doubadj;                         /* See if renormalization factor works        */
-    doubtmp  = doubval - floor (doubval + EPSILON); /* Determine its possible fractional part */
-    if (fabs (doubtmp) >= EPSILON) {            /* If a residual fractional part exists       */
-      doubtmp = doubadj / doubtmp;              /* Incorporate it in renormalization factor   */
-      doubadj = (doubadj * doubtmp) / (double) intGcd ((int) round (doubadj), (int) round (doubtmp));
+  for (doubadj = 1.0; doubadj <= DOUBADJMAX; doubadj += 1.0) { /* Search for small exact renormalization factor */
+    for (i = 0; i < valunbr; i ++) {
+      double              doubval;
+
+      doubval = doubtab[i] * doubadj;
+      if ((doubval < 0.5) ||                      /* If weight would be zero or if residual fractional part exists */
+          (fabs (doubval - round (doubval)) >= EPSILON))
+        break;
     }
+    if (i >= valunbr)                             /* If factor suits all values */
+      break;
   }
-  for (i = 0; i < valunbr; i ++)
+  if (doubadj > DOUBADJMAX)                       /* If none found, use factor that yields enough precision */
+    doubadj = DOUBSUMMAX / doubsum;
+
+  for (i = 0; i < valunbr; i ++) {
     intetab[i] = (SCOTCH_Num) round (doubtab[i] * doubadj);
+    if (intetab[i] < 1)                           /* Integer weights must be strictly positive */
+      intetab[i] = 1;
+  }
 }
 
 /* This routine is the interface between MeTiS
-- 
2.43.0


From c1167c59c101f199968a0c40138add2c72966368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 107/158] fix: METIS_PartGraph*: use first vertex weights when
 there are several constraints

---
 src/libscotchmetis/metis_graph_part.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index 3983d5d..98d9a85 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -267,6 +267,7 @@ const double * const        kbalval)
 {
   SCOTCH_Graph        grafdat;                    /* Scotch graph object to interface with libScotch */
   SCOTCH_Num *        twintab;                    /* Integer array of target weights (if any)        */
+  SCOTCH_Num *        velotab;                    /* Array of first vertex weights (if several)      */
   SCOTCH_Strat        stradat;
   SCOTCH_Num          baseval;
   SCOTCH_Num          vertnbr;
@@ -290,13 +291,27 @@ const double * const        kbalval)
     free (twdbtab);                               /* Array no longer of use */
   }
   
-  SCOTCH_graphInit (&grafdat);
-
   baseval = *numflag;
   vertnbr = *n;
 
+  velotab = NULL;
+  if ((vwgt != NULL) && (ncon != NULL) && (*ncon > 1)) { /* If several interleaved constraints */
+    SCOTCH_Num          vertnum;
+
+    if ((velotab = malloc ((vertnbr + 1) * sizeof (SCOTCH_Num))) == NULL) {
+      if (twintab != NULL)
+        free (twintab);
+      return (METIS_ERROR_MEMORY);
+    }
+    for (vertnum = 0; vertnum < vertnbr; vertnum ++) /* Gather first vertex weights; only these are used */
+      velotab[vertnum] = vwgt[vertnum * *ncon];
+  }
+
+  SCOTCH_graphInit (&grafdat);
+
   o = 1;                                          /* Assume something will go wrong */
-  if (SCOTCH_graphBuild (&grafdat, baseval, vertnbr, xadj, xadj + 1, vwgt, NULL,
+  if (SCOTCH_graphBuild (&grafdat, baseval, vertnbr, xadj, xadj + 1,
+                         (velotab != NULL) ? velotab : vwgt, NULL,
                          xadj[vertnbr] - baseval, adjncy, adjwgt) == 0) {
     SCOTCH_stratInit          (&stradat);
     SCOTCH_stratGraphMapBuild (&stradat, flagval, *nparts, *kbalval);
@@ -321,6 +336,8 @@ const double * const        kbalval)
   }
   SCOTCH_graphExit (&grafdat);
 
+  if (velotab != NULL)
+    free (velotab);
   if (twintab != NULL)
     free (twintab);
 
-- 
2.43.0


From e1c25d817612016359cafc6eb67bb1b932fde017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 108/158] fix: METIS_PartGraph* v5: honour volume objective,
 default and METIS-style load imbalance tolerances

---
 src/libscotchmetis/metis_graph_part.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index 98d9a85..fca7e3d 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -577,18 +577,20 @@ SCOTCH_Num * const          objval,
 SCOTCH_Num * const          part)
 {
   SCOTCH_Num          baseval;
+  SCOTCH_Num          objtval;
   double              kbalval;
 
-  kbalval = 0.01;
+  kbalval = (ubvec != NULL) ? (ubvec[0] - 1.0) : 0.01; /* MeTiS load imbalance tolerances are ratios to average load */
   baseval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_NUMBERING] : 0;
+  objtval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_OBJTYPE]   : METIS_OBJTYPE_CUT;
 
-  return ((vsize == NULL)
+  return (((vsize == NULL) && (objtval != METIS_OBJTYPE_VOL))
           ? _SCOTCH_METIS_PartGraph (nvtxs, ncon, xadj, adjncy, vwgt, adjwgt,
                                      &baseval, nparts, tpwgts, options, objval, part,
-                                     SCOTCH_STRATDEFAULT, (ubvec != NULL) ? ubvec : &kbalval)
+                                     SCOTCH_STRATDEFAULT, &kbalval)
           : _SCOTCH_METIS_PartGraph_Volume (nvtxs, ncon, xadj, adjncy, vwgt, vsize,
                                             &baseval, nparts, tpwgts, options, objval, part,
-                                            SCOTCH_STRATDEFAULT, (ubvec != NULL) ? ubvec : &kbalval));
+                                            SCOTCH_STRATDEFAULT, &kbalval));
 }
 
 /*
@@ -612,16 +614,20 @@ SCOTCH_Num * const          objval,
 SCOTCH_Num * const          part)
 {
   SCOTCH_Num          baseval;
+  SCOTCH_Num          objtval;
+  double              kbalval;
 
+  kbalval = (ubvec != NULL) ? (ubvec[0] - 1.0) : 0.01; /* MeTiS load imbalance tolerances are ratios to average load */
   baseval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_NUMBERING] : 0;
+  objtval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_OBJTYPE]   : METIS_OBJTYPE_CUT;
 
-  return ((vsize == NULL)
+  return (((vsize == NULL) && (objtval != METIS_OBJTYPE_VOL))
           ? _SCOTCH_METIS_PartGraph (nvtxs, ncon, xadj, adjncy, vwgt, adjwgt,
                                      &baseval, nparts, tpwgts, options, objval, part,
-                                     SCOTCH_STRATRECURSIVE, ubvec)
+                                     SCOTCH_STRATRECURSIVE, &kbalval)
           : _SCOTCH_METIS_PartGraph_Volume (nvtxs, ncon, xadj, adjncy, vwgt, vsize,
                                             &baseval, nparts, tpwgts, options, objval, part,
-                                            SCOTCH_STRATRECURSIVE, ubvec));
+                                            SCOTCH_STRATRECURSIVE, &kbalval));
 }
 
 /*******************/
-- 
2.43.0


From 5ab3398e369d90e890cbfa09245470ecf9a9b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 109/158] fix: METIS_PartMeshDual: handle absent vertex weights
 of the Fortran interface

---
 src/libscotchmetis/metis_graph_part_dual.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_part_dual.c b/src/libscotchmetis/metis_graph_part_dual.c
index 037dc40..480603b 100644
--- a/src/libscotchmetis/metis_graph_part_dual.c
+++ b/src/libscotchmetis/metis_graph_part_dual.c
@@ -202,7 +202,8 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
     edlotab = NULL;
 
   SCOTCH_graphInit  (&graftmp);
-  SCOTCH_graphBuild (&graftmp, baseval, vertnbr, verttab, vendtab, vwgt, NULL, edgenbr, edgetab, edlotab);
+  SCOTCH_graphBuild (&graftmp, baseval, vertnbr, verttab, vendtab,
+                     (vwgt != ne) ? vwgt : NULL, NULL, edgenbr, edgetab, edlotab);
   SCOTCH_stratInit  (&stradat);
 
   if (SCOTCH_graphMap (&graftmp, &archdat, &stradat, epart) == 0) {
-- 
2.43.0


From 875b48f517499e7d8e070211fb9b0814cdf35dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 110/158] fix: METIS_PartMeshDual: do not use absent vertex
 sizes in volume computation

---
 src/libscotchmetis/metis_graph_part_dual.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_part_dual.c b/src/libscotchmetis/metis_graph_part_dual.c
index 480603b..63c61e6 100644
--- a/src/libscotchmetis/metis_graph_part_dual.c
+++ b/src/libscotchmetis/metis_graph_part_dual.c
@@ -216,7 +216,8 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
 
     if (((vsize != NULL) && (vsize != ne)) ||     /* If computation of communication volume wanted */
         ((options != NULL) && (options != ne) && (options[METIS_OPTION_OBJTYPE] == METIS_OBJTYPE_VOL)))
-      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval, vsize - baseval, *nparts, epart - baseval, objval);
+      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval,
+                                   (edlotab != NULL) ? (vsize - baseval) : NULL, *nparts, epart - baseval, objval);
     else
       o = _SCOTCH_METIS_OutputCut (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval,
                                    (edlotab != NULL) ? (edlotab - baseval) : NULL, epart - baseval, objval);
-- 
2.43.0


From be877e0055864d017a44d9777c9d3357899b0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 111/158] fix: METIS_PartMeshDual: set valid part number of
 isolated nodes

---
 src/libscotchmetis/metis_graph_part_dual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_part_dual.c b/src/libscotchmetis/metis_graph_part_dual.c
index 63c61e6..b66158d 100644
--- a/src/libscotchmetis/metis_graph_part_dual.c
+++ b/src/libscotchmetis/metis_graph_part_dual.c
@@ -244,7 +244,7 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
     SCOTCH_Num          edgenum;
 
     edgenum = verttab[vnodnum + (vnodbas - baseval)];
-    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : 0; /* If non-isolated node, get part of first neighbor element, else 0 */
+    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : baseval; /* If non-isolated node, get part of first neighbor element, else first part */
   }
 
   SCOTCH_meshExit (&meshdat);
-- 
2.43.0


From 2955e3e4117275e9029ee738b5a2cec498cafa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 112/158] fix: esmumps_strat1: use valid name of the HAMD
 ordering method

---
 src/esmumps/library_esmumps_strats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esmumps/library_esmumps_strats.c b/src/esmumps/library_esmumps_strats.c
index 6a2e121..ea9afbe 100644
--- a/src/esmumps/library_esmumps_strats.c
+++ b/src/esmumps/library_esmumps_strats.c
@@ -101,7 +101,7 @@ char * const                straptr)
 
   for (levlval = 1, procmax = 1; procmax < procnbr; procmax <<= 1, levlval ++) ; /* Compute log2 of procnbr, + 1 */
 
-  hamxval = (leorval == 0) ? 'h' : 'f';           /* HAMD if 0, HAMF if 1 */
+  hamxval = (leorval == 0) ? 'd' : 'f';           /* HAMD if 0, HAMF if 1 */
 
   if (verbval != 0) {
     fprintf (stream, "Scotch strategy:\n- %ld levels of ND are necessary for %ld processors\n",
-- 
2.43.0


From 3031512057672b07123d4676010e8d04375a58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 113/158] fix: symbolFax: reserve room for trailing temporary
 block

---
 src/esmumps/symbol_fax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esmumps/symbol_fax.c b/src/esmumps/symbol_fax.c
index 813b041..19cdfab 100644
--- a/src/esmumps/symbol_fax.c
+++ b/src/esmumps/symbol_fax.c
@@ -240,7 +240,7 @@ const Order * const         ordeptr)              /*+ Matrix ordering
            ctrbtmp != ~0; ctrbtmp = ctrbtax[ctrbtmp])
         ctrbsum += cblktax[ctrbtmp + 1].bloknum - cblktax[ctrbtmp].bloknum - 2; /* Sum contributing column blocks */
 
-      tlokmax = degrmax + ctrbsum;                /* Maximum possible number of blocks in temporary area */
+      tlokmax = degrmax + ctrbsum + 2;            /* Maximum possible number of blocks in temporary area, including diagonal and trailing ones */
       sortoft = ((ptrdiff_t) tlokmax) * sizeof (SymbolBlok);
       if ((((ptrdiff_t) hashsiz) * (ptrdiff_t) sizeof (INT)) > sortoft) /* Compute offset of sort area */
         sortoft = (((ptrdiff_t) hashsiz) * (ptrdiff_t) sizeof (INT));
-- 
2.43.0


From e97d53945e9d0fda6c74f5c417e7f2e8e0d57173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 114/158] fix: SCOTCH_dgraphStat: do not divide by zero for
 graphs without vertices or edges

---
 src/libscotch/library_dgraph_stat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_dgraph_stat.c b/src/libscotch/library_dgraph_stat.c
index 26f7551..763f426 100644
--- a/src/libscotch/library_dgraph_stat.c
+++ b/src/libscotch/library_dgraph_stat.c
@@ -310,7 +310,7 @@ double *                    edlodltptr)
   if (veloavgptr != NULL)
     *veloavgptr = (double) veloglbavg;
   if (velodltptr != NULL)
-    *velodltptr = srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr;
+    *velodltptr = (srcgrafptr->vertglbnbr > 0) ? (srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr) : 0.0L;
 
   if (degrminptr != NULL)
     *degrminptr = (SCOTCH_Num) srcgstadat.degrmin;
@@ -319,7 +319,7 @@ double *                    edlodltptr)
   if (degravgptr != NULL)
     *degravgptr = (double) degrglbavg;
   if (degrdltptr != NULL)
-    *degrdltptr = srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr;
+    *degrdltptr = (srcgrafptr->vertglbnbr > 0) ? (srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr) : 0.0L;
 
   if (edlominptr != NULL)
     *edlominptr = (SCOTCH_Num) srcgstadat.edlomin;
@@ -330,7 +330,7 @@ double *                    edlodltptr)
   if (edloavgptr != NULL)
     *edloavgptr = (double) edloglbavg;
   if (edlodltptr != NULL)
-    *edlodltptr = srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr;
+    *edlodltptr = (srcgrafptr->edgeglbnbr > 0) ? (srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr) : 0.0L;
 
   return (0);
 }
-- 
2.43.0


From 08c6653d94daaba9507c2f3e3ce537bb60ca05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 115/158] fix: SCOTCH_dgraphStat: return minimum, maximum and
 average edge loads

---
 src/libscotch/library_dgraph_stat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_stat.c b/src/libscotch/library_dgraph_stat.c
index 763f426..0dda06e 100644
--- a/src/libscotch/library_dgraph_stat.c
+++ b/src/libscotch/library_dgraph_stat.c
@@ -242,11 +242,14 @@ double *                    edlodltptr)
         }
       }
 
+      srclstadat.edlomin = edlolocmin;
+      srclstadat.edlomax = edlolocmax;
+
       if (MPI_Allreduce (&edlolocsum, &edloglbsum, 1, GNUM_MPI, MPI_SUM, srcgrafptr->proccomm) != MPI_SUCCESS) {
         errorPrint (STRINGIFY (SCOTCH_dgraphStat) ": communication error (1)");
         return (1);
       }
-      edloglbavg = (double) edloglbsum / (double) (2 * srcgrafptr->edgeglbnbr);
+      edloglbavg = (double) edloglbsum / (double) srcgrafptr->edgeglbnbr;
 
       for (vertlocnum = srcgrafptr->baseval; vertlocnum < srcgrafptr->vertlocnnd; vertlocnum ++) {
         Gnum                edgelocnum;
-- 
2.43.0


From 18cde07b4aea929c91e907f3ba4d1c4070ce4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 116/158] fix: library_dgraph_stat_f: provide lowercase Fortran
 symbol

---
 src/libscotch/library_dgraph_stat_f.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_stat_f.c b/src/libscotch/library_dgraph_stat_f.c
index 22826a8..03948e1 100644
--- a/src/libscotch/library_dgraph_stat_f.c
+++ b/src/libscotch/library_dgraph_stat_f.c
@@ -68,7 +68,7 @@
 */
 
 SCOTCH_FORTRAN (                              \
-DGRAPHSTAT, Dgraphstat, (                     \
+DGRAPHSTAT, dgraphstat, (                     \
 const SCOTCH_Dgraph * const grafptr,          \
 SCOTCH_Num * const          velominptr,       \
 SCOTCH_Num * const          velomaxptr,       \
-- 
2.43.0


From aee114338061c101a8c6739730fbe7b1ffdc2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 117/158] fix: dgraphBuild3: process labels of graphs with
 non-compact edge arrays

---
 src/libscotch/dgraph_build.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/dgraph_build.c b/src/libscotch/dgraph_build.c
index fb36e01..d273c3b 100644
--- a/src/libscotch/dgraph_build.c
+++ b/src/libscotch/dgraph_build.c
@@ -396,12 +396,16 @@ const Gnum                  degrlocmax)
       return (1);
     }
 
-    for (edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr, edgelocnum = baseval;
-         edsolocptr < edsoloctnd; edsolocptr ++, edgelocnum ++) {
-      edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
-      edsolocptr->edgelocnum = edgelocnum;
+    for (edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr, vertlocnum = baseval; /* Edge array may not be compact */
+         vertlocnum < grafptr->vertlocnnd; vertlocnum ++) {
+      for (edgelocnum = vertloctax[vertlocnum];
+           (edgelocnum < vendloctax[vertlocnum]) && (edsolocptr < edsoloctnd); edgelocnum ++, edsolocptr ++) {
+        edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
+        edsolocptr->edgelocnum = edgelocnum;
+      }
     }
-    intSort2asc2 (edsoloctab, grafptr->edgelocnbr);
+    edsoloctnd = edsolocptr;                      /* Keep only existing edges in case edgelocnbr is invalid */
+    intSort2asc2 (edsoloctab, (Gnum) (edsoloctnd - edsoloctab));
 
     procrcvnum = (grafptr->proclocnum + 1) % procglbnbr; /* Compute indices of neighbors */
     procsndnum = (grafptr->proclocnum - 1 + procglbnbr) % procglbnbr;
-- 
2.43.0


From 80bcf389e4072db99a091b0704bce3d9de5b0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 118/158] fix: dgraphCheck: reject local vertex indices smaller
 than base value

---
 src/libscotch/dgraph_check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index 600bc32..39d0ece 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -292,7 +292,8 @@ const Dgraph * restrict const grafptr)
   for (vertlocnum = grafptr->baseval, edgelocnbr = 0; vertlocnum < grafptr->vertlocnnd; vertlocnum ++) {
     Gnum                edgelocnum;
 
-    if ((vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
+    if ((vertloctax[vertlocnum] < grafptr->baseval)      ||
+        (vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
         (vendloctax[vertlocnum] > (grafptr->edgelocsiz + grafptr->baseval))) {
       errorPrint ("dgraphCheck: inconsistent local vertex arrays");
       edgelocnbr = grafptr->edgelocnbr;           /* Avoid unwanted cascaded error messages */
-- 
2.43.0


From 81bbbe23188617c6aa1a641200d71f13b08ac3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 119/158] fix: dgraphCheck: check edge loads even when there is
 no ghost edge array

---
 src/libscotch/dgraph_check.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index 39d0ece..44cad91 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -312,9 +312,12 @@ const Dgraph * restrict const grafptr)
           cheklocval = 1;
           break;
         }
+      }
+    }
 
-        if ((edloloctax != NULL) &&
-            (edloloctax[edgelocnum] <= 0)) {
+    if ((edloloctax != NULL) && (cheklocval == 0)) { /* If edge load array has to be checked */
+      for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+        if (edloloctax[edgelocnum] <= 0) {
           errorPrint ("dgraphCheck: invalid edge load");
           edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
           vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
-- 
2.43.0


From 4dcd3bdd7b97bacd00dfd550e0f98854f13f9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 120/158] fix: dgraphCheck: reject arcs to non-existing
 vertices and self-loops

---
 src/libscotch/dgraph_check.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index 44cad91..52ae88c 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -315,6 +315,23 @@ const Dgraph * restrict const grafptr)
       }
     }
 
+    if ((edgeloctax != NULL) && (cheklocval == 0)) { /* If arc ends have to be checked */
+      Gnum                vertglbnum;
+
+      vertglbnum = grafptr->procvrttab[proclocnum] + vertlocnum - grafptr->baseval;
+      for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+        if ((edgeloctax[edgelocnum] <  grafptr->procvrttab[0])          || /* If end vertex does not exist */
+            (edgeloctax[edgelocnum] >= grafptr->procvrttab[procglbnbr]) ||
+            (edgeloctax[edgelocnum] == vertglbnum)) { /* Or is vertex itself */
+          errorPrint ("dgraphCheck: inconsistent edge array");
+          edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
+          vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
+          cheklocval = 1;
+          break;
+        }
+      }
+    }
+
     if ((edloloctax != NULL) && (cheklocval == 0)) { /* If edge load array has to be checked */
       for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
         if (edloloctax[edgelocnum] <= 0) {
@@ -461,6 +478,11 @@ const Dgraph * restrict const grafptr)
           Gnum                edgengbnnd;
           Gnum                edgengbsum;
 
+          if (vertglbend >= (vertngbmin + grafptr->proccnttab[procngbnum])) { /* If end vertex is in a hole of global numbering */
+            cheklocval = 1;
+            continue;
+          }
+
           for (edgengbnum = vertngbptr[vertglbend - vertngbmin],
                edgengbnnd = vendngbptr[vertglbend - vertngbmin], edgengbsum = 0;
                edgengbnum < edgengbnnd; edgengbnum ++) {
-- 
2.43.0


From c990a2b60d9f719f513c7eaffbae8b93ec10468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 121/158] fix: dgraphLoadCent: honour flag for not loading
 vertex loads

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 6c173b3..4b72980 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -267,7 +267,7 @@ const int                   protnum)              /* Root process number
     vertloctax  =
     vertlocptr -= baseval;
     vertlocptr += vertglbmax + 2;                 /* TRICK: "+2" for space for velolocsum */
-    if (proptab[2] != 0) {
+    if (velolocnbr != 0) {
       veloloctax  = vertlocptr;
       vertlocptr += vertglbmax;
     }
-- 
2.43.0


From b3acbc918029283a2a514698949797f78ce920a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 122/158] fix: dgraphLoadCent: report invalid headers to all
 processes

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 4b72980..d7fc94f 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -224,7 +224,7 @@ const int                   protnum)              /* Root process number
         (reduglbtab[4] < 0)                     ||
         (reduglbtab[4] > 111)) {
       errorPrint ("dgraphLoadCent: bad input (1)");
-      cheklocval = 1;
+      reduglbtab[0] = 1;
     }
   }
 
-- 
2.43.0


From 3220cc6bc0c6601c37d9281c951b48c993760cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 123/158] fix: dgraphLoadCent: set edge load array on processes
 without edges

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index d7fc94f..09066ab 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -597,7 +597,7 @@ const int                   protnum)              /* Root process number
           errorPrint ("dgraphLoadCent: communication error (13)");
           return     (1);
         }
-        if (edlolocnbr != 0) {
+        if ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) { /* Even if no local edges, array must exist */
           edloloctax = edgeloctax + edgelocnbr;
           if (MPI_Irecv (edloloctax, edgelocnbr, GNUM_MPI, protnum, TAGEDLOLOCTAB, grafptr->proccomm, &requtab[requnbr ++]) != MPI_SUCCESS) {
             errorPrint ("dgraphLoadCent: communication error (14)");
-- 
2.43.0


From e5238a2351b9b3dc5577226ba6024d8cca98aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 124/158] fix: SCOTCH_dgraphCoarsen: do not copy multinode
 array when no folded graph was created

---
 src/libscotch/library_dgraph_coarsen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_coarsen.c b/src/libscotch/library_dgraph_coarsen.c
index c413063..acd3bf3 100644
--- a/src/libscotch/library_dgraph_coarsen.c
+++ b/src/libscotch/library_dgraph_coarsen.c
@@ -150,7 +150,8 @@ SCOTCH_Num * const          multloctab)           /* Pointer to multinode array
       memFree (multlocptr);                       /* Free allocated multinode array (folded or not) */
   }
   else {                                          /* User provided a multinode array                */
-    if (foldval != DGRAPHCOARSENNONE) {           /* If folding took place, user array was not used */
+    if ((foldval != DGRAPHCOARSENNONE) &&         /* If folding took place, user array was not used         */
+        (multlocptr != NULL)) {                   /* And if a multinode array has been created on this side */
 #ifdef SCOTCH_DEBUG_LIBRARY2
       SCOTCH_Num          multlocsiz;             /* Size that the user may have reserved for the multinode folded array */
 
-- 
2.43.0


From 0664e658dcf36b41abd7e441894e31555702a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 125/158] fix: library_dgraph_band_f: pass scalar arguments by
 reference

---
 src/libscotch/library_dgraph_band_f.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_dgraph_band_f.c b/src/libscotch/library_dgraph_band_f.c
index e26c91b..c28eaf1 100644
--- a/src/libscotch/library_dgraph_band_f.c
+++ b/src/libscotch/library_dgraph_band_f.c
@@ -69,12 +69,12 @@
 SCOTCH_FORTRAN (                        \
 DGRAPHBAND, dgraphband, (               \
 SCOTCH_Dgraph * const       srcgrafptr, \
-const SCOTCH_Num            fronlocnbr, \
+const SCOTCH_Num * const    fronlocnbr, \
 SCOTCH_Num * const          fronloctab, \
-const SCOTCH_Num            distval,    \
+const SCOTCH_Num * const    distval,    \
 SCOTCH_Dgraph * const       bndgrafptr, \
 int * const                 revaptr),   \
 (srcgrafptr, fronlocnbr, fronloctab, distval, bndgrafptr, revaptr))
 {
-  *revaptr = SCOTCH_dgraphBand (srcgrafptr, fronlocnbr, fronloctab, distval, bndgrafptr);
+  *revaptr = SCOTCH_dgraphBand (srcgrafptr, *fronlocnbr, fronloctab, *distval, bndgrafptr);
 }
-- 
2.43.0


From 9b47034146d049d79543b98c9ab04330d0d3053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 126/158] fix: dgraphRedist2: do not overwrite received data
 when vertices are permuted

---
 src/libscotch/dgraph_redist.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/dgraph_redist.c b/src/libscotch/dgraph_redist.c
index a541294..7b8999a 100644
--- a/src/libscotch/dgraph_redist.c
+++ b/src/libscotch/dgraph_redist.c
@@ -351,10 +351,9 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
            dstveloloctax  = ((srcgrafptr->veloloctax != NULL) ? dstveloloctax - baseval : NULL),
            dstvlblloctax -= baseval,
            memAllocGroup ((void **) (void *)
-                          &dstedgeloctax, (size_t) ((dstedlolocsiz +  /* TRICK: extra space required only if edge loads                                */
-                                                     MAX (dstedgelocdlt, srcgrafptr->degrglbmax)) * sizeof (Gnum)), /* TRICK: degrmax to avoid overlap */
-                          &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)), /* TRICK: send space will be edgeloctab or edloloctab                 */
-                          &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed              */
+                          &dstedgeloctax, (size_t) ((dstedgelocsiz + dstedlolocsiz) * sizeof (Gnum)), /* Received data may be read in any order, so it must not be overwritten */
+                          &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)),
+                          &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed */
     errorPrint ("dgraphRedist2: out of memory (3)");
     cheklocval = 1;
   }
@@ -461,12 +460,12 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
       drcvdatidx += dstdegrval;
     }
 #ifdef SCOTCH_DEBUG_DGRAPH2
-    if (abs ((dstedgeloctax + dstedgelocnum) - (drcvdattab + drcvdatidx)) < dstdegrval) { /* TRICK: memory areas should never overlap because of degrmax */
+    if (abs ((dstedgeloctax + dstedgelocnum) - (drcvdattab + drcvdatidx)) < dstdegrval) { /* Memory areas should never overlap */
       errorPrint ("dgraphRedist2: internal error (2)");
       return (1);
     }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
-    memCpy (dstedgeloctax + dstedgelocnum, drcvdattab + drcvdatidx, dstdegrval * sizeof (Gnum)); /* TRICK: will never overlap */
+    memCpy (dstedgeloctax + dstedgelocnum, drcvdattab + drcvdatidx, dstdegrval * sizeof (Gnum)); /* Will never overlap */
 
     dstedgelocnum += dstdegrval;
   }
-- 
2.43.0


From 5e8c9b6eabfb53ca3d7ca63400f316260fb0a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 127/158] fix: dgraphMatchHl: do not divide by zero for graphs
 without vertices

---
 src/libscotch/dgraph_match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_match.c b/src/libscotch/dgraph_match.c
index 4307231..46ad505 100644
--- a/src/libscotch/dgraph_match.c
+++ b/src/libscotch/dgraph_match.c
@@ -197,7 +197,7 @@ DgraphMatchData * restrict const  mateptr)
     dgraphMatchHy (mateptr);                                       \
     return;                                                        \
   }                                                                \
-  probmax = (1 * grafptr->veloglbsum) / (5 * grafptr->vertglbnbr);
+  probmax = (grafptr->vertglbnbr > 0) ? ((1 * grafptr->veloglbsum) / (5 * grafptr->vertglbnbr)) : 0;
 #define DGRAPHMATCHSCANCOUNTDECL                                   \
       Gnum                edlolocmax;
 #define DGRAPHMATCHSCANCOUNTINIT                                   \
-- 
2.43.0


From 2245d3564ab0241fbda235783106a3d9a2af8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 128/158] fix: dgraphBandGrow2Coll: take message element size
 into account in debug check

---
 src/libscotch/dgraph_band_grow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index 4f1942c..5d1ad8d 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -236,7 +236,7 @@ Context *                         contptr)        /*+ Execution context
 #ifdef SCOTCH_DEBUG_DGRAPH2
           if ((grafptr->procvrttab[grafptr->procngbtab[procngbnum]]     >  vertglbend) ||
               (grafptr->procvrttab[grafptr->procngbtab[procngbnum] + 1] <= vertglbend) ||
-              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + grafptr->procrcvtab[grafptr->procngbtab[procngbnum]]))) {
+              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + DGRAPHBANDGROWSMUL (grafptr->procrcvtab[grafptr->procngbtab[procngbnum]])))) {
             errorPrint (DGRAPHBANDGROWNSTR "Coll: internal error (1)");
             return     (1);
           }
-- 
2.43.0


From b7a2f037585b1fdc8b1419782b8a4db53bc7308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 129/158] fix: SCOTCH_dgraphBand: set vertex load sum of graphs
 without vertex loads

---
 src/libscotch/library_dgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 49bb48d..52fd6f4 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -339,7 +339,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
   bandgrafptr->vertlocnnd = bandvertlocnbr + bandgrafptr->baseval;
   bandgrafptr->vendloctax = bandvertloctax + 1;   /* Band graph is compact */
   bandgrafptr->veloloctax = bandveloloctax;
-  bandgrafptr->velolocsum = bandvelolocsum;
+  bandgrafptr->velolocsum = (veloloctax != NULL) ? bandvelolocsum : bandvertlocnbr;
   bandgrafptr->vlblloctax = bandvlblloctax;
   bandgrafptr->edgeloctax = bandedgeloctax;
   bandgrafptr->edloloctax = bandedloloctax;
-- 
2.43.0


From 6cff824f54572870a097572c6033f959c4b70352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 130/158] fix: SCOTCH_dgraphBand: do not use vertex labels as
 vertex indices

---
 src/libscotch/library_dgraph_band.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 52fd6f4..39510f6 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -260,7 +260,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -290,7 +290,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -326,7 +326,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
       Gnum              vertlocnum;
       Gnum              bandedgelocnum;
 
-      vertlocnum     = bandvlblloctax[bandvertlocnum] - vertlocadj;
+      vertlocnum     = fronloctax[bandvertlocnum];
       bandedgelocnum = bandvertloctax[bandvertlocnum];
       memCpy (bandedloloctax + bandedgelocnum,    /* Copy edge load array */
               &edloloctax[vertloctax[vertlocnum]],
-- 
2.43.0


From 69ec003a8410f1ede34783c866d7000328a5800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 131/158] fix: dgraphBandGrow2: set start of last level when
 distance is zero

---
 src/libscotch/dgraph_band_grow.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index 5d1ad8d..55b219e 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -176,6 +176,7 @@ Context *                         contptr)        /*+ Execution context
   }
   procvgbtab[procngbnum] = grafptr->procvrttab[grafptr->procglbnbr];
 
+  *bandvertlvlptr =                               /* In case there is no sweep to perform     */
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
@@ -432,6 +433,7 @@ Context *                         contptr)        /*+ Execution context
     } while (procngbnum != procngbnxt);
   }
 
+  *bandvertlvlptr =                               /* In case there is no sweep to perform     */
   bandvertlvlnum =                                /* Start index of last level is start index */
   bandvertlocnnd = grafptr->baseval;              /* Reset number of band vertices, plus base */
   bandedgelocnbr = 0;                             /* No edges accounted for yet               */
-- 
2.43.0


From 9f88bc43a143e30c2c5881d32048b46eab9d46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 132/158] fix: SCOTCHFDGRAPHMAPSTAT: return the documented
 error code

---
 src/libscotch/library_dgraph_map_stat_f.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/library_dgraph_map_stat_f.c b/src/libscotch/library_dgraph_map_stat_f.c
index bb844c0..69b35b7 100644
--- a/src/libscotch/library_dgraph_map_stat_f.c
+++ b/src/libscotch/library_dgraph_map_stat_f.c
@@ -81,16 +81,18 @@ SCOTCH_Num * const            cdstmaxptr,   \
 SCOTCH_Num                    cdsttab[256], \
 SCOTCH_Num * const            cmlosumptr,   \
 SCOTCH_Num * const            cmdisumptr,   \
-SCOTCH_Num * const            cmexsumptr),  \
+SCOTCH_Num * const            cmexsumptr,   \
+int * const                   revaptr),     \
 (grafptr, mapptr, tgtnbrptr,                \
  mapnbrptr, mapminptr, mapmaxptr,           \
  mapavgptr, mapdltptr,		            \
  ngbsumptr, ngbminptr, ngbmaxptr,           \
- cdstmaxptr, cdsttab, cmlosumptr, cmdisumptr, cmexsumptr))
+ cdstmaxptr, cdsttab, cmlosumptr, cmdisumptr, cmexsumptr,
+ revaptr))
 {
-  SCOTCH_dgraphMapStat (grafptr, mapptr, tgtnbrptr,
-                        mapnbrptr, mapminptr, mapmaxptr, mapavgptr, mapdltptr,
-                        ngbsumptr, ngbminptr, ngbmaxptr,
-                        cdstmaxptr, cdsttab,
-                        cmlosumptr, cmdisumptr, cmexsumptr);
+  *revaptr = SCOTCH_dgraphMapStat (grafptr, mapptr, tgtnbrptr,
+                                   mapnbrptr, mapminptr, mapmaxptr, mapavgptr, mapdltptr,
+                                   ngbsumptr, ngbminptr, ngbmaxptr,
+                                   cdstmaxptr, cdsttab,
+                                   cmlosumptr, cmdisumptr, cmexsumptr);
 }
-- 
2.43.0


From 2e8ce58a811bbad2bcd41e95d324368d8ebaf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 133/158] fix: dmapSave: handle based label arrays and holes in
 global numbering

---
 src/libscotch/dmapping_io.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/dmapping_io.c b/src/libscotch/dmapping_io.c
index e3e425b..6ce5eff 100644
--- a/src/libscotch/dmapping_io.c
+++ b/src/libscotch/dmapping_io.c
@@ -133,7 +133,7 @@ FILE * restrict const           stream)
   if (protnum == grafptr->proclocnum) {
     Gnum                  vlblnbr;
 
-    vlblnbr = (grafptr->vlblloctax != NULL) ? grafptr->vertglbnbr : 0;
+    vlblnbr = (grafptr->vlblloctax != NULL) ? (grafptr->procvrttab[grafptr->procglbnbr] - grafptr->baseval) : 0; /* Global numbering may have holes */
     if ((termloctab = memAllocGroup ((void **) (void *) /* termloctab not used on root processor, but used only for freeing the block              */
                                      &termrcvtab, (size_t) (vertrcvmax * 2 * sizeof (Gnum)), /* TRICK: "*2" as vnumrcvtab is sent after termrcvtab */
                                      &vlbltax,    (size_t) (vlblnbr        * sizeof (Gnum)), NULL)) == NULL) {
@@ -167,12 +167,12 @@ FILE * restrict const           stream)
   }
 
   if (grafptr->vlblloctax != NULL) {
+    vlbltax -= grafptr->baseval;                  /* Base label array since procvrttab holds based values */
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltax, grafptr->proccnttab, grafptr->procvrttab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dmapSave: communication error (3)");
       return     (1);
     }
-    vlbltax -= grafptr->baseval;                  /* Base label array */
   }
 
   if (protnum == grafptr->proclocnum) {
@@ -189,7 +189,7 @@ FILE * restrict const           stream)
 
         vnumnum = fragptr->vnumtab[fraglocnum];
 #ifdef SCOTCH_DEBUG_DMAP2
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < grafptr->baseval) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (2)");
           return     (1);
         }
@@ -247,7 +247,7 @@ FILE * restrict const           stream)
         Gnum                vnumnum;
 
         vnumnum = fragptr->vnumtab[fraglocnum];
-        if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
+        if ((vnumnum < grafptr->baseval) || (vnumnum >= grafptr->procvrttab[grafptr->procglbnbr])) {
           errorPrint ("dmapSave: invalid mapping (3)");
           return     (1);
         }
-- 
2.43.0


From 39f91f3f61823930cd941d3d2acc9a868cafc24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 134/158] fix: kdgraphMapRbPartFold: do not base part array
 when it is not allocated

---
 src/libscotch/kdgraph_map_rb_part.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index c60c710..dfb66ba 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -254,7 +254,8 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
 
   if ((indflagtab[0] | indflagtab[1]) == 0) {     /* If both subjobs stop    */
     fldgrafptr->procnbr = 0;                      /* Nothing to do on return */
-    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, actgrafptr->partgsttax + actgrafptr->s.baseval)); /* Map both subdomains in the same time */
+    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, /* Part array may not have been allocated */
+                                 (actgrafptr->partgsttax != NULL) ? actgrafptr->partgsttax + actgrafptr->s.baseval : NULL)); /* Map both subdomains in the same time */
   }
 
   if ((2 * actgrafptr->compglbsize0) >= actgrafptr->s.vertglbnbr) { /* Get part of largest subgraph */
-- 
2.43.0


From 786638c2da81cc8444a8d7ae36fad767d9f0b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 135/158] fix: kdgraphMapRbPartSequ: handle sequential
 strategies that compute no mapping

---
 src/libscotch/kdgraph_map_rb_part.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index dfb66ba..c5bc0aa 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -120,6 +120,15 @@ const KdgraphMapRbPartData * restrict const dataptr)
     return (1);
   }
 
+  if (kgrfdat.m.parttax == NULL) {                /* If strategy did not compute anything */
+    if (mapAlloc (&kgrfdat.m) != 0) {
+      errorPrint ("kdgraphMapRbPartSequ: cannot allocate mapping");
+      kgraphExit (&kgrfdat);
+      return (1);
+    }
+    mapFrst (&kgrfdat.m, &kgrfdat.domnorg);       /* Map all vertices to original domain */
+  }
+
   if (((fragptr = memAlloc (sizeof (DmappingFrag))) == NULL) ||
       ((fragptr->vnumtab = memAlloc (cgrfptr->vertnbr * sizeof (Gnum))) == NULL)) {
     errorPrint ("kdgraphMapRbPartSequ: out of memory");
-- 
2.43.0


From 9d22fcda5d0a8747f84d48fa2304e9cc72427e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 136/158] fix: SCOTCH_dgraphMapView: display the same
 quantities as SCOTCH_graphMapView

---
 src/libscotch/library_dgraph_map_view.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_dgraph_map_view.c b/src/libscotch/library_dgraph_map_view.c
index 3c1ed7d..e5dc430 100644
--- a/src/libscotch/library_dgraph_map_view.c
+++ b/src/libscotch/library_dgraph_map_view.c
@@ -145,10 +145,11 @@ FILE * const                  stream)
   fprintf (stream, "M\tCommDelta=%f\n",
            (((double) cmlosum  * (double) cmdisum) == 0.0L)
            ? (double) 0.0L
-           : ((double) grafptr->edgeglbnbr) / (double) (cmlosum * 2));
+           : ((double) cmexsum * (double) grafptr->edgeglbnbr) /
+             ((double) cmlosum * (double) cmdisum * 2.0));
 
   for (cdstnum = 0; cdstnum <= cdstmax; cdstnum ++) /* Print distance histogram */
-    fprintf (stream, "M\tCmlosum[" ANUMSTRING "]=%f\n",
+    fprintf (stream, "M\tCommLoad[" ANUMSTRING "]=%f\n",
              (Anum) cdstnum,
              (double) cdsttab[cdstnum] / (double) cmlosum);
 
-- 
2.43.0


From 07c043112ec5c52bd6a27d812eb1890ecaf05211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 137/158] fix: bdgraphBipartBd: propagate part data to ghost
 vertices of band graph

---
 src/libscotch/bdgraph_bipart_bd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libscotch/bdgraph_bipart_bd.c b/src/libscotch/bdgraph_bipart_bd.c
index 553c4bd..8a4e02d 100644
--- a/src/libscotch/bdgraph_bipart_bd.c
+++ b/src/libscotch/bdgraph_bipart_bd.c
@@ -260,6 +260,13 @@ const BdgraphBipartBdParam * const  paraptr)      /*+ Method parameters +*/
     return      (1);
   }
 
+  if (dgraphHaloSync (&bndgrafdat.s, (byte *) (bndgrafdat.partgsttax + bndgrafdat.s.baseval), GRAPHPART_MPI) != 0) { /* Band strategy may not have set ghost parts */
+    errorPrint  ("bdgraphBipartBd: cannot propagate band part data");
+    memFree     (orgflagloctab);
+    bdgraphExit (&bndgrafdat);
+    return      (1);
+  }
+
   if (reduglbtab[0] == orggrafptr->s.procglbnbr) { /* If all anchors swapped parts, swap all parts of original vertices */
     Gnum                orgvertnum;
 
-- 
2.43.0


From dcf12511a7123024d2159b181a88a66f51aeff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:57 +0000
Subject: [PATCH 138/158] fix: kdgraphMapRbPartFold: have all processes agree
 on multi-threaded folding

---
 src/libscotch/kdgraph_map_rb_part.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index c5bc0aa..acd8545 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -232,6 +232,8 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
 {
 #ifdef SCOTCH_PTHREAD_MPI
   int                     thrdprolvl;
+  int                     thrdlocmin;
+  int                     thrdglbmin;
 #endif /* SCOTCH_PTHREAD_MPI */
   KdgraphMapRbPartThread  fldthrdtab[2];
   int                     fldprocnbr0;            /* Number of processes in first part            */
@@ -313,7 +315,7 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
     fldproccol = MPI_UNDEFINED;                   /* Do not create any sub-communicator for it              */
   if (actgrafptr->s.procglbnbr > 2) {             /* If both folded graphs are mono-process, no need for it */
     if (MPI_Comm_split (actgrafptr->s.proccomm, fldproccol, fldprocnum, &fldthrdtab[fldpartval].fldproccomm) != MPI_SUCCESS) { /* Assign folded communicator to proper part */
-      errorPrint ("kdgraphMapRbPartFold: communication error");
+      errorPrint ("kdgraphMapRbPartFold: communication error (1)");
       return (1);
     }
   }
@@ -322,10 +324,17 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
   fldthrdtab[fldpartval ^ 1].fldproccomm = MPI_COMM_NULL;
 
 #ifdef SCOTCH_PTHREAD_MPI
-  MPI_Query_thread (&thrdprolvl);                 /* Get thread level of MPI implementation                    */
-  if ((thrdprolvl >= MPI_THREAD_MULTIPLE) &&      /* If we can use multiple threads                            */
-      (contextThreadNbr (actgrafptr->contptr) > 1) && /* And there is a need to                                */
-      ((indflagtab[0] & indflagtab[1]) != 0)) {   /* And both subjobs have meaningful things to do in parallel */
+  MPI_Query_thread (&thrdprolvl);                 /* Get thread level of MPI implementation                        */
+  thrdglbmin = 1;                                 /* Assume subgraphs will be built in sequence                    */
+  if ((thrdprolvl >= MPI_THREAD_MULTIPLE) &&      /* If we can use multiple threads                                */
+      ((indflagtab[0] & indflagtab[1]) != 0)) {   /* And both subjobs have meaningful things to do in parallel     */
+    thrdlocmin = contextThreadNbr (actgrafptr->contptr); /* All processes must take the same decision              */
+    if (MPI_Allreduce (&thrdlocmin, &thrdglbmin, 1, MPI_INT, MPI_MIN, actgrafptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("kdgraphMapRbPartFold: communication error (2)");
+      return (1);
+    }
+  }
+  if (thrdglbmin > 1) {                           /* If all processes have multiple threads available              */
     Dgraph              orggrafdat;               /* Structure for copying graph fields except communicator    */
 
     orggrafdat = actgrafptr->s;                   /* Create a separate graph structure to change its communicator */
-- 
2.43.0


From c5e1ac4dfb1d642dc670dd155fbd694d5b5a30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:57 +0000
Subject: [PATCH 139/158] fix: hdgraphOrderNdFold: have all processes agree on
 multi-threaded folding

---
 src/libscotch/hdgraph_order_nd.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index 977fec3..74bc42a 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -145,6 +145,8 @@ HdgraphOrderNdGraph * restrict const  fldgrafptr)
 {
 #ifdef SCOTCH_PTHREAD_MPI
   int                 thrdprolvl;
+  int                 thrdlocmin;
+  int                 thrdglbmin;
 #endif /* SCOTCH_PTHREAD_MPI */
   HdgraphOrderNdData  fldthrdtab[2];
   MPI_Comm            fldproccomm;
@@ -204,15 +206,22 @@ HdgraphOrderNdGraph * restrict const  fldgrafptr)
 
 #ifdef SCOTCH_PTHREAD_MPI
   MPI_Query_thread (&thrdprolvl);                 /* Get thread level of MPI implementation                 */
-  if ((thrdprolvl >= MPI_THREAD_MULTIPLE) &&      /* If we can use multiple threads                         */
-      (contextThreadNbr (orggrafptr->contptr) > 1)) { /* And there is a need to                             */
+  thrdglbmin = 1;                                 /* Assume subgraphs will be built in sequence             */
+  if (thrdprolvl >= MPI_THREAD_MULTIPLE) {        /* If we can use multiple threads                         */
+    thrdlocmin = contextThreadNbr (orggrafptr->contptr); /* All processes must take the same decision       */
+    if (MPI_Allreduce (&thrdlocmin, &thrdglbmin, 1, MPI_INT, MPI_MIN, orggrafptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("hdgraphOrderNdFold: communication error (2)");
+      return (1);
+    }
+  }
+  if (thrdglbmin > 1) {                           /* If all processes have multiple threads available       */
     Hdgraph             orggrafdat;               /* Structure for copying graph fields except communicator */
 
     orggrafdat = *orggrafptr;                     /* Create a separate graph structure to change its communicator */
     fldthrdtab[1].orggrafptr = &orggrafdat;
 
     if (MPI_Comm_dup (orggrafptr->s.proccomm, &orggrafdat.s.proccomm) != MPI_SUCCESS) { /* Duplicate communicator to avoid interferences in communications */
-      errorPrint ("hdgraphOrderNdFold: communication error (2)");
+      errorPrint ("hdgraphOrderNdFold: communication error (3)");
       return (1);
     }
 
-- 
2.43.0


From 7bdc36c3e28ebaf4e6fbf05bbc757681a06c6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:37 +0000
Subject: [PATCH 140/158] fix: bgraphCheck: accept average loads tilted by
 anchors of gathered band graphs

---
 src/libscotch/bgraph_check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/bgraph_check.c b/src/libscotch/bgraph_check.c
index 64aa111..fbf7aec 100644
--- a/src/libscotch/bgraph_check.c
+++ b/src/libscotch/bgraph_check.c
@@ -95,8 +95,8 @@ const Bgraph * restrict const grafptr)
   const GraphPart * restrict const  parttax = grafptr->parttax;
   const Gnum * restrict const       frontab = grafptr->frontab;
 
-  if (grafptr->compload0avg != (Gnum) (((double) (grafptr->s.velosum + grafptr->vfixload[0] + grafptr->vfixload[1]) * (double) grafptr->domnwght[0]) /
-                                       (double) (grafptr->domnwght[0] + grafptr->domnwght[1])) - grafptr->vfixload[0]) {
+  if ((grafptr->compload0avg < - grafptr->vfixload[0]) || /* Average load may be tilted in the case of (gathered) band graphs with unequal domain weights */
+      (grafptr->compload0avg > (grafptr->s.velosum + grafptr->vfixload[1]))) {
     errorPrint ("bgraphCheck: invalid average load");
     return (1);
   }
-- 
2.43.0


From 66f7b5b9db95b4ea5f26da9b1a1be2ad490cc365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 141/158] fix: dgraphGatherAll2: do not rely on all processes
 having compact local graphs

---
 src/libscotch/dgraph_gather_all.c | 105 +++++++++++-------------------
 1 file changed, 37 insertions(+), 68 deletions(-)

diff --git a/src/libscotch/dgraph_gather_all.c b/src/libscotch/dgraph_gather_all.c
index 3ccadb7..a73b942 100644
--- a/src/libscotch/dgraph_gather_all.c
+++ b/src/libscotch/dgraph_gather_all.c
@@ -117,7 +117,8 @@ const int                     protnum)            /* -1 means allgather */
   Gnum * restrict     edgetax;                    /* Target edge array for root, dummy for non-roots                    */
   Gnum * restrict     edlotax;                    /* Target edge load array for root, dummy for non-roots               */
   Gnum                vertlocnbr;                 /* Size of temporary distributed vertex array                         */
-  Gnum *              vertloctax;                 /* Temporary vertex array if graph is not compact [norestrict]        */
+  Gnum *              vertloctax;                 /* Temporary vertex degree array [norestrict]                         */
+  Gnum                vertlocnum;
   Gnum                edgelocnbr;                 /* Size of temporary distributed edge array                           */
   Gnum *              edgeloctab;                 /* Temporary edge array if distributed graph not compact [norestrict] */
   Gnum *              recvcnttab;                 /* Count array for gather operations [norestrict]                     */
@@ -179,14 +180,10 @@ const int                     protnum)            /* -1 means allgather */
     }
   }
 
-  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is compact */
-    vertlocnbr =                                  /* No need to recompact arrays             */
-    edgelocnbr = 0;
-  }
-  else {                                          /* Need extra space to compact vertex and edge arrays before sending */
-    vertlocnbr = dgrfptr->vertlocnbr;
-    edgelocnbr = dgrfptr->edgelocnbr;
-  }
+  vertlocnbr = dgrfptr->vertlocnbr;               /* Need extra space to send vertex degrees, as compactness is a local property */
+  edgelocnbr = (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) /* If distributed graph is locally compact                     */
+               ? 0                                /* No need to recompact edge arrays                                            */
+               : dgrfptr->edgelocnbr;             /* Else, need extra space to compact edge arrays before sending                */
 
   if (cheklocval == 0) {
     if (memAllocGroup ((void **) (void *)
@@ -253,70 +250,33 @@ const int                     protnum)            /* -1 means allgather */
   }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
 
-  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is compact                                                */
-    if (dgraphGatherAll3 (dgrfptr->vertloctax + baseval + 1, dgrfptr->vertlocnbr, /* Do not send first index, it is always equal to baseval */
-                          vendtax,                /* First index will always be equal to baseval too, and procdsptab holds based values     */
-                          dgrfptr->proccnttab, dgrfptr->procdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
-      errorPrint ("dgraphGatherAll2: communication error (3)");
-      return (1);
-    }
-
-    if (cgrfptr != NULL) {
-      Gnum                procnum;
+  vertloctax -= baseval;                          /* Base temporary vertex array */
+  for (vertlocnum = baseval; vertlocnum < dgrfptr->vertlocnnd; vertlocnum ++)
+    vertloctax[vertlocnum] = dgrfptr->vendloctax[vertlocnum] - dgrfptr->vertloctax[vertlocnum]; /* Get edge counts */
 
-      verttax[baseval] = baseval;
-      for (procnum = 1; procnum < dgrfptr->procglbnbr; procnum ++) { /* Adjust index sub-arrays for all processes except the first one */
-        Gnum                vertnum;
-        Gnum                vertnnd;
-        Gnum                edgedlt;
-
-        for (vertnum = dgrfptr->procdsptab[procnum] + 1,
-             vertnnd = dgrfptr->proccnttab[procnum] + vertnum,
-             edgedlt = verttax[vertnum - 1] - baseval;
-             vertnum < vertnnd; vertnum ++)
-          verttax[vertnum] += edgedlt;
-      }
-    }
+  if (dgraphGatherAll3 (vertloctax + baseval, dgrfptr->vertlocnbr,
+                        vendtax,                  /* First index will always be equal to baseval, and procdsptab holds based values */
+                        dgrfptr->proccnttab, dgrfptr->procdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
+    errorPrint ("dgraphGatherAll2: communication error (3)");
+    return (1);
   }
-  else {                                          /* Distributed graph is not compact */
-    Gnum                vertlocnum;
-    Gnum * restrict     edgelocptr;
 
-    vertloctax -= baseval;                        /* Base temporary vertex array   */
-    for (vertlocnum = baseval, edgelocptr = edgeloctab; /* Build vertex send array */
-         vertlocnum < dgrfptr->vertlocnnd; vertlocnum ++) {
-      Gnum                edgelocnum;
-
-      vertloctax[vertlocnum] = dgrfptr->vendloctax[vertlocnum] - dgrfptr->vertloctax[vertlocnum]; /* Get edge counts */
+  if (cgrfptr != NULL) {
+    Gnum                vertnum;
+    Gnum                edgenum;
 
-      for (edgelocnum = dgrfptr->vertloctax[vertlocnum]; edgelocnum < dgrfptr->vendloctax[vertlocnum]; edgelocnum ++)
-        *edgelocptr ++ = edgeloctax[edgelocnum];
+    verttax[baseval] = baseval;
+    for (vertnum = baseval + 1, edgenum = baseval; /* Create compact centralized vertex array */
+         vertnum <= cgrfptr->vertnnd; vertnum ++) {
+      edgenum += verttax[vertnum];
+      verttax[vertnum] = edgenum;
     }
-
-    if (dgraphGatherAll3 (vertloctax + baseval, dgrfptr->vertlocnbr,
-                          vendtax,                /* First index will always be equal to baseval, and procdsptab holds based values */
-                          dgrfptr->proccnttab, dgrfptr->procdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
-      errorPrint ("dgraphGatherAll2: communication error (4)");
+#ifdef SCOTCH_DEBUG_DGRAPH2
+    if (verttax[cgrfptr->vertnnd] != (cgrfptr->edgenbr + baseval)) {
+      errorPrint ("dgraphGatherAll2: internal error (1)");
       return (1);
     }
-
-    if (cgrfptr != NULL) {
-      Gnum                vertnum;
-      Gnum                edgenum;
-
-      verttax[baseval] = baseval;
-      for (vertnum = baseval + 1, edgenum = baseval; /* Create compact centralized vertex array */
-           vertnum <= cgrfptr->vertnnd; vertnum ++) {
-        edgenum += verttax[vertnum];
-        verttax[vertnum] = edgenum;
-      }
-#ifdef SCOTCH_DEBUG_DGRAPH2
-      if (verttax[cgrfptr->vertnnd] != (cgrfptr->edgenbr + baseval)) {
-        errorPrint ("dgraphGatherAll2: internal error (1)");
-        return (1);
-      }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
-    }
   }
 
   if (dgrfptr->veloloctax != NULL) {
@@ -363,7 +323,7 @@ const int                     protnum)            /* -1 means allgather */
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
   }
 
-  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is compact         */
+  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is locally compact */
     if (dgraphGatherAll3 (dgrfptr->edgeloctax + baseval, dgrfptr->edgelocnbr, /* Send global indices */
                           edgetax,                /* Based array as recvdsptab holds based values    */
                           recvcnttab, recvdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
@@ -380,7 +340,17 @@ const int                     protnum)            /* -1 means allgather */
       }
     }
   }
-  else {                                          /* Distributed graph is not compact */
+  else {                                          /* Distributed graph is not locally compact */
+    Gnum * restrict     edgelocptr;
+
+    for (vertlocnum = baseval, edgelocptr = edgeloctab; /* Build edge send array */
+         vertlocnum < dgrfptr->vertlocnnd; vertlocnum ++) {
+      Gnum                edgelocnum;
+
+      for (edgelocnum = dgrfptr->vertloctax[vertlocnum]; edgelocnum < dgrfptr->vendloctax[vertlocnum]; edgelocnum ++)
+        *edgelocptr ++ = edgeloctax[edgelocnum];
+    }
+
     if (dgraphGatherAll3 (edgeloctab, dgrfptr->edgelocnbr,
                           edgetax,                /* Based array as recvdsptab holds based values */
                           recvcnttab, recvdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
@@ -389,7 +359,6 @@ const int                     protnum)            /* -1 means allgather */
     }
 
     if (dgrfptr->edloloctax != NULL) {
-      Gnum                vertlocnum;
       Gnum * restrict     edlolocptr;
 
       for (vertlocnum = baseval, edlolocptr = edgeloctab; /* Recycle edge send array to build edge load send array */
-- 
2.43.0


From 3b5b46756ed26d880582dec59f5e88b06c93b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 142/158] fix: dgraphFoldComm: do not set up communications for
 overloaded receivers that keep their data

---
 src/libscotch/dgraph_fold_comm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_fold_comm.c b/src/libscotch/dgraph_fold_comm.c
index 171884a..b4d643f 100644
--- a/src/libscotch/dgraph_fold_comm.c
+++ b/src/libscotch/dgraph_fold_comm.c
@@ -325,6 +325,8 @@ Gnum * restrict * restrict const                vertdlttabptr) /* Pointer to glo
           vertglbtmp  = (vertsndnbr - vertrcvnbr + commnbr) / (commnbr + 1); /* Compute overload including sender process */
           vertglbdlt += vertglbtmp;               /* Add extra overload to current overload                               */
           vertsndnbr -= vertglbtmp;               /* Extra overload vertices will not be sent by sender receiver process  */
+          if (vertsndnbr <= 0)                    /* If sender receiver, in fact, keeps all of its vertices               */
+            continue;                             /* No communication to set up for it                                    */
         }
       }
       else {                                      /* There is room for adding messages       */
-- 
2.43.0


From 397ed420092c5ce06e4627f9852051a817958d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:13 +0000
Subject: [PATCH 143/158] fix: archTleafDomDist: detect inclusion of a first
 domain that starts where the second does

---
 src/libscotch/arch_tleaf.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index af3e453..7e81e93 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -482,14 +482,11 @@ const ArchTleafDom * const  dom1ptr)
     }
   }
 
-  if (idx0min <= idx1min) {                       /* Test for equality or inclusion */
-    if ((idx0min + idx0nbr) >= (idx1min + idx1nbr)) /* If dom1 included in dom0     */
-      return (distval / 2);
-  }
-  else {
-    if ((idx0min + idx0nbr) <= (idx1min + idx1nbr)) /* If dom0 included in dom1 */
-      return (distval / 2);
-  }
+  if (((idx0min <= idx1min) &&                    /* Test for equality or inclusion */
+       ((idx0min + idx0nbr) >= (idx1min + idx1nbr))) || /* If dom1 included in dom0 */
+      ((idx0min >= idx1min) &&
+       ((idx0min + idx0nbr) <= (idx1min + idx1nbr)))) /* If dom0 included in dom1   */
+    return (distval / 2);
 
   do {
 #ifdef SCOTCH_DEBUG_ARCH2
-- 
2.43.0


From 5cc625168ae9db88bd70f67b850a3f740fa78140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 144/158] fix: graph mapping: fail cleanly when the strategy
 fails or does not compute any mapping

---
 src/libscotch/hgraph_order_kp.c   | 3 ++-
 src/libscotch/kgraph_map_ml.c     | 6 ++++++
 src/libscotch/library_graph_map.c | 9 ++++++++-
 src/libscotch/wgraph_part_es.c    | 6 +++++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 51f9217..72bd514 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -113,7 +113,8 @@ const HgraphOrderKpParam * restrict const paraptr)
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
   if ((kgraphInit  (&actgrafdat, &actgrafdat.s, &archdat, NULL, 0, NULL, 1, 1, NULL) != 0) ||
-      (kgraphMapSt (&actgrafdat, paraptr->strat) != 0)) {
+      (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) ||
+      (actgrafdat.m.parttax == NULL)) {           /* If strategy did not compute any mapping */
     errorPrint ("hgraphOrderKp: cannot compute partition");
     kgraphExit (&actgrafdat);
     archExit   (&archdat);
diff --git a/src/libscotch/kgraph_map_ml.c b/src/libscotch/kgraph_map_ml.c
index 4de54a0..4fab9f0 100644
--- a/src/libscotch/kgraph_map_ml.c
+++ b/src/libscotch/kgraph_map_ml.c
@@ -376,6 +376,12 @@ const KgraphMapMlParam * const    paraptr)        /*+ Method parameters +*/
         ((o = kgraphMapMlUncoarsen (grafptr, &coargrafdat, coarmulttab)) == 0) &&
         ((o = kgraphMapSt          (grafptr, paraptr->stratasc))         != 0)) /* Apply ascending strategy */
       errorPrint ("kgraphMapMl2: cannot apply ascending strategy");
+
+    if (coargrafdat.comploadavg != NULL) {        /* If error before load arrays were propagated to fine graph */
+      grafptr->comploadavg = coargrafdat.comploadavg; /* Transfer them back as they may have been reallocated  */
+      grafptr->comploaddlt = coargrafdat.comploaddlt;
+      coargrafdat.comploadavg = NULL;
+    }
     kgraphExit (&coargrafdat);
   }
   else {                                          /* Cannot coarsen due to lack of memory or error */
diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index b8191d7..454ab2b 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -292,7 +292,14 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy
   mapgrafdat.contptr = CONTEXTGETDATA (actgrafptr);
 
   o = kgraphMapSt (&mapgrafdat, mapstraptr);
-  mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
+  if (o == 0) {
+    if (mapgrafdat.m.parttax == NULL) {           /* If strategy did nothing */
+      errorPrint ("graphMapCompute2: strategy does not compute any mapping");
+      o = 1;
+    }
+    else
+      mapTerm (&mapgrafdat.m, lmapptr->parttab - baseval); /* Propagate mapping result to part array */
+  }
 
   kgraphExit (&mapgrafdat);
 
diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 1729864..b0fafc0 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -103,8 +103,12 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
   }
   actgrafdat.contptr = grafptr->contptr;
 
-  if (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) { /* Map active subgraph */
+  if ((kgraphMapSt (&actgrafdat, paraptr->strat) != 0) || /* Map active subgraph */
+      (actgrafdat.m.parttax == NULL)) {           /* If strategy did not compute any mapping */
     errorPrint ("wgraphPartEs: cannot partition active graph");
+    kgraphExit (&actgrafdat);
+    archExit   (&archdat);
+    memFree    (npfltab - 1);
     return (1);
   }
 
-- 
2.43.0


From c2c928e998c135478833852fbc03cb581a7d4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 145/158] fix: dorderTreeDist: return based father indices

---
 src/libscotch/dorder_tree_dist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dorder_tree_dist.c b/src/libscotch/dorder_tree_dist.c
index c61e9b6..c82f7e9 100644
--- a/src/libscotch/dorder_tree_dist.c
+++ b/src/libscotch/dorder_tree_dist.c
@@ -288,6 +288,8 @@ Gnum * restrict const         sizeglbtab)
   }
   intSort2asc2 (srt2glbtab, dblkglbnbr);          /* Sort father indices by ascending column block indices */
   for (dblkglbnum = 0; dblkglbnum < dblkglbnbr; dblkglbnum ++) {
+    Gnum                cblkfthnum;
+
 #ifdef SCOTCH_DEBUG_DORDER2
     if (srt1glbtab[2 * dblkglbnum] != srt2glbtab[2 * dblkglbnum]) {
       errorPrint ("dorderTreeDist: internal error (5)");
@@ -295,7 +297,8 @@ Gnum * restrict const         sizeglbtab)
       return     (1);
     }
 #endif /* SCOTCH_DEBUG_DORDER2 */
-    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    cblkfthnum = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2]; /* Un-based index of father, or -1 for root */
+    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = (cblkfthnum < 0) ? cblkfthnum : (cblkfthnum + ordeptr->baseval);
     sizeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 3];
   }
 
-- 
2.43.0


From 50dcb524f33556ede0c1b29883ab0daf7e14ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 146/158] fix: hdgraphOrderNd: report errors of leaf orderings

---
 src/libscotch/hdgraph_order_nd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index 74bc42a..dfd6785 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -331,9 +331,9 @@ const HdgraphOrderNdParam * restrict const  paraptr)
     memFree (vspgrafdat.partgsttax + vspgrafdat.s.baseval); /* Free useless space */
     memFree (vspgrafdat.fronloctab);
 
-    hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    hdgraphExit    (grafptr);                     /* Free graph at this level   */
-    return (0);                                   /* Leaf has been processed    */
+    o = hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
+    hdgraphExit (grafptr);                        /* Free graph at this level       */
+    return (o);                                   /* Leaf has been processed        */
   }
 
   vspvnumtab[0] = vspgrafdat.fronloctab + vspgrafdat.complocsize[2]; /* TRICK: build vertex lists within frontier array */
-- 
2.43.0


From 5b862659dbb8c61054825bfdc666ec359b435d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 147/158] fix: hdgraphGather: handle distributed graphs that
 are not compact

---
 src/libscotch/hdgraph_gather.c | 167 ++++++++++++++++++++-------------
 1 file changed, 102 insertions(+), 65 deletions(-)

diff --git a/src/libscotch/hdgraph_gather.c b/src/libscotch/hdgraph_gather.c
index 89137a3..4c385ca 100644
--- a/src/libscotch/hdgraph_gather.c
+++ b/src/libscotch/hdgraph_gather.c
@@ -103,6 +103,13 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
   int                cheklocval;
   int                chekglbval;
   Gnum               degrmax;
+  Gnum * restrict    vertloctax;                  /* Arrays of compact local halo graph         */
+  Gnum * restrict    vendloctax;
+  Gnum * restrict    vhndloctax;
+  Gnum * restrict    edgeloctax;
+  Gnum * restrict    vertcmptab;                  /* Compacted arrays, when necessary           */
+  Gnum * restrict    vendcmptab;
+  Gnum * restrict    edgecmptab;
 
   if (cgrfptr != NULL) {                          /* If centralized graph provided */
     reduloctab[0] = 1;                            /* This process is the root      */
@@ -196,11 +203,23 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
     verthaltax -= dgrfptr->s.baseval;
     edgehaltax -= dgrfptr->s.baseval;
   }
+  vertcmptab = NULL;
+  if ((cheklocval == 0) &&
+      (dgrfptr->vhndloctax != dgrfptr->s.vertloctax + 1) && /* If local graph is not compact (e.g., user graph) */
+      (memAllocGroup ((void **) (void *)
+                      &vertcmptab, (size_t) ((dgrfptr->s.vertlocnbr + 1) * sizeof (Gnum)),
+                      &vendcmptab, (size_t) (dgrfptr->s.vertlocnbr       * sizeof (Gnum)),
+                      &edgecmptab, (size_t) ((dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr) * sizeof (Gnum)), NULL) == NULL)) {
+    errorPrint ("hdgraphGather: out of memory (5)");
+    cheklocval = 1;
+  }
   if (MPI_Allreduce (&cheklocval, &chekglbval, 1, MPI_INT, MPI_SUM, dgrfptr->s.proccomm) != MPI_SUCCESS) {
     errorPrint ("hdgraphGather: communication error (2)");
     return     (1);
   }
   if (chekglbval != 0) {
+    if (vertcmptab != NULL)
+      memFree (vertcmptab);
     if (verthaltax != NULL)
       memFree (verthaltax + dgrfptr->s.baseval);
     if (cgrfptr != NULL) {                        /* If data were previously allocated */
@@ -211,85 +230,101 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
     return (1);
   }
 
-  if (dgrfptr->vhndloctax == dgrfptr->s.vertloctax + 1) { /* If distributed halo graph is compact */
-    Gnum               procglbnum;
+  vertloctax = dgrfptr->s.vertloctax;
+  vendloctax = dgrfptr->s.vendloctax;
+  vhndloctax = dgrfptr->vhndloctax;
+  edgeloctax = dgrfptr->s.edgeloctax;
+  if (vertcmptab != NULL) {                       /* If local arrays have to be made compact */
+    Gnum               edgecmpnum;
+
+    for (vertlocnum = dgrfptr->s.baseval, edgecmpnum = 0; vertlocnum < dgrfptr->s.vertlocnnd; vertlocnum ++) {
+      Gnum               edgelocnum;
+
+      vertcmptab[vertlocnum - dgrfptr->s.baseval] = edgecmpnum + dgrfptr->s.baseval;
+      vendcmptab[vertlocnum - dgrfptr->s.baseval] = edgecmpnum + dgrfptr->s.baseval + (vendloctax[vertlocnum] - vertloctax[vertlocnum]);
+      for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vhndloctax[vertlocnum]; edgelocnum ++)
+        edgecmptab[edgecmpnum ++] = edgeloctax[edgelocnum];
+    }
+    vertcmptab[dgrfptr->s.vertlocnbr] = edgecmpnum + dgrfptr->s.baseval;
+
+    vertloctax = vertcmptab - dgrfptr->s.baseval;
+    vendloctax = vendcmptab - dgrfptr->s.baseval;
+    vhndloctax = vertloctax + 1;
+    edgeloctax = edgecmptab - dgrfptr->s.baseval;
+  }
+
+  if (cgrfptr != NULL) {
+    Gnum               vertnum;
     Gnum               edgenum;
+    Gnum               procglbnum;
 
-    if (cgrfptr != NULL) {
-      Gnum               vertnum;
+    cgrfptr->s.verttax[dgrfptr->s.baseval] = dgrfptr->s.baseval;
+    if (commGatherv (vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
+                     dgrfptr->s.vertlocnbr, GNUM_MPI,
+                     cgrfptr->s.verttax + 1,      /* First index will always be equal to baseval too, and procdsptab holds based values */
+                     dgrfptr->s.proccnttab, dgrfptr->s.procdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("hdgraphGather: communication error (3)");
+      return     (1);
+    }
+    if (commGatherv (vendloctax + dgrfptr->s.baseval,
+                     dgrfptr->s.vertlocnbr, GNUM_MPI, cgrfptr->vnhdtax, /* procdsptab holds based values */
+                     dgrfptr->s.proccnttab, dgrfptr->s.procdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("hdgraphGather: communication error (4)");
+      return     (1);
+    }
 
-      cgrfptr->s.verttax[dgrfptr->s.baseval] = dgrfptr->s.baseval;
-      if (commGatherv (dgrfptr->s.vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
-                       dgrfptr->s.vertlocnbr, GNUM_MPI,
-                       cgrfptr->s.verttax + 1,      /* First index will always be equal to baseval too, and procdsptab holds based values */
-                       dgrfptr->s.proccnttab, dgrfptr->s.procdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
-        errorPrint ("hdgraphGather: communication error (3)");
-        return     (1);
-      }
-      if (commGatherv (dgrfptr->s.vendloctax + dgrfptr->s.baseval,
-                       dgrfptr->s.vertlocnbr, GNUM_MPI, cgrfptr->vnhdtax, /* procdsptab holds based values */
-                       dgrfptr->s.proccnttab, dgrfptr->s.procdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
-        errorPrint ("hdgraphGather: communication error (4)");
-        return     (1);
-      }
+    for (procglbnum = 1, vertnum = dgrfptr->s.procdsptab[1] + 1; /* Adjust index sub-arrays for all processors except the first one */
+         procglbnum < dgrfptr->s.procglbnbr; procglbnum ++) {
+      Gnum               vertnnd;
+      Gnum               edgeadj;
 
-      for (procglbnum = 1, vertnum = dgrfptr->s.procdsptab[1] + 1; /* Adjust index sub-arrays for all processors except the first one */
-           procglbnum < dgrfptr->s.procglbnbr; procglbnum ++) {
-        Gnum               vertnnd;
-        Gnum               edgeadj;
-
-        for (vertnnd = dgrfptr->s.procdsptab[procglbnum + 1] + 1,
-             edgeadj = cgrfptr->s.verttax[vertnum - 1] - dgrfptr->s.baseval;
-             vertnum < vertnnd; vertnum ++) {
-          cgrfptr->s.verttax[vertnum]   += edgeadj;
-          cgrfptr->vnhdtax[vertnum - 1] += edgeadj;
-        }
+      for (vertnnd = dgrfptr->s.procdsptab[procglbnum + 1] + 1,
+           edgeadj = cgrfptr->s.verttax[vertnum - 1] - dgrfptr->s.baseval;
+           vertnum < vertnnd; vertnum ++) {
+        cgrfptr->s.verttax[vertnum]   += edgeadj;
+        cgrfptr->vnhdtax[vertnum - 1] += edgeadj;
       }
+    }
 
-      for (procglbnum = 0, edgenum = dgrfptr->s.baseval; /* Build arrays for MPI_Gatherv on edge arrays */
-           procglbnum < dgrfptr->s.procglbnbr; procglbnum ++) {
-        recvcnttab[procglbnum] = cgrfptr->s.verttax[dgrfptr->s.procdsptab[procglbnum + 1]] -
-                                 cgrfptr->s.verttax[dgrfptr->s.procdsptab[procglbnum]]; /* verttax used twice since centralized graph is compact */
-        recvdsptab[procglbnum] = edgenum;
-        edgenum += recvcnttab[procglbnum];
-      }
-      if (MPI_Gatherv (dgrfptr->s.edgeloctax + dgrfptr->s.baseval, /* Gather edge arrays with global vertex indices */
-                       (int) (dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr), GNUM_MPI, cgrfptr->s.edgetax,
-                       recvcnttab, recvdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
-        errorPrint ("hdgraphGather: communication error (5)");
-        return     (1);
-      }
+    for (procglbnum = 0, edgenum = dgrfptr->s.baseval; /* Build arrays for MPI_Gatherv on edge arrays */
+         procglbnum < dgrfptr->s.procglbnbr; procglbnum ++) {
+      recvcnttab[procglbnum] = cgrfptr->s.verttax[dgrfptr->s.procdsptab[procglbnum + 1]] -
+                               cgrfptr->s.verttax[dgrfptr->s.procdsptab[procglbnum]]; /* verttax used twice since centralized graph is compact */
+      recvdsptab[procglbnum] = edgenum;
+      edgenum += recvcnttab[procglbnum];
     }
-    else {
-      if (MPI_Gatherv (dgrfptr->s.vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
-                       (int) dgrfptr->s.vertlocnbr, GNUM_MPI, NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
-        errorPrint ("hdgraphGather: communication error (6)");
-        return     (1);
-      }
-      if (MPI_Gatherv (dgrfptr->s.vendloctax + dgrfptr->s.baseval,
-                       (int) dgrfptr->s.vertlocnbr, GNUM_MPI, NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
-        errorPrint ("hdgraphGather: communication error (7)");
-        return     (1);
-      }
-      if (MPI_Gatherv (dgrfptr->s.edgeloctax + dgrfptr->s.baseval, /* Gather edge arrays with global vertex indices */
-                       (int) (dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr), GNUM_MPI,
-                       NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
-        errorPrint ("hdgraphGather: communication error (8)");
-        return     (1);
-      }
+    if (MPI_Gatherv (edgeloctax + dgrfptr->s.baseval, /* Gather edge arrays with global vertex indices */
+                     (int) (dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr), GNUM_MPI, cgrfptr->s.edgetax,
+                     recvcnttab, recvdsptab, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("hdgraphGather: communication error (5)");
+      return     (1);
     }
   }
   else {
-    errorPrint ("hdgraphGather: Not implemented"); /* Not really necessary as all Hdgraph structures created by Scotch itself are compact */
-    return     (1);
+    if (MPI_Gatherv (vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
+                     (int) dgrfptr->s.vertlocnbr, GNUM_MPI, NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("hdgraphGather: communication error (6)");
+      return     (1);
+    }
+    if (MPI_Gatherv (vendloctax + dgrfptr->s.baseval,
+                     (int) dgrfptr->s.vertlocnbr, GNUM_MPI, NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("hdgraphGather: communication error (7)");
+      return     (1);
+    }
+    if (MPI_Gatherv (edgeloctax + dgrfptr->s.baseval, /* Gather edge arrays with global vertex indices */
+                     (int) (dgrfptr->s.edgelocnbr + dgrfptr->ehallocnbr), GNUM_MPI,
+                     NULL, NULL, NULL, GNUM_MPI, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
+      errorPrint ("hdgraphGather: communication error (8)");
+      return     (1);
+    }
   }
 
   memSet (verthaltax + dgrfptr->s.baseval, 0, dgrfptr->vhallocnbr * sizeof (Gnum)); /* Initialize halo end vertex count array */
   for (vertlocnum = dgrfptr->s.baseval; vertlocnum < dgrfptr->s.vertlocnnd; vertlocnum ++) {
     Gnum               edgelocnum;
 
-    for (edgelocnum = dgrfptr->s.vendloctax[vertlocnum]; edgelocnum < dgrfptr->vhndloctax[vertlocnum]; edgelocnum ++)
-      verthaltax[dgrfptr->s.edgeloctax[edgelocnum]] ++; /* One more edge to this halo vertex */
+    for (edgelocnum = vendloctax[vertlocnum]; edgelocnum < vhndloctax[vertlocnum]; edgelocnum ++)
+      verthaltax[edgeloctax[edgelocnum]] ++; /* One more edge to this halo vertex */
   }
   vhallocnbr = (int) dgrfptr->vhallocnbr;
   if (MPI_Gather (&vhallocnbr, 1, MPI_INT, recvcnttab, 1, MPI_INT, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) {
@@ -345,8 +380,8 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
   for (vertlocnum = dgrfptr->s.baseval; vertlocnum < dgrfptr->s.vertlocnnd; vertlocnum ++) { /* Collect halo edge ends */
     Gnum               edgelocnum;
 
-    for (edgelocnum = dgrfptr->s.vendloctax[vertlocnum]; edgelocnum < dgrfptr->vhndloctax[vertlocnum]; edgelocnum ++)
-      edgehaltax[verthaltax[dgrfptr->s.edgeloctax[edgelocnum]] ++] = vertlocnum + vertlocadj;
+    for (edgelocnum = vendloctax[vertlocnum]; edgelocnum < vhndloctax[vertlocnum]; edgelocnum ++)
+      edgehaltax[verthaltax[edgeloctax[edgelocnum]] ++] = vertlocnum + vertlocadj;
   }
   ehallocnbr = (int) dgrfptr->ehallocnbr;
   if (MPI_Gather (&ehallocnbr, 1, MPI_INT, recvcnttab, 1, MPI_INT, rootnum, dgrfptr->s.proccomm) != MPI_SUCCESS) { /* Gather halo edge counts */
@@ -377,6 +412,8 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
   }
 
   memFree (verthaltax + dgrfptr->s.baseval);      /* Free group leader */
+  if (vertcmptab != NULL)
+    memFree (vertcmptab);                         /* Free group leader */
 
   if (cgrfptr != NULL) {                          /* Finalize vertex and edge arrays of centralized graph */
     Gnum               vertnum;
-- 
2.43.0


From bc8466f6afb43c7f7fff0f30a1fe30d33d1905f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 148/158] fix: distributed ordering: handle graphs with holes
 in their global numbering

---
 src/libscotch/hdgraph_gather.c       | 21 +++++++++++++++++++++
 src/libscotch/library_dgraph_order.c | 17 +++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/libscotch/hdgraph_gather.c b/src/libscotch/hdgraph_gather.c
index 4c385ca..7370345 100644
--- a/src/libscotch/hdgraph_gather.c
+++ b/src/libscotch/hdgraph_gather.c
@@ -299,6 +299,27 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
       errorPrint ("hdgraphGather: communication error (5)");
       return     (1);
     }
+
+    if (dgrfptr->s.procdsptab[dgrfptr->s.procglbnbr] != /* If graph has holes, relabel end vertices */
+        dgrfptr->s.procvrttab[dgrfptr->s.procglbnbr]) {
+      for (vertnum = dgrfptr->s.baseval; vertnum < cgrfptr->vnohnnd; vertnum ++) {
+        for (edgenum = cgrfptr->s.verttax[vertnum]; edgenum < cgrfptr->vnhdtax[vertnum]; edgenum ++) {
+          Gnum               procngbmin;
+          Gnum               procngbmax;
+
+          for (procngbmin = 0, procngbmax = dgrfptr->s.procglbnbr; procngbmax - procngbmin > 1; ) {
+            Gnum               procngbnum;
+
+            procngbnum = (procngbmax + procngbmin) / 2;
+            if (dgrfptr->s.procvrttab[procngbnum] <= cgrfptr->s.edgetax[edgenum])
+              procngbmin = procngbnum;
+            else
+              procngbmax = procngbnum;
+          }
+          cgrfptr->s.edgetax[edgenum] += dgrfptr->s.procdsptab[procngbmin] - dgrfptr->s.procvrttab[procngbmin];
+        }
+      }
+    }
   }
   else {
     if (MPI_Gatherv (vertloctax + 1 + dgrfptr->s.baseval, /* Do not send first index, it is always equal to baseval */
diff --git a/src/libscotch/library_dgraph_order.c b/src/libscotch/library_dgraph_order.c
index 7e08b11..271c111 100644
--- a/src/libscotch/library_dgraph_order.c
+++ b/src/libscotch/library_dgraph_order.c
@@ -171,9 +171,11 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   Gnum * restrict     srclisttab;                 /* Subgraph vertex list         */
   const Strat *       ordstraptr;                 /* Pointer to ordering strategy */
   CONTEXTDECL        (libgrafptr);
+  Gnum * restrict     vnumloctab;                 /* Ordering indices of vertices */
   int                 o;
 
   o = 1;                                          /* Assume an error */
+  vnumloctab = NULL;
 
   if (CONTEXTINIT (libgrafptr)) {
     errorPrint (STRINGIFY (SCOTCH_dgraphOrderComputeList) ": cannot initialize context");
@@ -208,6 +210,19 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   srcgrafdat.levlnum      = 0;
   srcgrafdat.contptr      = CONTEXTGETDATA (libgrafptr);
 
+  if (srcgrafptr->procdsptab[srcgrafptr->procglbnbr] != /* If graph has holes, provide the contiguous indices */
+      srcgrafptr->procvrttab[srcgrafptr->procglbnbr]) { /* of vertices, since these are what orderings contain */
+    Gnum                vertlocnum;
+
+    if ((vnumloctab = memAlloc (srcgrafptr->vertlocnbr * sizeof (Gnum))) == NULL) {
+      errorPrint (STRINGIFY (SCOTCH_dgraphOrderComputeList) ": out of memory");
+      goto abort;
+    }
+    for (vertlocnum = 0; vertlocnum < srcgrafptr->vertlocnbr; vertlocnum ++)
+      vnumloctab[vertlocnum] = srcgrafptr->procdsptab[srcgrafptr->proclocnum] + vertlocnum;
+    srcgrafdat.s.vnumloctax = vnumloctab - srcgrafptr->baseval;
+  }
+
   srcordeptr = (Dorder *) libordeptr;             /* Get ordering */
 
   srclistnbr = (Gnum)   listnbr;                  /* Build vertex list */
@@ -224,6 +239,8 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   dorderDispose (srccblkptr);
 
 abort:
+  if (vnumloctab != NULL)
+    memFree (vnumloctab);
   CONTEXTEXIT (libgrafptr);
   return (o);
 }
-- 
2.43.0


From d5f682ea4c07e9ff838bf9fc8787c31e58111e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 149/158] fix: hdgraphOrderNd: dispose of unused column blocks
 of distributed leaves

---
 src/libscotch/hdgraph_order_nd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index dfd6785..f247ec0 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -332,7 +332,9 @@ const HdgraphOrderNdParam * restrict const  paraptr)
     memFree (vspgrafdat.fronloctab);
 
     o = hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    hdgraphExit (grafptr);                        /* Free graph at this level       */
+    if (grafptr->levlnum > 0)                     /* If intermediate level nested dissection graph */
+      dorderDispose (cblkptr);                    /* Dispose of column block node if not useful    */
+    hdgraphExit (grafptr);                        /* Free graph at this level                      */
     return (o);                                   /* Leaf has been processed        */
   }
 
-- 
2.43.0


From b1f24caf8d534196feac0bcc5c5a291eb8faf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:04 +0000
Subject: [PATCH 150/158] fix: dorderFree: reset local numbering of column
 blocks

---
 src/libscotch/dorder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/dorder.c b/src/libscotch/dorder.c
index f7f8afb..3f88893 100644
--- a/src/libscotch/dorder.c
+++ b/src/libscotch/dorder.c
@@ -138,6 +138,7 @@ Dorder * restrict const     ordeptr)
 
   ordeptr->linkdat.nextptr =                      /* Loop double-chained list */
   ordeptr->linkdat.prevptr = &ordeptr->linkdat;
+  ordeptr->cblklocnbr = 0;                        /* Restart local numbering of blocks */
 }
 
 /* This routine frees the contents
-- 
2.43.0


From fd91970e29c32a27e45a69d88fbef92ba5505e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:02 +0000
Subject: [PATCH 151/158] fix: distributed ordering output: do not overflow
 label array of based graphs

---
 src/libscotch/dorder_io.c      | 2 +-
 src/libscotch/dorder_io_tree.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/dorder_io.c b/src/libscotch/dorder_io.c
index bc23b26..6398c70 100644
--- a/src/libscotch/dorder_io.c
+++ b/src/libscotch/dorder_io.c
@@ -142,7 +142,7 @@ FILE * restrict const         stream)
 
   if (grafptr->vlblloctax != NULL) {
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltax - grafptr->baseval, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) { /* Displacements are based */
       errorPrint ("dorderSave: communication error (3)");
       return (1);
     }
diff --git a/src/libscotch/dorder_io_tree.c b/src/libscotch/dorder_io_tree.c
index f40fd19..6ac5640 100644
--- a/src/libscotch/dorder_io_tree.c
+++ b/src/libscotch/dorder_io_tree.c
@@ -128,7 +128,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
     if (cheklocval != 0)
       return (1);
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltab, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltab - grafptr->baseval, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSaveTree2: communication error (3)");
       return     (1);
     }
@@ -148,7 +148,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
   if (protnum == ordeptr->proclocnum) {
     cheklocval = dorderGather (ordeptr, &corddat); /* Need inverse permutation too */
     if (cheklocval == 0)
-      cheklocval = funcptr (&corddat, vlbltab, stream);
+      cheklocval = funcptr (&corddat, (vlbltab != NULL) ? (vlbltab - ordeptr->baseval) : NULL, stream);
     orderExit (&corddat);
   }
   else
-- 
2.43.0


From daac56ae917465b9642a08844cedda6ffff20e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 152/158] fix: dgraphCorderInit: recognize unused arrays when
 the graph is bound to a context

---
 src/libscotch/library_dgraph_order_gather.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/library_dgraph_order_gather.c b/src/libscotch/library_dgraph_order_gather.c
index 0b084d3..1c651f7 100644
--- a/src/libscotch/library_dgraph_order_gather.c
+++ b/src/libscotch/library_dgraph_order_gather.c
@@ -99,11 +99,11 @@ SCOTCH_Num * const          treetab)              /*+ Separator tree array
 
   srcgrafptr = (Dgraph *) CONTEXTOBJECT (grafptr); /* Use structure as distributed source graph */
   libcordptr = (LibOrder *) cordptr;
-  libcordptr->permtab = ((permtab == NULL) || ((void *) permtab == (void *) srcgrafptr)) ? NULL : (Gnum *) permtab;
-  libcordptr->peritab = ((peritab == NULL) || ((void *) peritab == (void *) srcgrafptr)) ? NULL : (Gnum *) peritab;
-  libcordptr->cblkptr = ((cblkptr == NULL) || ((void *) cblkptr == (void *) srcgrafptr)) ? NULL : (Gnum *) cblkptr;
-  libcordptr->rangtab = ((rangtab == NULL) || ((void *) rangtab == (void *) srcgrafptr)) ? NULL : (Gnum *) rangtab;
-  libcordptr->treetab = ((treetab == NULL) || ((void *) treetab == (void *) srcgrafptr)) ? NULL : (Gnum *) treetab;
+  libcordptr->permtab = ((permtab == NULL) || ((void *) permtab == (void *) grafptr)) ? NULL : (Gnum *) permtab;
+  libcordptr->peritab = ((peritab == NULL) || ((void *) peritab == (void *) grafptr)) ? NULL : (Gnum *) peritab;
+  libcordptr->cblkptr = ((cblkptr == NULL) || ((void *) cblkptr == (void *) grafptr)) ? NULL : (Gnum *) cblkptr;
+  libcordptr->rangtab = ((rangtab == NULL) || ((void *) rangtab == (void *) grafptr)) ? NULL : (Gnum *) rangtab;
+  libcordptr->treetab = ((treetab == NULL) || ((void *) treetab == (void *) grafptr)) ? NULL : (Gnum *) treetab;
 
   return (orderInit (&libcordptr->o, srcgrafptr->baseval, srcgrafptr->vertglbnbr, libcordptr->peritab));
 }
-- 
2.43.0


From 63a8d5b79b224babe2b846c3b8963abac31321cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:00 +0000
Subject: [PATCH 153/158] fix: vdgraphSeparateDf: accept isolated vertices in
 band graphs

---
 src/libscotch/vdgraph_separate_df.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/vdgraph_separate_df.c b/src/libscotch/vdgraph_separate_df.c
index dfb5454..3433cd6 100644
--- a/src/libscotch/vdgraph_separate_df.c
+++ b/src/libscotch/vdgraph_separate_df.c
@@ -168,13 +168,10 @@ const VdgraphSeparateDfParam * const  paraptr)    /*+ Method parameters +*/
 
   for (vertlocnum = grafptr->s.baseval, vanclocnnd = grafptr->s.vertlocnnd - 2; /* Do not account for anchor vertices in diffusion computations */
        vertlocnum < vanclocnnd; vertlocnum ++) {
-#ifdef SCOTCH_DEBUG_VDGRAPH2
-    if ((grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum]) == 0) {
-      errorPrint ("vdgraphSeparateDf: internal error (1)");
-      return     (1);
-    }
-#endif /* SCOTCH_DEBUG_VDGRAPH2 */
-    ielsloctax[vertlocnum] = 1.0F / (float) (grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum]);
+    Gnum                degrval;
+
+    degrval = grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum];
+    ielsloctax[vertlocnum] = 1.0F / (float) MAX (degrval, 1); /* Separator vertices of original graph may be isolated */
     difogsttax[vertlocnum] = 0.0F;
   }
   ielsloctax[vanclocnnd]     = 1.0F / (float) reduglbtab[0];
-- 
2.43.0


From 8b0c953df615fe2816d5e5b4a6db9142e9939b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 154/158] fix: hgraphOrderKp: do not create a node with a
 single column block

---
 src/libscotch/hgraph_order_kp.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 72bd514..f7c292c 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -159,16 +159,22 @@ const HgraphOrderKpParam * restrict const paraptr)
     }
   }
 
-  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
-  cblkptr->cblknbr = cblknbr;
+  if (cblknbr < 2) {                              /* If block could not be split */
+    memFree (cblkptr->cblktab);
+    cblkptr->cblktab = NULL;
+  }
+  else {
+    cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
+    cblkptr->cblknbr = cblknbr;
 #ifdef SCOTCH_PTHREAD
-  pthread_mutex_lock (&ordeptr->mutedat);
+    pthread_mutex_lock (&ordeptr->mutedat);
 #endif /* SCOTCH_PTHREAD */
-  ordeptr->treenbr += cblknbr;                    /* These more number of tree nodes    */
-  ordeptr->cblknbr += cblknbr - 1;                /* These more number of column blocks */
+    ordeptr->treenbr += cblknbr;                    /* These more number of tree nodes    */
+    ordeptr->cblknbr += cblknbr - 1;                /* These more number of column blocks */
 #ifdef SCOTCH_PTHREAD
-  pthread_mutex_unlock (&ordeptr->mutedat);
+    pthread_mutex_unlock (&ordeptr->mutedat);
 #endif /* SCOTCH_PTHREAD */
+  }
 
   peritab = ordeptr->peritab;
   if (grafptr->s.vnumtax == NULL) {               /* If graph is original graph */
-- 
2.43.0


From 22cf3eebcbdbfcad743ba412f7eacbfb9a3a1ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:52 +0000
Subject: [PATCH 155/158] fix: vdgraphStore: save and restore local part loads

---
 src/libscotch/vdgraph.h       | 1 +
 src/libscotch/vdgraph_store.c | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/libscotch/vdgraph.h b/src/libscotch/vdgraph.h
index bfa083b..967aa15 100644
--- a/src/libscotch/vdgraph.h
+++ b/src/libscotch/vdgraph.h
@@ -76,6 +76,7 @@ typedef struct VdgraphStore_ {
   Gnum                      compglbloaddlt;       /*+ Difference from the average       +*/
   Gnum                      compglbload[2];       /*+ Load in both parts                +*/
   Gnum                      compglbsize0;         /*+ Number of vertices in part 0      +*/
+  Gnum                      complocload[2];       /*+ Local loads of both parts                                        +*/
   Gnum                      complocsize0;         /*+ Number of vertices in parts       +*/
   Gnum                      fronlocnbr;           /*+ Number of local frontier vertices +*/
   byte *                    datatab;              /*+ Variable-sized data array         +*/
diff --git a/src/libscotch/vdgraph_store.c b/src/libscotch/vdgraph_store.c
index 5c227e8..9a8f5ba 100644
--- a/src/libscotch/vdgraph_store.c
+++ b/src/libscotch/vdgraph_store.c
@@ -119,6 +119,8 @@ VdgraphStore * const        storptr)
   storptr->compglbload[0] = grafptr->compglbload[0];
   storptr->compglbload[1] = grafptr->compglbload[1];
   storptr->compglbsize0   = grafptr->compglbsize[0];
+  storptr->complocload[0] = grafptr->complocload[0];
+  storptr->complocload[1] = grafptr->complocload[1];
   storptr->complocsize0   = grafptr->complocsize[0];
   storptr->fronlocnbr     = grafptr->complocsize[2];
 
@@ -150,6 +152,9 @@ const VdgraphStore * const  storptr)
   grafptr->compglbsize[0] = storptr->compglbsize0;
   grafptr->compglbsize[1] = grafptr->s.vertglbnbr - (storptr->compglbsize0 + storptr->fronglbnbr);
   grafptr->compglbsize[2] = storptr->fronglbnbr;
+  grafptr->complocload[0] = storptr->complocload[0];
+  grafptr->complocload[1] = storptr->complocload[1];
+  grafptr->complocload[2] = grafptr->s.velolocsum - (storptr->complocload[0] + storptr->complocload[1]);
   grafptr->complocsize[0] = storptr->complocsize0;
   grafptr->complocsize[1] = grafptr->s.vertlocnbr - (storptr->complocsize0 + storptr->fronlocnbr);
   grafptr->complocsize[2] = storptr->fronlocnbr;
-- 
2.43.0


From d7d72ec22d7da7950a2e4af411c47e2893568ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 156/158] fix: ParMETIS_V3_PartKway: convert part weights
 accurately and without overflow

---
 src/libscotchmetis/parmetis_dgraph_part.c | 54 ++++++++++-------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_part.c b/src/libscotchmetis/parmetis_dgraph_part.c
index c30a5c6..4286d85 100644
--- a/src/libscotchmetis/parmetis_dgraph_part.c
+++ b/src/libscotchmetis/parmetis_dgraph_part.c
@@ -66,13 +66,15 @@
 /*                                  */
 /************************************/
 
-/* This routine converts an array of doubles
+/* This routine converts an array of floats
 ** into an array of proportionate integers.
 ** It returns:
 ** - void  : in all cases.
 */
 
-#define EPSILON 1e-6F
+#define EPSILON 1e-4
+#define FLOTADJMAX 1000.0                         /* Maximum exact renormalization factor to search for */
+#define FLOTSUMMAX 1.0e8                          /* Sum of integer weights when values are approximated */
 
 static
 void
@@ -81,40 +83,32 @@ const SCOTCH_Num            valunbr,
 const float * const         flottab,
 SCOTCH_Num * const          intetab)
 {
-  SCOTCH_Num          inteold;                    /* Previous value to avoid recomputing things */
-  float               flotold;                    /* Previous value to avoid recomputing things */
-  float               flotadj;
+  double              flotadj;
+  double              flotsum;
   SCOTCH_Num          i;
 
-  flotold = -1.0F;                                /* No previous value yet */
-  for (i = 0, flotadj = 1.0; i < valunbr; i ++) {
-    float               flotval;
-    float               flottmp;
-
-    flotval = flottab[i];
-    if (flotval == flotold)                       /* Skip if same value */
-      continue;
-
-    flotold  = flotval;                           /* Remember old value                        */
-    flotval *= flotadj;                           /* See if renormalization factor works       */
-    flottmp  = flotval - floorf (flotval + EPSILON); /* Determine its possible fractional part */
-    if (fabs (flottmp) >= EPSILON) {              /* If a residual fractional part exists      */
-      flottmp = flotadj / flottmp;                /* Incorporate it in renormalization factor  */
-      flotadj = (flotadj * flottmp) / (float) intGcd ((SCOTCH_Num) round (flotadj), (SCOTCH_Num) round (flottmp));
+  for (i = 0, flotsum = 0.0; i < valunbr; i ++)
+    flotsum += (double) flottab[i];
+
+  for (flotadj = 1.0; flotadj <= FLOTADJMAX; flotadj += 1.0) { /* Search for small exact renormalization factor */
+    for (i = 0; i < valunbr; i ++) {
+      double              flotval;
+
+      flotval = (double) flottab[i] * flotadj;
+      if ((flotval < 0.5) ||                      /* If weight would be zero or if residual fractional part exists */
+          (fabs (flotval - round (flotval)) >= EPSILON))
+        break;
     }
+    if (i >= valunbr)                             /* If factor suits all values */
+      break;
   }
+  if (flotadj > FLOTADJMAX)                       /* If none found, use factor that yields enough precision */
+    flotadj = FLOTSUMMAX / flotsum;
 
-  flotold = -1.0F;                                /* No previous value yet */
-  inteold = 0;
   for (i = 0; i < valunbr; i ++) {
-    float               flotval;
-
-    flotval = flottab[i];
-    if (flotval != flotold) {                     /* If not same value  */
-      flotold = flotval;                          /* Remember old value */
-      inteold = (SCOTCH_Num) round (flotval * flotadj);
-    }
-    intetab[i] = inteold;
+    intetab[i] = (SCOTCH_Num) round ((double) flottab[i] * flotadj);
+    if (intetab[i] < 1)                           /* Integer weights must be strictly positive */
+      intetab[i] = 1;
   }
 }
 
-- 
2.43.0


From a42b2caea5939b369313886a707d26621e9caa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 157/158] fix: ParMETIS_V3_PartKway: report errors of
 partitioning

---
 src/libscotchmetis/parmetis_dgraph_part.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_part.c b/src/libscotchmetis/parmetis_dgraph_part.c
index 4286d85..dc959ad 100644
--- a/src/libscotchmetis/parmetis_dgraph_part.c
+++ b/src/libscotchmetis/parmetis_dgraph_part.c
@@ -143,6 +143,7 @@ MPI_Comm *                  commptr)
   SCOTCH_Num          edgelocnbr;
   SCOTCH_Num *        edloloctab;
   SCOTCH_Num *        twintab;                    /* Integer array of target weights                               */
+  int                 o;
 
   if ((twintab = malloc (*nparts * sizeof (SCOTCH_Num))) == NULL)
     return (METIS_ERROR_MEMORY);
@@ -163,6 +164,7 @@ MPI_Comm *                  commptr)
   edloloctab = ((adjwgt != NULL) && ((*wgtflag & 1) != 0)) ? adjwgt : NULL;
 
   *edgecut = 0;
+  o = METIS_ERROR;                                /* Assume something will go wrong */
 
   if (SCOTCH_dgraphBuild (&grafdat, baseval,
                           vertlocnbr, vertlocnbr, xadj, xadj + 1, veloloctab, NULL,
@@ -178,11 +180,12 @@ MPI_Comm *                  commptr)
           (SCOTCH_dgraphMapInit (&grafdat, &mappdat, &archdat, part) == 0)) {
         SCOTCH_Num          cdsttab[256];         /* Communication load histogram */
 
-        SCOTCH_dgraphMapCompute (&grafdat, &mappdat, &stradat);
-
-        SCOTCH_dgraphMapStat (&grafdat, &mappdat, NULL, NULL, NULL, NULL, NULL, NULL,
-                              NULL, NULL, NULL, NULL, cdsttab, NULL, NULL, NULL);
-        *edgecut = cdsttab[1];                    /* For mapping onto complete graphs, distance 1 is the cut */
+        if ((SCOTCH_dgraphMapCompute (&grafdat, &mappdat, &stradat) == 0) &&
+            (SCOTCH_dgraphMapStat (&grafdat, &mappdat, NULL, NULL, NULL, NULL, NULL, NULL,
+                                   NULL, NULL, NULL, NULL, cdsttab, NULL, NULL, NULL) == 0)) {
+          *edgecut = cdsttab[1];                  /* For mapping onto complete graphs, distance 1 is the cut */
+          o = METIS_OK;
+        }
 
         SCOTCH_dgraphMapExit (&grafdat, &mappdat);
       }
@@ -194,14 +197,14 @@ MPI_Comm *                  commptr)
 
   free (twintab);
 
-  if (baseval != 0) {                             /* MeTiS part array is based, Scotch is not */
+  if ((o == METIS_OK) && (baseval != 0)) {        /* MeTiS part array is based, Scotch is not */
     SCOTCH_Num          vertlocnum;
 
     for (vertlocnum = 0; vertlocnum < vertlocnbr; vertlocnum ++)
       part[vertlocnum] += baseval;
   }
 
-  return (METIS_OK);
+  return (o);
 }
 
 /*
-- 
2.43.0


From b8487ba7c6dea34c772cd1a10a7fe41ea5a190cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 158/158] fix: ParMETIS_V3_NodeND: return success when the
 number of processes is not a power of two, and report ordering errors

---
 src/libscotchmetis/parmetis_dgraph_order.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_order.c b/src/libscotchmetis/parmetis_dgraph_order.c
index 731d06c..0d660e3 100644
--- a/src/libscotchmetis/parmetis_dgraph_order.c
+++ b/src/libscotchmetis/parmetis_dgraph_order.c
@@ -147,16 +147,18 @@ MPI_Comm *                  commptr)
         SCOTCH_Num          bitsnbr;
         SCOTCH_Num          proctmp;
 
-        SCOTCH_dgraphOrderCompute (&grafdat, &ordedat, &stradat);
-        SCOTCH_dgraphOrderPerm    (&grafdat, &ordedat, order);
+        if ((SCOTCH_dgraphOrderCompute (&grafdat, &ordedat, &stradat) == 0) &&
+            (SCOTCH_dgraphOrderPerm    (&grafdat, &ordedat, order)    == 0))
+          o = METIS_OK;
 
         for (levlmax = -1, bitsnbr = 0, proctmp = procglbnbr; /* Count number of bits set to 1 in procglbnbr */
              proctmp != 0; levlmax ++, proctmp >>= 1)
           bitsnbr += proctmp & 1;
 
-        if (bitsnbr == 1) {
+        if ((o == METIS_OK) && (bitsnbr == 1) && (sizes != NULL)) { /* If separator sizes have to be computed */
           SCOTCH_Num          cblkglbnbr;
 
+          o = METIS_ERROR;                        /* Assume something will go wrong */
           if ((cblkglbnbr = SCOTCH_dgraphOrderCblkDist (&grafdat, &ordedat)) >= 0) {
             SCOTCH_Num *        treeglbtab;
             SCOTCH_Num *        sizeglbtab;
@@ -203,7 +205,7 @@ MPI_Comm *                  commptr)
                   }
                 }
 
-                if ((rootnum >= 0) && (sizes != NULL)) { /* If no error above, go on processing separator tree         */
+                if (rootnum >= 0) {               /* If no error above, go on processing separator tree         */
                   memSet (sizes, 0, (2 * procglbnbr - 1) * sizeof (SCOTCH_Num)); /* Set array of sizes to 0 by default */
                   _SCOTCH_ParMETIS_V3_NodeNDTree (sizes + (2 * procglbnbr - 1), sizeglbtab, sepaglbtab, levlmax, 0, rootnum, 1);
                   o = METIS_OK;
-- 
2.43.0

