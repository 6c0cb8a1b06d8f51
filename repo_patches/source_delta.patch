From 12c2de611cd0400fd051d1fd8ae9fc0068f01cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 01/39] fix: keep traditional edge weights with their edge when
 the edge list is grouped by source

---
 agi/agiConstruct.cpp | 52 +++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..d5b52ac 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -221,6 +221,9 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    if (!isHyperGraph)
+      edge_weights[t] = new wgt_t[num_local_edges[t]];
+
     //Loop through edges again to build the edge lists
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
@@ -239,21 +242,26 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //Edges are numbered by source so the weight follows the edge
+            edge_weights[t][temp_counts[u]] = e_weights.size()==0 ? 1 : e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[edge_ids.size()];
-    if (e_weights.size()==0)
-      for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<(lid_t)e_weights.size();i++)
-        edge_weights[t][i] = e_weights[i];
+    //Set the weights of the edges (traditional mode set them with the edge list)
+    if (isHyperGraph) {
+      edge_weights[t] = new wgt_t[edge_ids.size()];
+      if (e_weights.size()==0)
+        for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
+          edge_weights[t][i] = 1;
+      else
+        for (lid_t i=0;i<(lid_t)e_weights.size();i++)
+          edge_weights[t][i] = e_weights[i];
+    }
 
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
@@ -329,6 +337,9 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    if (!isHyperGraph)
+      edge_weights[t] = new wgt_t[num_local_edges[t]];
+
     for (lid_t i=0;i<num_edges;i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
@@ -344,21 +355,26 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //Edges are numbered by source so the weight follows the edge
+            edge_weights[t][temp_counts[u]] = e_weights ? e_weights[i] : 1;
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[num_edges];
-    if (!e_weights)
-      for (lid_t i=0;i<num_edges;i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<num_edges;i++)
-        edge_weights[t][i] = e_weights[i];
+    //Set the weights of the edges (traditional mode set them with the edge list)
+    if (isHyperGraph) {
+      edge_weights[t] = new wgt_t[num_edges];
+      if (!e_weights)
+        for (lid_t i=0;i<num_edges;i++) 
+          edge_weights[t][i] = 1;
+      else
+        for (lid_t i=0;i<num_edges;i++)
+          edge_weights[t][i] = e_weights[i];
+    }
 
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
-- 
2.43.0


From e761d8772f68c7dbedd7c4960da8da33d9a85523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 02/39] fix: create ghost weights in the array overload of
 constructGhosts

---
 agi/agiConstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index d5b52ac..2269ba6 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -481,6 +481,11 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 5ae70485a5b97c0b0964c38bff6eb7daabfde352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 03/39] fix: migrate the edges of every edge type, not only of
 the first

---
 agi/agiMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..8b12939 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -77,7 +77,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From 11b52f1e60cbae5d3bee9889886ef97a458feffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 04/39] fix: keep traditional edges whose destination migrates
 while the source stays

---
 agi/agiMigrate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 8b12939..0e122ca 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -127,10 +127,13 @@ namespace agi {
     while ((e = g->iterate(itr))) {
       agi::PinIterator* pitr = g->pins(e);
       agi::GraphVertex* end;
+      //In traditional mode the edge only moves with its source (the first pin)
       while ((end=g->iterate(pitr)))
-        if (plan->has(end))
+        if (plan->has(end) || !g->isHyper())
           break;
       g->destroy(pitr);
+      if (end && !plan->has(end))
+        end = NULL;
       if (!end) {
         //Add the Edge
         gid_t gid = g->globalID(e);
@@ -143,6 +146,8 @@ namespace agi {
           gid_t other_gid = g->globalID(end);
           pins.push_back(other_gid);
           part_t owner = g->owner(end);
+          if (plan->has(end))
+            owner = plan->get(end);
 
           if (owner!=PCU_Comm_Self()) 
             ghost_owners[other_gid] = owner;          
-- 
2.43.0


From c70017948b5b63b2266c9d3adc06f3aec9b5c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 05/39] fix: tell every process holding a ghost copy where a
 migrating vertex goes

---
 agi/agiMigrate.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 0e122ca..080fe8f 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -25,22 +25,29 @@ namespace agi {
   }
 
   void Ngraph::updateGhostOwners(Migration* plan) {
+    //Ask the owner of each ghost vertex whether the vertex is leaving. The
+    //  owner cannot know all copies since edges of any type or direction make them
     PCU_Comm_Begin();
-    Migration::iterator itr;
-    for (itr = plan->begin();itr!=plan->end();itr++) {
-      GraphVertex* v = *itr;
+    GraphVertex* v;
+    GhostIterator* gitr = beginGhosts();
+    while ((v = iterate(gitr))) {
       gid_t gid = globalID(v);
-      part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
-        }
-      }
-      destroy(gitr);
+      PCU_COMM_PACK(owner(v),gid);
+    }
+    PCU_Comm_Send();
+    std::vector<std::pair<part_t, gid_t> > leaving;
+    while (PCU_Comm_Receive()) {
+      gid_t gid;
+      PCU_COMM_UNPACK(gid);
+      if (plan->has(findGID(gid)))
+        leaving.push_back(std::make_pair(PCU_Comm_Sender(),gid));
+    }
+    PCU_Comm_Begin();
+    for (size_t i = 0; i < leaving.size(); i++) {
+      gid_t gid = leaving[i].second;
+      part_t toSend = plan->get(findGID(gid));
+      PCU_COMM_PACK(leaving[i].first,gid);
+      PCU_COMM_PACK(leaving[i].first,toSend);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
-- 
2.43.0


From be23e5117a47ffd0a21659cedf41c9f4ffcb538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 06/39] fix: visit both pins of a self loop

---
 agi/agiIterate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..1c5e3e0 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -82,9 +82,9 @@ namespace agi {
     }
     else {
       GraphVertex* vtx = reinterpret_cast<GraphVertex*>(itr->loc);
-      if (itr->loc==itr->end)
-        itr->end=NULL;
+      //The second pin may be the same vertex as the first (self loop)
       itr->loc=itr->end;
+      itr->end=NULL;
       return vtx;
     }
   }
-- 
2.43.0


From b6354fb6dc5e044030d150cf128f3ae4c5cb5643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 07/39] fix: vev and eve adjacency use the requested edge type

---
 agi/agiConstruct.cpp | 8 ++++----
 agi/agiIterate.cpp   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 2269ba6..1cbbfa1 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -651,7 +651,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -672,7 +672,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -710,7 +710,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -739,7 +739,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index 1c5e3e0..432685b 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -122,7 +122,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From ef48374880df3cc419ba673f61c0bd76fcb33791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 08/39] fix: weight migration adds received weight to the
 receiving vertex

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From e739ddea457b342b197f54bca692f07915250912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 09/39] fix: clearing a weight migration resets its size

---
 agi/agiWeightMigration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiWeightMigration.cpp b/agi/agiWeightMigration.cpp
index 3f12858..013a449 100644
--- a/agi/agiWeightMigration.cpp
+++ b/agi/agiWeightMigration.cpp
@@ -30,6 +30,7 @@ namespace agi {
 
   void WeightMigration::clear() {
     sending.clear();
+    s = 0;
   }
 
   WeightMigration::iterator WeightMigration::begin() const {
-- 
2.43.0


From d96fe6a3af2bc8e5fd3fd696c91e8f9632a0fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 10/39] fix: learn the weight of a neighbour that is reached by
 one-directional cut edges only

---
 partition/Diffusive/src/engpar_weights.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/partition/Diffusive/src/engpar_weights.h b/partition/Diffusive/src/engpar_weights.h
index 23349d9..4fc8868 100644
--- a/partition/Diffusive/src/engpar_weights.h
+++ b/partition/Diffusive/src/engpar_weights.h
@@ -1,6 +1,7 @@
 #ifndef ENGPAR_WEIGHTS_H
 #define ENGPAR_WEIGHTS_H
 
+#include <vector>
 #include <engpar_metrics.h>
 #include "engpar_container.h"
 #include "engpar_sides.h"
@@ -21,6 +22,21 @@ namespace engpar {
       for (itr=s->begin();itr!=s->end();itr++) 
         PCU_COMM_PACK(itr->first,myWeight());
       PCU_Comm_Send();
+      std::vector<int> oneSided;
+      while (PCU_Comm_Listen()) {
+        double otherWeight;
+        PCU_COMM_UNPACK(otherWeight);
+        set(PCU_Comm_Sender(),otherWeight);
+        if (!s->has(PCU_Comm_Sender()))
+          oneSided.push_back(PCU_Comm_Sender());
+      }
+
+      //A directed cut edge makes a side on its source only, so the other part
+      //  has to answer to make its weight known
+      PCU_Comm_Begin();
+      for (unsigned int i=0;i<oneSided.size();i++)
+        PCU_COMM_PACK(oneSided[i],myWeight());
+      PCU_Comm_Send();
       while (PCU_Comm_Listen()) {
         double otherWeight;
         PCU_COMM_UNPACK(otherWeight);
-- 
2.43.0


From 40d62c036a922ecf857302e08bcc61e534610b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 11/39] fix: part weight targets only go to neighbours that may
 receive

---
 partition/Diffusive/src/engpar_targets.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index 7c74ea0..dd86bbf 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -49,17 +49,17 @@ namespace engpar {
         }
         if (!canSend)
           continue;
-        agi::WeightPartitionMap::iterator itr;
-        for (itr = wp_map->begin(); itr != wp_map->end(); itr++) {
+        agi::WeightPartitionMap::iterator wp_itr;
+        for (wp_itr = wp_map->begin(); wp_itr != wp_map->end(); wp_itr++) {
           std::unordered_map<agi::gid_t,agi::wgt_t>::iterator inner_itr;
-          for (inner_itr = itr->second.begin(); inner_itr != itr->second.end(); inner_itr++) {
-            part_t neighbor = inner_itr->first;
-            wgt_t diff = inner_itr->second;
-            wgt_t sideFraction = s->get(neighbor);
-            sideFraction /= s->total();
-            wgt_t scaledW = diff * sideFraction;
-            set(neighbor,scaledW);
-          }
+          inner_itr = wp_itr->second.find(neighbor);
+          if (inner_itr == wp_itr->second.end())
+            continue;
+          wgt_t diff = inner_itr->second;
+          wgt_t sideFraction = itr->second;
+          sideFraction /= s->total();
+          wgt_t scaledW = diff * sideFraction;
+          set(neighbor,scaledW);
         }
       }
     }
-- 
2.43.0


From f972493beec7581b77e38bebfc061ac7f604c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 12/39] fix: distance queue of a part with few edges and no
 neighbours stays within its edges

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..95376b6 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -255,9 +255,9 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
+    //If there are no part boundaries use edge 2 (if it exists) for the seed
     if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
+       in1->seeds[in1->numSeeds++] = pg->num_local_edges[t] > 2 ? 2 : 0;
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From 72078e7b6bc97c193d5684a35e141353ef9046e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 13/39] fix: distances of an earlier traversal do not index the
 sets of the next one

---
 partition/Diffusive/src/engpar_queue.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 95376b6..fcfda8a 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -128,6 +128,9 @@ namespace engpar {
       return true;
     }
     int l2 = i->labels[dest];
+    //Edges of an earlier traversal are not part of these disjoint sets
+    if (l2==-1)
+      return false;
     while(l2!=i->parents[l2]) 
       l2=i->parents[l2];
     if (label!=l2) {
@@ -370,6 +373,8 @@ namespace engpar {
       bfsSort(in2->seeds,start_seed,in2->numSeeds-1,in2->visited);
       
       //Cleanup disjoint sets
+      for (agi::lid_t i=start_seed;i<in2->numSeeds;i++)
+        in2->labels[in2->seeds[i]] = -1;
       delete [] in2->parents;
       in2->parents = NULL;
       delete [] in2->set_size;
-- 
2.43.0


From 55cd33c7d8dbee7578628ce20ebbe76b9e3d95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 14/39] fix: evaluatePartition averages every metric and
 accepts names of any length

---
 partition/engpar.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..ba77b60 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -97,11 +97,11 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
-      char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      std::string prefixStr = std::string("PARTITION ")+name;
+      const char* prefix = prefixStr.c_str();
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -112,11 +112,9 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
-        EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
+        EnGPar_Status_Message("%s: Edges type %d: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",prefix,i,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
-        EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
+        EnGPar_Status_Message("%s: Edges type %d Cut: <max,tot> %.3f %.3f\n", prefix,i,
                               max[5+i*2], total[5+i*2]);
 
       }
-- 
2.43.0


From c08e5a4f94a3f899fc33d00a08ab9dee388c6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 15/39] fix: processes sharing equally many edges with a cavity
 are all considered

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..e3fcc0c 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -84,14 +84,14 @@ namespace engpar {
     }
 
     //Reverse the Peer Map
-    std::map<agi::lid_t, agi::part_t> edges_to_part;
+    std::multimap<agi::lid_t, agi::part_t> edges_to_part;
     Peer_Map::iterator itr;
     for (itr = peerMap.begin(); itr != peerMap.end(); itr++)
       edges_to_part.insert(std::make_pair(itr->second.size(),itr->first));
     
     //Order the peers by largest surface area with cavity
     //  Iterate map backwards
-    std::map<agi::lid_t, agi::part_t>::iterator etp_itr;
+    std::multimap<agi::lid_t, agi::part_t>::iterator etp_itr;
     for (etp_itr = edges_to_part.end(); etp_itr != edges_to_part.begin();) {
       --etp_itr;
       peers.push_back(etp_itr->second);
-- 
2.43.0


From f757b5cc758f471ff6dca9af2fab6eb86cecbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 16/39] fix: an emptied cavity is not sent to a process that
 does not exist

---
 partition/Diffusive/src/engpar_selector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index e3fcc0c..9835936 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -233,6 +233,8 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers);
+      if (peers.empty())
+        continue;
       if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
-- 
2.43.0


From 705b610c7d7ede4597ab5e4df07c841bd7126758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 17/39] fix: cavities of a hundred vertices and more do not
 overrun an unused table

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 9835936..d2b6719 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -28,16 +28,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From 8f068e7910a6e2c366291ea66a04b34f09969871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 18/39] fix: any number of completed criteria can be trimmed

---
 partition/Diffusive/src/engpar_selector.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index d2b6719..bd874c1 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -271,11 +271,10 @@ namespace engpar {
   }
   struct Migr {
     Migr(int i) :
-      id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+      id(i) {}
+    void addWeight(double w) {ws.push_back(w);}
     int id;
-    double ws[5];
-    int edge_types;
+    std::vector<double> ws;
   };
   struct CompareMigr {
     //sort by part first completed edge type weights
-- 
2.43.0


From 2fb7e9c9dc939a04dc3a13bc9481e5afbe76119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 19/39] fix: ParMETIS is handed the edges between the local
 vertices on every process

---
 partition/Multilevel/engpar_parmetis.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index f97764b..b13f4c5 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -57,11 +57,10 @@ namespace engpar {
         while ((other = g->iterate(pitr))) {
           if (other==vtx)
             continue;
-          agi::part_t owner = g->owner(other);
-          if (!isLocal || owner ==input->self)
+          if (!isLocal || g->localID(other)<g->numLocalVtxs())
             neighbors[other]=1;
           if (!isLocal)
-            res.insert(owner);
+            res.insert(g->owner(other));
         }
         g->destroy(pitr);
       }
@@ -109,7 +108,7 @@ namespace engpar {
       g->destroy(gitr);
       for (VertexSet::iterator vsItr = neighbors.begin(); vsItr != neighbors.end(); vsItr++) {
         agi::GraphVertex* other = vsItr->first;
-        if (g->owner(other)==input->self) {
+        if (g->localID(other)<g->numLocalVtxs()) {
           agi::lid_t lidv = g->localID(other);
           adjncy[deg] = gids[lidv]; 
           ewgts[deg++] = vsItr->second;
-- 
2.43.0


From c4fe0ca515c86ad7954130ae0e1aa920a6b47043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 20/39] fix: Zoltan is told the number of pins it is handed

---
 partition/Multilevel/engpar_zoltan.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index cb5dfc4..eacedf6 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -122,8 +122,12 @@ namespace engpar {
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
     agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
     *numVtxs = g->numLocalVtxs();
-    //TODO: this number is inaccurate in parallel
-    *numPins = g->numLocalPins();
+    //The pins are listed by vertex, so only the pins to local vertices count
+    *numPins = 0;
+    agi::GraphVertex* v;
+    agi::VertexIterator* vitr = g->begin();
+    while ((v = g->iterate(vitr)))
+      *numPins += g->degree(v);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
-- 
2.43.0


From 065a45e41aa32f9c0eac5afc3383f4b08e20f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 21/39] fix: Zoltan is told the owners of ghosts in the large
 communicator

---
 partition/Multilevel/engpar_split.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_split.cpp b/partition/Multilevel/engpar_split.cpp
index 969bf04..a16df71 100644
--- a/partition/Multilevel/engpar_split.cpp
+++ b/partition/Multilevel/engpar_split.cpp
@@ -29,6 +29,9 @@ namespace engpar {
     agi::Migration* plan = NULL;
     inp->self = PCU_Comm_Self();
     if (method == ZOLTAN_PHG) {
+      //Zoltan is told the owners of the ghost vertices in the large communicator
+      if (inp->isOriginal)
+        expandParts(inp->g,inp->largeComm);
       PCU_Switch_Comm(inp->largeComm);
       plan = EnGPar_Zoltan(inp,inp->total_parts,false);
       PCU_Switch_Comm(inp->smallComm);
@@ -49,7 +52,8 @@ namespace engpar {
         }
         PCU_Switch_Comm(inp->smallComm);
       }
-      expandParts(inp->g,inp->largeComm);
+      if (method != ZOLTAN_PHG)
+        expandParts(inp->g,inp->largeComm);
     }
     else {
       if (plan)
-- 
2.43.0


From 07fa37dc1e27e81bf40bb8d70d2a02cdea469402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 22/39] fix: cengpar_createLocalSplitInput is defined with the
 signature it is declared with

---
 interfaces/cengpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index cfac2ff..a8ed204 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -25,7 +25,7 @@ ngraph cengpar_createEmptyGraph() {
 
 
 engparInput cengpar_createLocalSplitInput(ngraph g, MPI_Fint smallComm, MPI_Fint largeComm,
-    bool isOrig, int splitFactor, double tol, agi::etype t, agi::part_t* ranks) {
+    bool isOrig, int splitFactor, double tol, agi::part_t* ranks, agi::etype t) {
   MPI_Comm s = MPI_Comm_f2c(smallComm);
   MPI_Comm l = MPI_Comm_f2c(largeComm);
   agi::Ngraph* ng = (agi::Ngraph*)g;
-- 
2.43.0


From 722212c5d42fe6e741c1dce83f770b4ab97c0c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 23/39] fix: destinations and isolated vertices of a binary
 edge list keep their numbers

---
 interfaces/binGraph.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..6d7a5ae 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -296,12 +296,18 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
       continue;
     if (vtx_mapping.count(out) == 0) {
       vtx_mapping[out] = cur_label;
-      local_unmap[cur_label] = out;
-      edge_list[t][i] = cur_label++;
+      local_unmap[cur_label++] = out;
     }
-    else        
+    //The destinations keep their global ids until the ghosts are numbered
+    if (i%2 == 0 || !createGhost)
       edge_list[t][i] = vtx_mapping[out];
   }
+  //Label the local vertices that no local edge touches
+  for (int64_t i = 0; i < num_global_verts; ++i)
+    if (ranks[i] == PCU_Comm_Self() && vtx_mapping.count(i) == 0) {
+      vtx_mapping[i] = cur_label;
+      local_unmap[cur_label++] = i;
+    }
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
@@ -332,7 +338,7 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
         edge_list[t][i] = cur_label++;
         nonlocal_vids.push_back(out);
       }
-      else if (vtx_mapping[out] >= num_local_verts)
+      else
         edge_list[t][i] = vtx_mapping[out];
     }
     num_ghost_verts = cur_label - num_local_verts;
-- 
2.43.0


From 46dcd00eb81a8b07d780b6a2a7f20383432a3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 24/39] fix: original owners are renamed with the owners when
 the processes are renumbered

---
 agi/agiVertex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 55ed6ef..6abe909 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -164,6 +164,9 @@ bool Ngraph::isEqual(GraphVertex* u,GraphVertex* v) const {
   void Ngraph::changeOwners(int* newRanks) {
     for (int i=0;i<num_ghost_verts;++i)
       owners[i] = newRanks[owners[i]];
+    if (original_owners)
+      for (lid_t i=0;i<num_local_verts;++i)
+        original_owners[i] = newRanks[original_owners[i]];
   }
 
   VEVIterator* Ngraph::vev_begin(GraphVertex* vtx, etype t) const {
-- 
2.43.0


From 58debfd9b1150a356addc69fee91dad83eb6d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 25/39] fix: traced calls leave the log at the level they found
 it

---
 agi/agiConstruct.cpp                              | 3 +++
 agi/agiVertex.cpp                                 | 6 +++++-
 partition/Diffusive/src/engpar_balancer.cpp       | 2 ++
 partition/Diffusive/src/engpar_weightBalancer.cpp | 2 --
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 1cbbfa1..a6489f0 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -523,6 +523,9 @@ namespace agi {
     edge_unmap[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
   }
   
   void Ngraph::destroyData() {
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 6abe909..d2628de 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -85,8 +85,12 @@ void Ngraph::setOriginalOwners() {
     sprintf(message,"setOriginalOwners\n");
     EnGPar_Log_Function(message);
   }
-  if (original_owners)
+  if (original_owners) {
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
     return;
+  }
   original_owners = new part_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     original_owners[i]=PCU_Comm_Self();
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index f470942..3afd089 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -221,6 +221,8 @@ namespace engpar {
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5a7cf9e..d744a77 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -214,8 +214,6 @@ namespace engpar {
       }
     }
     */
-    if (EnGPar_Is_Log_Open())
-      EnGPar_End_Function();
   }
 
   void balanceWeights(WeightInput* in, int v_) {
-- 
2.43.0


From bb70c8dffc2e0c055cf0b1a09c3657c1c131e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 26/39] fix: pieces of traditional graphs hold the points their
 cut edges end at

---
 agi/agiVTK.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f0de133..71ecd6e 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -82,6 +82,11 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      //Write the position of the ghost vertices that edges of this part end at
+      for (lid_t i=0;i<g->numGhostVtxs();i++)
+        fprintf(f," %f %f %f\n",ghost_cs[i][0],ghost_cs[i][1],ghost_cs[i][2]);
+    }
     fprintf(f,"\n</DataArray>\n</Points>\n");
     delete [] ghost_cs;
   }
@@ -169,6 +174,12 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      agi::GraphVertex* ghost;
+      agi::GhostIterator* gitr = g->beginGhosts();
+      while ((ghost = g->iterate(gitr)))
+        fprintf(f,"%d\n",g->owner(ghost));
+    }
     fprintf(f,"</DataArray>\n");
 
     if (g->isHyper()) {
@@ -206,6 +217,10 @@ namespace agi {
         }
         g->destroy(eitr);
       }
+      else {
+        for (lid_t i=0;i<g->numGhostVtxs();i++)
+          fprintf(f,"-1\n");
+      }
       fprintf(f,"</DataArray>\n");
     }
     fprintf(f,"</PointData>\n");
@@ -276,6 +291,8 @@ namespace agi {
     lid_t numPoints = g->numLocalVtxs();
     if (g->isHyper())
       numPoints+= g->numLocalEdges();
+    else
+      numPoints+= g->numGhostVtxs();
     fprintf(f,"<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%ld\">\n",
             numPoints,numCells);
     writePoints(g,f);
-- 
2.43.0


From 25f7c18ca9be30bcc7b3de8a7b2ec62e7122db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 27/39] fix: log messages are not formatted from the buffer
 they are written to

---
 agi/agiConstruct.cpp                        | 15 +++++------
 partition/Diffusive/src/engpar_balancer.cpp | 29 ++++++++++-----------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index a6489f0..eecda2e 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -50,11 +50,10 @@ namespace agi {
                               std::unordered_map<gid_t,part_t>& owns) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructGraph: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        sprintf(message,"constructGraph: Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        sprintf(message,"constructGraph: Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
 
@@ -72,11 +71,10 @@ namespace agi {
                               std::vector<wgt_t>& wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        sprintf(message,"constructVerts: Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        sprintf(message,"constructVerts: Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
     destroyData();
@@ -107,11 +105,10 @@ namespace agi {
                               gid_t* verts, wgt_t* wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        sprintf(message,"constructVerts: Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        sprintf(message,"constructVerts: Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
     destroyData();
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 3afd089..eddced2 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -196,26 +196,25 @@ namespace engpar {
     DiffusiveInput* inp = dynamic_cast<DiffusiveInput*>(input);
     if (EnGPar_Is_Log_Open()) {
       char message[1000];
-      sprintf(message,"balance() : \n");
+      char* end = message;
+      end += sprintf(end,"balance() : \n");
       //Log the input parameters
-      sprintf(message,"%s priorities :",message);
+      end += sprintf(end," priorities :");
       for (unsigned int i=0;i<inp->priorities.size();i++)
-        sprintf(message,"%s %d",message,inp->priorities[i]);
-      sprintf(message,"%s\n",message);
+        end += sprintf(end," %d",inp->priorities[i]);
+      end += sprintf(end,"\n");
       if (inp->tolerances.size()>0) {
-        sprintf(message,"%s tolerances :",message);
+        end += sprintf(end," tolerances :");
         for (unsigned int i=0;i<inp->tolerances.size();i++)
-          sprintf(message,"%s %f",message,inp->tolerances[i]);
-        sprintf(message,"%s\n",message);
+          end += sprintf(end," %f",inp->tolerances[i]);
+        end += sprintf(end,"\n");
       }
-      sprintf(message,"%s maxIterations : %d\n",message,inp->maxIterations);
-      sprintf(message,"%s maxIterationsPerType : %d\n",
-              message,inp->maxIterationsPerType);
-      sprintf(message,"%s step_factor : %f\n",message,inp->step_factor);
-      sprintf(message,"%s sides_edge_type : %d\n",message,inp->sides_edge_type);
-      sprintf(message,"%s selection_edge_type : %d\n",
-              message,inp->selection_edge_type);
-      sprintf(message,"%s countGhosts : %d\n",message,inp->countGhosts);
+      end += sprintf(end," maxIterations : %d\n",inp->maxIterations);
+      end += sprintf(end," maxIterationsPerType : %d\n",inp->maxIterationsPerType);
+      end += sprintf(end," step_factor : %f\n",inp->step_factor);
+      end += sprintf(end," sides_edge_type : %d\n",inp->sides_edge_type);
+      end += sprintf(end," selection_edge_type : %d\n",inp->selection_edge_type);
+      end += sprintf(end," countGhosts : %d\n",inp->countGhosts);
       
       EnGPar_Log_Function(message);
     }
-- 
2.43.0


From f934d8d838ce47be7928f1fcc88b6b2d4b38bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:38 +0000
Subject: [PATCH 28/39] fix: printing the sizes of a graph with many edge types
 does not overrun its buffer

---
 agi/agiConstruct.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index eecda2e..873bdc0 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -612,7 +612,8 @@ namespace agi {
     else
       EnGPar_Status_Message("N-graph Status\n");
     EnGPar_Status_Message("Vertices: %ld\n", numGlobalVtxs());
-    char edges[100];
+    //Each type takes at most 40 characters
+    char edges[16+40*MAX_TYPES];
     int n = sprintf(edges,"Edges: ");
     char* temp = edges + n;
     for (etype t = 0; t < numEdgeTypes(); t++) {
-- 
2.43.0


From 1ff02cbd16b86a604025fced25911c2437717e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:19 +0000
Subject: [PATCH 29/39] fix: a graph with a removed edge type can be traversed
 and migrated

---
 agi/agiConstruct.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 873bdc0..a9a2aed 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -520,6 +520,8 @@ namespace agi {
     edge_unmap[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    else //the type keeps its number and no vertex has an edge of it
+      degree_list[t] = new lid_t[num_local_verts+1]();
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 5cee47ee9ab2e16b57c5061c15049767a775e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 30/39] fix: asking whether an edge is cut gives its pin
 iterator back

---
 agi/agiEdge.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 1eb3f14..295ff8b 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -50,6 +50,7 @@ namespace agi {
 	return true;
       }
     }
+    destroy(pitr);
     return false;
   }
 
-- 
2.43.0


From f8f441a78f0ab32bfa8d52cda84fee11ae7986ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 31/39] fix: constructing ghosts again releases the earlier
 owners and ghost weights

---
 agi/agiConstruct.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index a9a2aed..da745ee 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -390,6 +390,8 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    if (owners)
+      delete [] owners;
     owners = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
@@ -426,6 +428,9 @@ namespace agi {
     }
 
     //Create the ghost weights
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
     if (PCU_Comm_Peers() > 1)
       ghost_weights = createDoubleGhostTag(weightTag);
 
@@ -440,6 +445,8 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    if (owners)
+      delete [] owners;
     owners = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
@@ -480,6 +487,9 @@ namespace agi {
     }
 
     //Create the ghost weights
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
     if (PCU_Comm_Peers() > 1)
       ghost_weights = createDoubleGhostTag(weightTag);
 
-- 
2.43.0


From 1bf1c3377d30cb9ece0a011b03491aea9c4363ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 32/39] fix: migration timers are numbered from zero like the
 arrays that hold them

---
 agi/agiMigrationTimers.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..6873574 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,12 +15,11 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = names.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
     times.push_back(0);
-    times[idx] = 0; // valgrind does not think times[idx] was initialized...
   }
 
   void MigrationTimers::update(std::string name, double val) {
-- 
2.43.0


From 0f2d6534d64e25b66f118df42a51fcaecd6a2af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 33/39] fix: setting coordinates again releases the earlier
 ones

---
 agi/agiVertex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index d2628de..27b6f1b 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -37,6 +37,8 @@ bool Ngraph::hasCoords() const {
 }
 
 void Ngraph::setCoords(coord_t* cs) {
+  if (local_coords)
+    delete [] local_coords;
   local_coords = new coord_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     for (int j=0;j<3;j++)
-- 
2.43.0


From caaed1b2646a46a656328729e6b5650ca131588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:00 +0000
Subject: [PATCH 34/39] fix: the original owner of a ghost is refused instead
 of read out of bounds

---
 agi/agiVertex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 27b6f1b..974e700 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -74,8 +74,8 @@ int Ngraph::owner(GraphVertex* vtx) const {
 part_t Ngraph::originalOwner(GraphVertex* vtx) const {
   assert(original_owners);
   lid_t index = fromPtr(vtx);
-  if (index>=num_local_verts+num_ghost_verts) {
-    EnGPar_Error_Message("invalid vertex given to owner(vtx)\n");
+  if (index>=num_local_verts) {
+    EnGPar_Error_Message("invalid vertex given to originalOwner(vtx)\n");
     return -1;
   }
   return original_owners[index];
-- 
2.43.0


From 186cf8daf1f39a28db744ede55cbc94cc58ba068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 35/39] fix: saved graphs may have names of any length

---
 agi/agiIO.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/agi/agiIO.cpp b/agi/agiIO.cpp
index 52d0310..7e96f2c 100644
--- a/agi/agiIO.cpp
+++ b/agi/agiIO.cpp
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <PCU.h>
 #include <cstring>
+#include <string>
 #include <sys/stat.h>
 #include <pcu_io.h>
 namespace agi {
@@ -124,11 +125,10 @@ namespace agi {
   //Recursive mkdir function modified from here:
   //http://nion.modprobe.de/blog/archives/357-Recursive-directory-creation.html
   void mkdir_r(const char *dir) {
-    char tmp[256];
+    size_t len = strlen(dir);
+    char* tmp = new char[len+1];
     char *p = NULL;
-    size_t len;
-    snprintf(tmp, sizeof(tmp),"%s",dir);
-    len = strlen(tmp);
+    strcpy(tmp,dir);
     if(tmp[len - 1] == '/')
       tmp[len - 1] = 0;
     for(p = tmp + 1; *p; p++)
@@ -137,12 +137,12 @@ namespace agi {
         mkdir(tmp, S_IRWXU);
         *p = '/';
       }
+    delete [] tmp;
   }
   void Ngraph::saveToFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    mkdir_r(filename);
-    struct pcu_file* file = pcu_fopen(filename,true,false);
+    std::string filename = std::string(prefix)+"_"+std::to_string(PCU_Comm_Self())+".bgd";
+    mkdir_r(filename.c_str());
+    struct pcu_file* file = pcu_fopen(filename.c_str(),true,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for saving: %s#.bgd\n",prefix);
       throw 1;
@@ -223,9 +223,8 @@ namespace agi {
   }
 
   void Ngraph::loadFromFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    struct pcu_file* file = pcu_fopen(filename,false,false);
+    std::string filename = std::string(prefix)+"_"+std::to_string(PCU_Comm_Self())+".bgd";
+    struct pcu_file* file = pcu_fopen(filename.c_str(),false,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for loading: %s#.bgd",prefix);
       throw 1;
@@ -257,7 +256,7 @@ namespace agi {
 
     if (EnGPar_Check_Verbosity(0) && !PCU_Comm_Self()) {
       //TODO: Add timing info
-      EnGPar_Status_Message("Loaded graph %s.\n",filename);
+      EnGPar_Status_Message("Loaded graph %s.\n",filename.c_str());
       printStats();
     }
   }
-- 
2.43.0


From af62041a4a6df7d59dd40755735dd255ce88a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 36/39] fix: visualisation files may have names of any length

---
 agi/agiVTK.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index 71ecd6e..28e1f44 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -1,6 +1,7 @@
 #include "ngraph.h"
 #include <PCU.h>
 #include "agi.h"
+#include <string>
 namespace agi {
 
   void writePoints(Ngraph* g,FILE* f) {
@@ -264,11 +265,8 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
-    char filename[256];
-    for (int i=0;i<PCU_Comm_Peers();i++) {
-      sprintf(filename,"%s%d.vtu",prefix,i);
-      fprintf(pf,"<Piece Source=\"%s\"/>\n",filename);
-    }
+    for (int i=0;i<PCU_Comm_Peers();i++)
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
   }
   
   void writePVTU(FILE* pf,const char* prefix, agi::Ngraph* g, GraphTag* tag, etype t) {
@@ -282,9 +280,8 @@ namespace agi {
 
   }
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
-    char filename[256];
-    sprintf(filename,"%s%d.vtu",prefix,PCU_Comm_Self());
-    FILE* f = fopen(filename,"w");
+    std::string filename = std::string(prefix)+std::to_string(PCU_Comm_Self())+".vtu";
+    FILE* f = fopen(filename.c_str(),"w");
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -304,9 +301,8 @@ namespace agi {
     fclose(f);
 
     if (!PCU_Comm_Self()) {
-      char pfilename[256];
-      sprintf(pfilename,"%s.pvtu",prefix);
-      FILE* pf = fopen(pfilename,"w");
+      std::string pfilename = std::string(prefix)+".pvtu";
+      FILE* pf = fopen(pfilename.c_str(),"w");
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
-- 
2.43.0


From fc011385bc1582182fb4442b2499f06852ed35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 37/39] fix: the call log takes edge list names of any length

---
 interfaces/binGraph.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 6d7a5ae..e10ade0 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -16,9 +16,8 @@ namespace agi {
 
 Ngraph* createBinGraph(char* graph_file,char* part_file) {
   if (EnGPar_Is_Log_Open()) {
-    char message[256];
-    sprintf(message,"createBinGraph %s\n",graph_file);
-    EnGPar_Log_Function(message);
+    std::string message = std::string("createBinGraph ")+graph_file+"\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
-- 
2.43.0


From d83dc8eb9c969b5ab0e6f0bb7a1f137c100de099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:42 +0000
Subject: [PATCH 38/39] fix: ghosts owned by a negative process number are
 rejected

---
 agi/agiValid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index b7e60ff..3875328 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -128,6 +128,12 @@ namespace agi {
     GhostIterator* g_itr = g->beginGhosts();
     GraphVertex* gv;
     while ((gv = g->iterate(g_itr))) {
+      part_t ghost_owner = g->owner(gv);
+      if (ghost_owner<0) {
+        EnGPar_Error_Message("Process %d: ghost vertex, %d, is owned by a negative process\n",
+                             PCU_Comm_Self(),g->globalID(gv));
+        return false;
+      }
       if(g->owner(gv)==PCU_Comm_Self()) {
         EnGPar_Error_Message("Process %d: invalid ghost vertex, %d, that is owned by itself\n",
                              PCU_Comm_Self(),g->globalID(gv));
-- 
2.43.0


From 5aa021f9b07780af511ee009b2160c933606c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:33 +0000
Subject: [PATCH 39/39] fix: EnGPar_Finalize does not end messaging the caller
 started after an earlier Finalize

---
 support/engpar_support.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/engpar_support.cpp b/support/engpar_support.cpp
index d309b21..bcd77e4 100644
--- a/support/engpar_support.cpp
+++ b/support/engpar_support.cpp
@@ -21,6 +21,7 @@ void EnGPar_Finalize() {
   EnGPar_Close_Log();
   if (handlingPCU &&PCU_Comm_Initialized())
     PCU_Comm_Free();
+  handlingPCU=false;
 }
 
 void EnGPar_Switch_Comm(MPI_Comm comm) {
-- 
2.43.0

