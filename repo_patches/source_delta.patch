From 117581bce276c15075150df5b86a5945bc9e4454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 01/27] fix: decide assignment feasibility in polynomial time

lap() enumerated all 2^rows row subsets (with an int shift), so it never
ended, or overflowed, for more than about 30 rows.
---
 include/rlapjv.h | 70 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 4ebc291..976f46b 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -1,9 +1,13 @@
 #pragma once
 // https://raw.githubusercontent.com/ClementLF/rlapjv/master/rlapjv.h
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstdio>
 #include <limits>
 #include <memory>
+#include <tuple>
+#include <vector>
 #include <Eigen/Dense>
 
 namespace lap {
@@ -514,7 +518,50 @@ cost rlap(int dim0, int dim1,
     return rlapcost;
 }
 
-#define popcount __builtin_popcount
+/// @brief Find out if all rows can be assigned to distinct columns at finite cost.
+/// Builds a maximum bipartite matching with augmenting paths.
+template<typename CostMatrix>
+bool assignable(const CostMatrix& C) {
+    const int rows = C.rows();
+    const int cols = C.cols();
+    std::vector<int> colrow(cols, -1);  // row matched to each column.
+    std::vector<int> rowcol(rows, -1);  // column matched to each row.
+    std::vector<int> pred(cols);        // row from which each column was reached.
+    std::vector<char> visited(cols);
+    std::vector<int> queue;             // rows from which to search on.
+    for (int start = 0; start < rows; ++start) {
+        std::fill(visited.begin(), visited.end(), 0);
+        queue.assign(1, start);
+        int endofpath = -1;
+        for (unsigned k = 0; k < queue.size() && endofpath < 0; ++k) {
+            const int row = queue[k];
+            for (int col = 0; col < cols; ++col) {
+                if (visited[col] || std::isinf(C(row, col))) {
+                    continue;
+                }
+                visited[col] = 1;
+                pred[col] = row;
+                if (colrow[col] < 0) {
+                    endofpath = col;
+                    break;
+                }
+                queue.push_back(colrow[col]);
+            }
+        }
+        if (endofpath < 0) {
+            return false;
+        }
+        // Reassign rows and columns along the path.
+        while (endofpath >= 0) {
+            const int row = pred[endofpath];
+            const int next = rowcol[row];
+            colrow[endofpath] = row;
+            rowcol[row] = endofpath;
+            endofpath = next;
+        }
+    }
+    return true;
+}
 
 template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
 bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
@@ -525,30 +572,11 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     colsol.setZero();
     u.setZero();
     v.setZero();
-    int neighbours;
-
-    Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> notinf =  !C.array().isInf();
-    for (int n = 1; n < std::pow(2, rows); ++n) {
-        neighbours = 0;
-        int popsize = popcount(n);
-        for (int col = 0; col < cols; ++col) {
-            for (int row = 0; row < rows; ++row) {
-                if (n & (1 << row) && notinf(row, col)) {
-                    ++neighbours;
-                    if(neighbours < popsize) {
-                        goto nextcol;
-                    } else if(neighbours == popsize) {
-                        goto nextn;
-                    }
-                }
-            }
-nextcol:;
-        }
 
+    if (!assignable(C)) {
         //std::cout << "NOK matrix: " << std::endl;
         //std::cout << C << std::endl;
         return false;
-nextn:;
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-- 
2.43.0


From 104a911eb5726e09530785dd4f01849b185b07d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 02/27] fix: solve column-major cost matrices, not their
 transpose

lap() handed the raw data of e.g. an Eigen::MatrixXd to a row-major solver,
so ospa and gospa used a wrong assignment for three or more targets.
---
 include/rlapjv.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 976f46b..a08f088 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -580,7 +580,9 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-    rlap<int, double>(rows, cols, C.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
+    // rlap reads the costs row by row, whatever the storage order of C.
+    const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> costs = C;
+    rlap<int, double>(rows, cols, costs.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
     //std::cout << "rowsol: " << rowsol.transpose() << std::endl;
     //std::cout << "colsol: " << colsol.transpose() << std::endl;
     return !(rowsol.array() < 0).any();
-- 
2.43.0


From 3e770667c83fc09bee5a9d806c43cca38f0649fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 03/27] fix: loaded index entries with small data types can be
 removed again

---
 include/RTree.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/RTree.h b/include/RTree.h
index 92f3001..a17b85c 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -669,7 +669,10 @@ bool RTREE_QUAL::LoadRec(Node* a_node, RTFileStream& a_stream)
       a_stream.ReadArray(curBranch->m_rect.m_min, NUMDIMS);
       a_stream.ReadArray(curBranch->m_rect.m_max, NUMDIMS);
 
-      a_stream.Read(curBranch->m_data);
+      curBranch->m_child = 0; // m_data may be smaller than the union it lives in
+      DATATYPE data;
+      a_stream.Read(data);
+      curBranch->m_child = (Node*) data; // As inserted, also when DATATYPE is smaller than a pointer
     }
   }
 
-- 
2.43.0


From 351987c7282f41a47358e12ac3f9b1e7a4537d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 04/27] fix: re-insert whole child pointers when data is
 smaller than a pointer

---
 include/RTree.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/RTree.h b/include/RTree.h
index a17b85c..b44d8c1 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -325,8 +325,8 @@ protected:
   void FreeNode(Node* a_node);
   void InitNode(Node* a_node);
   void InitRect(Rect* a_rect);
-  bool InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node, Node** a_newNode, int a_level);
-  bool InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, int a_level);
+  bool InsertRectRec(Rect* a_rect, Node* a_child, Node* a_node, Node** a_newNode, int a_level);
+  bool InsertRect(Rect* a_rect, Node* a_child, Node** a_root, int a_level);
   Rect NodeCover(Node* a_node);
   bool AddBranch(Branch* a_branch, Node* a_node, Node** a_newNode);
   void DisconnectBranch(Node* a_node, int a_index);
@@ -492,7 +492,7 @@ void RTREE_QUAL::Insert(const ELEMTYPE a_min[NUMDIMS], const ELEMTYPE a_max[NUMD
     rect.m_max[axis] = a_max[axis];
   }
 
-  InsertRect(&rect, a_dataId, &m_root, 0);
+  InsertRect(&rect, (Node*) a_dataId, &m_root, 0);
 }
 
 
@@ -878,7 +878,7 @@ void RTREE_QUAL::InitRect(Rect* a_rect)
 // The level argument specifies the number of steps up from the leaf
 // level to insert; e.g. a data rectangle goes in at level = 0.
 RTREE_TEMPLATE
-bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node, Node** a_newNode, int a_level)
+bool RTREE_QUAL::InsertRectRec(Rect* a_rect, Node* a_child, Node* a_node, Node** a_newNode, int a_level)
 {
   ASSERT(a_rect && a_node && a_newNode);
   ASSERT(a_level >= 0 && a_level <= a_node->m_level);
@@ -891,7 +891,7 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
   if(a_node->m_level > a_level)
   {
     index = PickBranch(a_rect, a_node);
-    if (!InsertRectRec(a_rect, a_id, a_node->m_branch[index].m_child, &otherNode, a_level))
+    if (!InsertRectRec(a_rect, a_child, a_node->m_branch[index].m_child, &otherNode, a_level))
     {
       // Child was not split
       a_node->m_branch[index].m_rect = CombineRect(a_rect, &(a_node->m_branch[index].m_rect));
@@ -908,7 +908,7 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
   else if(a_node->m_level == a_level) // Have reached level for insertion. Add rect, split if necessary
   {
     branch.m_rect = *a_rect;
-    branch.m_child = (Node*) a_id;
+    branch.m_child = a_child;
     // Child field of leaves contains id of data record
     return AddBranch(&branch, a_node, a_newNode);
   }
@@ -929,7 +929,7 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
 // InsertRect2 does the recursion.
 //
 RTREE_TEMPLATE
-bool RTREE_QUAL::InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, int a_level)
+bool RTREE_QUAL::InsertRect(Rect* a_rect, Node* a_child, Node** a_root, int a_level)
 {
   ASSERT(a_rect && a_root);
   ASSERT(a_level >= 0 && a_level <= (*a_root)->m_level);
@@ -944,7 +944,7 @@ bool RTREE_QUAL::InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, i
   Node* newNode;
   Branch branch;
 
-  if(InsertRectRec(a_rect, a_id, *a_root, &newNode, a_level))  // Root split
+  if(InsertRectRec(a_rect, a_child, *a_root, &newNode, a_level))  // Root split
   {
     newRoot = AllocNode();  // Grow tree taller and new root
     newRoot->m_level = (*a_root)->m_level + 1;
@@ -1426,7 +1426,7 @@ bool RTREE_QUAL::RemoveRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root)
       for(int index = 0; index < tempNode->m_count; ++index)
       {
         InsertRect(&(tempNode->m_branch[index].m_rect),
-                   tempNode->m_branch[index].m_data,
+                   tempNode->m_branch[index].m_child,
                    a_root,
                    tempNode->m_level);
       }
-- 
2.43.0


From 11c4bd9c6629643da8239d2e8e0916ceaadc1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 05/27] fix: collapse every redundant root, not only the first

---
 include/RTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/RTree.h b/include/RTree.h
index b44d8c1..4c0ddb5 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -1439,7 +1439,7 @@ bool RTREE_QUAL::RemoveRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root)
     }
 
     // Check for redundant root (not leaf, 1 child) and eliminate
-    if((*a_root)->m_count == 1 && (*a_root)->IsInternalNode())
+    while((*a_root)->m_count == 1 && (*a_root)->IsInternalNode())
     {
       tempNode = (*a_root)->m_branch[0].m_child;
 
-- 
2.43.0


From d551c8897eefc5cfbe1feb894c82788cc340d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 06/27] fix: track summaries keep their own existence
 probability when copied

---
 include/target.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index 36fdfd0..05adc20 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -30,6 +30,17 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
                    double w_, unsigned id_, unsigned cid_ = 0)
     : Parent(x_, P_, w_), r(this->w), id(id_), cid(cid_) {}
 
+    // r is another name for this object's own w, also in copies
+    TargetSummary_(const Self& b)
+    : Parent(b), r(this->w), id(b.id), cid(b.cid) {}
+
+    Self& operator=(const Self& b) {
+        Parent::operator=(b);
+        id = b.id;
+        cid = b.cid;
+        return *this;
+    }
+
     void repr(std::ostream& os) const {
         os << "{\"type\":\"T\""
            << ",\"id\":" << id
-- 
2.43.0


From d077100fc5cbaaafd101dd2564d7b18a483fe142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 07/27] fix: orient a Gaussian's axis-aligned box along its own
 axes

---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 8eb7c57..a065fea 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -49,7 +49,7 @@ struct AABBox {
 
         double r1 = nstd * std::sqrt(l[0]);
         double r2 = nstd * std::sqrt(l[1]);
-        double theta = std::atan2(e.col(1).y(), e.col(1).x());
+        double theta = std::atan2(e.col(0).y(), e.col(0).x());
 
         double ux = r1 * std::cos(theta);
         double uy = r1 * std::sin(theta);
-- 
2.43.0


From 1d51f781223d5b799d34346f3390597d81e895c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 08/27] fix: bound the augmenting row reduction when near ties
 keep lowering prices

---
 include/rlapjv.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index a08f088..666cab6 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -308,6 +308,10 @@ cost rlap(int dim0, int dim1,
         // in some cases, a free row may be replaced with another one to be scanned next.
         idx k = 0;
         idx prevnumfree = numfree;
+        // rows contending for fewer columns may lower the prices in tiny steps forever;
+        // leave them to the augmentation when that takes too long.
+        long long steps = 0;
+        const long long maxsteps = static_cast<long long>(prevnumfree) * dim0;
         numfree = 0; // start list of rows still free after augmenting row reduction.
         while (k < prevnumfree)
         {
@@ -321,7 +325,11 @@ cost rlap(int dim0, int dim1,
             idx i0 = colsol[j1];
             cost vj1_new = v[j1] - (usubmin - umin);
             bool vj1_lowers = vj1_new < v[j1]; // the trick to eliminate the epsilon bug
-            if (vj1_lowers)
+            if (++steps > maxsteps)
+            { // assign at the current prices; a displaced row is stored for the next phase.
+                vj1_lowers = false;
+            }
+            else if (vj1_lowers)
             {
                 // change the reduction of the minimum column to increase the minimum
                 // reduced cost in the row to the subminimum.
-- 
2.43.0


From f84e6070865a37fcf5a1fe510f6cee7214d4d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 09/27] fix: weigh hypotheses relative to the best one and keep
 impossible ones out

---
 include/cluster.hpp | 7 +++++--
 include/target.hpp  | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 7c3c4a3..2df620c 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -64,7 +64,7 @@ struct Cluster_ {
             // There are targets to match with
             // Create cost matrix
             Eigen::MatrixXd C(M, N + 2 * M);
-            C.setConstant(inf);
+            C.setConstant(lap::inf);
             for (unsigned i = 0; i < M; ++i) {
                 targets[i]->match(reports,
                                   sensor,
@@ -83,13 +83,16 @@ struct Cluster_ {
             Murty murty(C);
             Assignment res;
             double cost;
+            double cost0 = 0;
             double w;
             double w_sum = 0;
             Eigen::MatrixXd R(M, N + 1);
             R.setZero();
             // Draw most relevant hypotheses using Murty's algorithm
             while (murty.draw(res, cost)) {
-                w = std::exp(-cost);
+                // Relative to the best hypothesis, whose own weight may not be representable
+                if (n == 0) { cost0 = cost; }
+                w = std::exp(cost0 - cost);
                 w_sum += w;
                 #pragma omp parallel for
                 for (unsigned i = 0; i < M; ++i) {
diff --git a/include/target.hpp b/include/target.hpp
index 05adc20..e34e706 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -2,6 +2,7 @@
 #pragma once
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <vector>
 #include "bbox.hpp"
 #include "cf.hpp"
@@ -195,7 +196,7 @@ struct Target_ {
         if (r < 1) {
             return -std::log(1 - r);
         } else {
-            return inf;
+            return std::numeric_limits<double>::infinity();
         }
     }
 
-- 
2.43.0


From 468c6025cdcc651eb91d829158b1b9e0b3357ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 10/27] fix: rounding cannot make a missed detection less
 likely than impossible

---
 include/gm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 029927a..eefa585 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -2,6 +2,7 @@
 #pragma once
 #include <Eigen/Dense>
 #include <Eigen/StdVector>
+#include <algorithm>
 #include <cmath>
 #include <numeric>
 #include <queue>
@@ -109,7 +110,8 @@ struct GM {
         for (unsigned i = 0; i < c.size(); ++i) {
             eta += c[i].w * s.pD(c[i], origin);
         }
-        return 1 - eta;
+        // The weights may sum to more than one by rounding
+        return std::max(0.0, 1 - eta);
     }
 
     template<typename FT, typename QT>
-- 
2.43.0


From 6c6296ce562d4beb372cfbffe067c8ac25a72c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:59 +0000
Subject: [PATCH 11/27] fix: scores and maps leave the targets where they are

---
 include/lmb.hpp    | 14 +++++---------
 include/target.hpp |  6 ++++--
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index e396147..f59e2db 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -223,9 +223,9 @@ class SILMB {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
             for (auto t : targets) {
-                t->transform_to_local(origin);
-                t->pdf.sample_pos(samples);
-                t->transform_to_global();
+                PDF local(t->pdf);  // The target itself stays where it is
+                local.transform_to_local(origin);
+                local.sample_pos(samples);
                 for (auto s = 0; s < nof_samples; ++s) {
                     Eigen::Vector2i p = ((samples.col(s).array() - corner) / gridsize).floor().cast<int>();
                     if (p.x() < size.x() && p.y() < size.y() && p.x() >=0 && p.y() >= 0) {
@@ -265,9 +265,7 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(c);
                 for (int i = 0; i < M; ++i) {
-                    targettree.targets[i]->transform_to_local(origin);
-                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N), origin);
                 }
                 C = C.cwiseMin(c);
 
@@ -316,9 +314,7 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(cp / 2);
                 for (int i = 0; i < M; ++i) {
-                    targettree.targets[i]->transform_to_local(origin);
-                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N), origin);
                 }
                 C.block(0, 0, M, N).array() =
                     C.block(0, 0, M, N).cwiseMin(c).array().pow(p);
diff --git a/include/target.hpp b/include/target.hpp
index e34e706..31ae63b 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -153,9 +153,11 @@ struct Target_ {
     }
 
     template<typename Points, typename RES>
-    void distance(const Points& points, RES&& res) const {
+    void distance(const Points& points, RES&& res, const cf::LL& origin) const {
         unsigned M = points.size();
-        auto m = pdf.mean();
+        PDF local(pdf);  // The target itself stays where it is
+        local.transform_to_local(origin);
+        auto m = local.mean();
 
         for (unsigned j = 0; j < M; ++j) {
             res(0, j) = (points[j] - m).norm();
-- 
2.43.0


From 1222885dc03fd84232d374f66b33bbd7b1e15eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:24 +0000
Subject: [PATCH 12/27] fix: sampling a mixture fills every column and every
 row

---
 include/gm.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index eefa585..7c08d33 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -208,23 +208,31 @@ struct GM {
 
     template<typename RES>
     void sample(RES& res) const {
+        double cw = 0;
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
+            // Every column belongs to a component
+            cw += c[i].w;
+            unsigned end = (i + 1 < c.size()) ?
+                std::min<double>(std::round(cw * res.cols()), res.cols()) : res.cols();
+            auto tmp = res.middleCols(col, end - col);
             c[i].sample(tmp);
-            col += csamples;
+            col = end;
         }
     }
 
     template<typename RES>
     void sample_pos(RES& res) const {
+        double cw = 0;
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
+            // Every column belongs to a component
+            cw += c[i].w;
+            unsigned end = (i + 1 < c.size()) ?
+                std::min<double>(std::round(cw * res.cols()), res.cols()) : res.cols();
+            auto tmp = res.middleCols(col, end - col);
             c[i].sample_pos(tmp);
-            col += csamples;
+            col = end;
         }
     }
 
-- 
2.43.0


From 8781fb363888bdee5f5fbf1d48898dd2f85aef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 13/27] fix: detection probability is right for a field of view
 of any extent

---
 include/sensors.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/sensors.hpp b/include/sensors.hpp
index b18cc9b..1beb63f 100644
--- a/include/sensors.hpp
+++ b/include/sensors.hpp
@@ -42,7 +42,17 @@ struct PositionSensor {
 
     template<typename PDF>
     double pD(const PDF& pdf, const cf::LL& origin) const {
-        return pD_ * pdf.overlap(fov.nebbox(origin));
+        // The corners may be anywhere on the globe, far outside the tangent plane
+        // around origin, so scale the degrees as they are at origin.
+        static const double delta = 1e-3;
+        const cf::LL dlat = cf::LL::UnitX() * delta;
+        const cf::LL dlon = cf::LL::UnitY() * delta;
+        const double north = cf::ll2ne((origin + dlat).eval(), origin).x() / delta;
+        const double east = cf::ll2ne((origin + dlon).eval(), origin).y() / delta;
+        BBox nefov;
+        nefov.corners << (fov.corners.row(0).array() - origin.x()) * north,
+                         (fov.corners.row(1).array() - origin.y()) * east;
+        return pD_ * pdf.overlap(nefov);
     }
 
     Targets get_targets(const TargetTree& targettree) const {
-- 
2.43.0


From 509c86c1815650686039f603a1a3be0e821b604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 14/27] fix: convex boxes intersect exactly when no side
 separates them

---
 include/bbox.hpp | 50 ++++++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index a065fea..13163c9 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -170,43 +170,25 @@ struct BBox {
                    x + r1 * e.col(0) - r2 * e.col(1);
     }
 
-    bool intersects(const BBox& other) const {
-        for (int i = 0; i < corners.cols(); ++i) {
-            if (other.within(corners.col(i))) {
+    // Does a side of one convex quadrilateral separate it from the other?
+    static bool separated(const Corners& a, const Corners& b) {
+        for (int i = 0; i < a.cols(); ++i) {
+            Eigen::Vector2d side = a.col((i + 1) % a.cols()) - a.col(i);
+            Eigen::RowVector2d normal(-side.y(), side.x());
+            // Relative to the side, to keep precision for small boxes far from zero
+            auto da = (normal * (a.colwise() - a.col(i))).eval();
+            auto db = (normal * (b.colwise() - a.col(i))).eval();
+            if (da.maxCoeff() < db.minCoeff() || db.maxCoeff() < da.minCoeff()) {
                 return true;
             }
         }
-        for (int i = 0; i < other.corners.cols(); ++i) {
-            if (within(other.corners.col(i))) {
-                return true;
-            }
-        }
-        if (corners == other.corners) {
-            return true;
-        }
-        // "SWISS CROSS"!
-        // Find a point that would be in the center of both boxes
-        // in this case - the intersection of the boxes' diagonals -
-        // and check if it's inside the box.
-        // Line-line intersection: https://en.wikipedia.org/wiki/Line%E2%80%93line_intersection
-        auto a0 = corners.col(0);  // (x1, y1)
-        auto a2 = corners.col(2);  // (x2, y2)
-        auto b0 = other.corners.col(0);  // (x3, y3)
-        auto b2 = other.corners.col(2);  // (x4, y4)
-        double x1 = a0.x(); double y1 = a0.y();
-        double x2 = a2.x(); double y2 = a2.y();
-        double x3 = b0.x(); double y3 = b0.y();
-        double x4 = b2.x(); double y4 = b2.y();
-        auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (denom < 1e-9) {
-            return false;
-        }
-        auto centerpoint = Eigen::Vector2d();
-        centerpoint <<
-            (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
-            (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
-        centerpoint /= denom;
-        return within(centerpoint);
+        return false;
+    }
+
+    bool intersects(const BBox& other) const {
+        return aabbox().intersects(other.aabbox())
+            && !separated(corners, other.corners)
+            && !separated(other.corners, corners);
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From fb19556ae866ca48566867a9c68e016cd1cf6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 15/27] fix: OSPA assigns by the cost it averages

---
 include/lmb.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index f59e2db..0daf538 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -267,17 +267,10 @@ class SILMB {
                 for (int i = 0; i < M; ++i) {
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N), origin);
                 }
-                C = C.cwiseMin(c);
+                C = C.cwiseMin(c).array().pow(p);
 
-                // Note that since exp() is strictly increasing, C and C.^p yields the
-                // same assignments. By only raising the result, we compute fewer
-                // exponentials
                 auto res = lap::lap(C);
-
-                double cost = 0;
-                for (unsigned i = 0; i < res.rows(); ++i) {
-                    cost += std::pow(C(i, res[i]), p);
-                }
+                double cost = lap::cost(C, res);
                 score = std::pow(cost / n, 1.0 / p);
             }
         }
-- 
2.43.0


From 87d1e4ad6e75854c3c6b2d8b8380cb4051966875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 16/27] fix: a missed detection lowers the weight of the
 particles it covers

---
 include/pf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index e930cf6..43aad47 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -106,10 +106,10 @@ struct PF {
     double missed(const Sensor& s) {
         PARFOR
         for (unsigned i = 0; i < N; ++i) {
-            w[i] *= s.pD(Particle(x.col(i)), origin);
+            w[i] *= 1 - s.pD(Particle(x.col(i)), origin);
         }
         normalize();
-        return 1 - eta;
+        return eta;
     }
 
     void normalize() {
-- 
2.43.0


From 50e88f028a8057d2fc4d23d4dc83a50f7f97fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 17/27] fix: a particle density with weight is valid, has a box
 and resamples in order

---
 include/pf.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index 43aad47..8c5b37b 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -46,7 +46,6 @@ struct PF {
 
     BBox bbox;
     AABBox aabbox;
-    AABBox _llaabbox;
     double eta;
     Weights w;
     States x;
@@ -78,6 +77,7 @@ struct PF {
         std::iota(std::begin(permutation), std::end(permutation), 0);
         nrand(x, mean, covariance);
         w.setConstant(1.0 / N);
+        normalize();
         transform_to_local(pos());
         transform_to_global();
     }
@@ -116,6 +116,7 @@ struct PF {
         eta = w.sum();
         if (eta > 1e-8) {
             w /= eta;
+            valid = true;
         } else {
             invalidate();
         }
@@ -132,7 +133,7 @@ struct PF {
     }
 
     bool intersects(const AABBox& fov) {
-        return _llaabbox.intersects(fov);
+        return aabbox.intersects(fov);
     }
 
     double neff() const {
@@ -150,10 +151,9 @@ struct PF {
         unsigned j = 0;
 
         States x2; x2.resize(STATES, N);
-        PARFOR
         for (unsigned i = 0; i < N; ++i) {
             double u = u0 + i * w0;
-            while (cdf[j] < u) { ++j; }
+            while (j + 1 < N && cdf[j] < u) { ++j; }
             x2.col(i) = x.col(j);
         }
         x = x2;
@@ -237,7 +237,7 @@ struct PF {
     }
 
     AABBox llaabbox() {
-        return _llaabbox;
+        return aabbox;
     }
 
     void transform_to_local(const cf::LL& origin_) {
-- 
2.43.0


From cd7ff88c6f5511855e87cbc34dd613dc6da151dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 18/27] fix: each thread draws from its own random generator

---
 include/statistics.inc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/statistics.inc b/include/statistics.inc
index 5129ef4..5fc41e5 100644
--- a/include/statistics.inc
+++ b/include/statistics.inc
@@ -5,10 +5,10 @@
 #include "statistics.hpp"
 
 namespace lmb {
-    std::random_device rd{};
-    std::mt19937 gen{rd()};
-    static std::uniform_real_distribution<> udist;
-    static std::normal_distribution<> ndist;
+    // One of each per thread: drawing changes their state
+    thread_local std::mt19937 gen{std::random_device{}()};
+    static thread_local std::uniform_real_distribution<> udist;
+    static thread_local std::normal_distribution<> ndist;
 
     double urand() {
         return udist(gen);
-- 
2.43.0


From d19b5cf65b7a0e08009463a69f7f6205d282b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 19/27] fix: a tracker's public operations exclude each other

predict and correct run without the interpreter lock and Application uses
several worker threads, but only parts of some operations were protected, so
concurrent calls corrupted the tracks and the index.
---
 include/lmb.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 0daf538..0600c31 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <iostream>
 #include <map>
+#include <mutex>
 #include <numeric>
 #include <set>
 #include <string>
@@ -52,6 +53,7 @@ class SILMB {
 
     template<typename Model>
     void predict(Model& model, const double time, const double last_time) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
 #ifdef DEBUG_OUTPUT
         std::cout << "\n\nPredict::::::::::" << std::endl;
 #endif
@@ -92,6 +94,7 @@ class SILMB {
 
     template<typename Sensor>
     void correct(const Sensor& sensor, typename Sensor::Scan& scan, double time) {  // NOLINT
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         using Report = typename Sensor::Report;
         using Cluster = Cluster_<Report, Target>;
         using Clusters = typename std::vector<Cluster>;
@@ -134,6 +137,7 @@ class SILMB {
     }
 
     double enof_targets() {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         double res = 0;
         CRITICAL(ttree)
         {
@@ -145,6 +149,7 @@ class SILMB {
     }
 
     double enof_targets(const AABBox& aabbox) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         double res = 0;
         CRITICAL(ttree)
         {
@@ -156,6 +161,7 @@ class SILMB {
     }
 
     unsigned nof_targets(const double r_lim = 0.7) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         unsigned res = 0;
         CRITICAL(ttree)
         {
@@ -167,6 +173,7 @@ class SILMB {
     }
 
     unsigned nof_targets(const AABBox& aabbox, const double r_lim = 0.7) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         unsigned res = 0;
         CRITICAL(ttree)
         {
@@ -178,6 +185,7 @@ class SILMB {
     }
 
     TargetSummaries get_targets() {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         TargetSummaries res;
         CRITICAL(ttree)
         {
@@ -193,6 +201,7 @@ class SILMB {
     }
 
     TargetSummaries get_targets(const AABBox& aabbox) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         TargetSummaries res;
         CRITICAL(ttree)
         {
@@ -208,6 +217,7 @@ class SILMB {
     }
 
     Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> pos_phd(const AABBox fov, const Eigen::Array2i size) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         cf::LL origin; origin << (fov.min[0] + fov.max[0]) / 2, (fov.min[1] + fov.max[1]) / 2;
         AABBox neaabbox = fov.neaabbox(origin);
         Eigen::Array2d gridsize; gridsize <<
@@ -239,6 +249,7 @@ class SILMB {
     }
 
     double ospa(const TargetStates& truth, const double c, const double p) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         cf::LL origin; origin.setZero();
         for (auto t : truth) { origin += t.template head<2>(); }
         CRITICAL(ttree)
@@ -250,6 +261,7 @@ class SILMB {
     }
 
     double ospa(const TargetStates& truth, const cf::LL& origin, const double c, const double p) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         double score = 0;
         TargetStates netruth(truth);
         for (unsigned i = 0; i != truth.size(); ++i) {
@@ -278,6 +290,7 @@ class SILMB {
     }
 
     double gospa(const TargetStates& truth, const double c, const double p) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         cf::LL origin; origin.setZero();
         for (auto t : truth) { origin += t.template head<2>(); }
         CRITICAL(ttree)
@@ -289,6 +302,7 @@ class SILMB {
     }
 
     double gospa(const TargetStates& truth, const cf::LL& origin, const double c, const double p) {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         TargetStates netruth(truth);
         for (unsigned i = 0; i != truth.size(); ++i) {
             cf::ll2ne_i(netruth[i], origin);
@@ -320,6 +334,7 @@ class SILMB {
     }
 
     void repr(std::ostream& os) const {
+        std::lock_guard<std::recursive_mutex> lock(mutex);
         os << "{\"targets\":[";
         bool first = true;
         for (auto& t : targettree.targets) {
@@ -330,6 +345,9 @@ class SILMB {
     }
 
  private:
+    // Held throughout every public operation
+    mutable std::recursive_mutex mutex;
+
     template<typename Sensor, typename Clusters>
     void cluster(typename Sensor::Scan& scan,
                  Targets& all_targets,
-- 
2.43.0


From d62db923b65ba7b597416d9985392ca1c69bddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 20/27] fix: cluster_nhyps is the number of hypotheses, not of
 reports

---
 lmb/lmb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index e0a2d03..bd2125f 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -204,6 +204,6 @@ PYBIND11_MODULE(lmb, m) {
         .def("gospa", (double (Tracker::*)(const typename Tracker::TargetStates&, const double, const double))&Tracker::gospa)
         .def_readonly("cluster_ntargets", &Tracker::cluster_ntargets)
         .def_readonly("cluster_nreports", &Tracker::cluster_nreports)
-        .def_readonly("cluster_nhyps", &Tracker::cluster_nreports)
+        .def_readonly("cluster_nhyps", &Tracker::cluster_nhyps)
         .def_readonly("nof_clusters", &Tracker::nof_clusters);
 }
-- 
2.43.0


From 8026183e748ce5eede7e3ad75165cf386c18dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 21/27] fix: a tracker has no clusters before its first scan

nof_clusters was read uninitialised.
---
 include/lmb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 0600c31..4cc07c7 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -41,7 +41,7 @@ class SILMB {
     Params params;
 
     TargetTree targettree;
-    unsigned nof_clusters;
+    unsigned nof_clusters = 0;
     std::vector<int> cluster_ntargets;
     std::vector<int> cluster_nreports;
     std::vector<int> cluster_nhyps;
-- 
2.43.0


From 6127849eb93d19ed7542e83492046323abdb7ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 22/27] fix: a map with a NaN raises an exception

A string cannot be raised.
---
 lmb/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/application.py b/lmb/application.py
index 9de9656..f466296 100644
--- a/lmb/application.py
+++ b/lmb/application.py
@@ -72,7 +72,7 @@ class Application:
         """Sample phd."""
         phd = np.copy(self.tracker.pos_phd(self.region, self.phdsize))
         if np.isnan(phd).any():
-            raise "NaN"
+            raise ValueError("NaN in PHD")
         phd += self.unknown
         return phd
 
-- 
2.43.0


From 8854cc7abf71058b72475276746440cb3b2eacf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 23/27] fix: plot_tracks calls the plotting functions that
 exist

---
 lmb/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lmb/application.py b/lmb/application.py
index f466296..a5d79a4 100644
--- a/lmb/application.py
+++ b/lmb/application.py
@@ -82,8 +82,8 @@ class Application:
         extent = (neregion.min[1], neregion.max[1], neregion.min[0], neregion.max[0])
         lmb.plot.phd(phd, extent=extent)
 
-        lmb.plot.plot_scan(reports, self.origin, bbox=True, show_cid=True, clustercolor=True)
-        lmb.plot.plot_tracks(history, self.origin, covellipse=True, bbox=True, min_r=0.3, clustercolor=True)
+        lmb.plot.scan(reports, self.origin, draw_bbox=True, show_cid=True, clustercolor=True)
+        lmb.plot.tracks(history, self.origin, covellipse=True, draw_bbox=True, min_r=0.3, clustercolor=True)
         plt.gca().set_xlim(extent[0:2])
         plt.gca().set_ylim(extent[2:4])
 
-- 
2.43.0


From 0bd56be770d3b090bede5d449de4c6f4a7814335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:20 +0000
Subject: [PATCH 24/27] fix: covariance ellipses are turned the way the
 covariance is

matplotlib takes degrees, anticlockwise.
---
 lmb/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lmb/plot.py b/lmb/plot.py
index 2030898..f3ee612 100644
--- a/lmb/plot.py
+++ b/lmb/plot.py
@@ -95,7 +95,8 @@ def clusters(history, origin, c=0):
 def cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = calc_cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=theta, **kwargs)
+    # The major axis is the height, theta (from north towards east) clockwise from up
+    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=-np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
-- 
2.43.0


From f278d9315c1d12bd076804161c4facf6f0851922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 25/27] fix: samples of a density with a singular covariance
 are finite

---
 include/statistics.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/statistics.hpp b/include/statistics.hpp
index 2510d84..c4ec0a3 100644
--- a/include/statistics.hpp
+++ b/include/statistics.hpp
@@ -9,8 +9,9 @@ namespace lmb {
     template<typename RES, typename MEAN, typename COV>
     void nrand(RES& res, const MEAN mean, const COV covariance) {
         Eigen::SelfAdjointEigenSolver<COV> eigenSolver(covariance);
+        // The zero eigenvalues of a singular covariance may come out negative by rounding
         auto transform = eigenSolver.eigenvectors() \
-            * eigenSolver.eigenvalues().cwiseSqrt().asDiagonal();
+            * eigenSolver.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal();
         for(Eigen::DenseIndex i = 0; i < res.cols(); ++i) {
             res.col(i) = mean + transform * MEAN{}.unaryExpr(
                 [&](auto) { return nrand(); } );
-- 
2.43.0


From e95a624fd560083fc92ffe2706cf3c689ad86ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 26/27] fix: ellipses of printed targets are turned the way
 their covariance is

matplotlib takes degrees.
---
 clmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clmb.py b/clmb.py
index e89da73..0799252 100644
--- a/clmb.py
+++ b/clmb.py
@@ -142,7 +142,7 @@ def plot_traces(targets, cseed=0, covellipse=True, max_back=None, **kwargs):
 def plot_cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=theta, **kwargs)
+    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
-- 
2.43.0


From ffdbdc5c69847e6236d2e8f7078a3603a90a9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:11 +0000
Subject: [PATCH 27/27] fix: velocities that are whole numbers can be drawn

An array of integers cannot be scaled in place.
---
 clmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clmb.py b/clmb.py
index 0799252..86fad12 100644
--- a/clmb.py
+++ b/clmb.py
@@ -130,7 +130,7 @@ def plot_trace(t, c=0, covellipse=True, max_back=None, r_values=False, track_id=
         v = np.array([vxs[-1], vys[-1]])
         va = np.sqrt(vxs[-1]*vxs[-1] + vys[-1]*vys[-1])
         if va > 15:
-            v *= 15 / va
+            v = v * 15 / va
         plt.plot([xs[-1],xs[-1]+v[0]], [ys[-1],ys[-1]+v[1]], color=CMAP(c), linewidth=3)
 
 def plot_traces(targets, cseed=0, covellipse=True, max_back=None, **kwargs):
-- 
2.43.0

