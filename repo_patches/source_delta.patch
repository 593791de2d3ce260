From e0c90d296ababa8e8b0be56cd367253c8a718862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 01/18] fix: prune exact solvers with the MST weight, not twice
 the MST weight

Graph::directed_edge_weight counts every undirected edge twice, so the
bound used by v5, v6, the threaded and the MPI solvers was 2*MST, which is
not a lower bound of the remaining path. From 6 vertices on, optimal tours
were pruned.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From 900614ccc1f09c3c5f83afb78da4510d7e382ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 02/18] fix: make the nearest neighbour bound of the fourth
 solver a lower bound

Looking only at vertices with a higher index is no lower bound of the
remaining path: from 7 vertices on, optimal tours were pruned. Every
remaining vertex is left through an edge to another remaining vertex or to
the start of the subtour.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..cd325f0 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -325,10 +325,10 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
-            // Also we just connect within
-            if subtour.contains(&j) {
+            // Also we just connect within, or to the start of the subtour, which closes the circle
+            if j == i || (subtour.contains(&j) && j != subtour[0]) {
                 continue;
             }
 
-- 
2.43.0


From d66081ed79ce57ffbd74cf5329ffc5ef9bf1b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 03/18] fix: do not accumulate rounding errors in the partial
 cost of a prefix

Adding and subtracting the same edge is not the identity on floats. The
error survived for the rest of the search, so the reported cost was not the
cost of the reported tour and tours were compared by wrong costs.
---
 src/solvers/exact.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index cd325f0..f62650f 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -132,13 +132,12 @@ fn _second_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // rec call
         _second_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
 
         // remove
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -203,7 +202,7 @@ fn _third_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // HERE IS THE BIG DIFFERENCE TO [`_second_improved_solver_rec`]!
         if current_cost <= result.0 {
@@ -211,7 +210,6 @@ fn _third_improved_solver_rec<T>(
         }
         // This was it. This is the pruning
 
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -293,7 +291,7 @@ fn _fourth_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -303,7 +301,6 @@ fn _fourth_improved_solver_rec<T>(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -404,7 +401,7 @@ fn _fifth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -416,7 +413,6 @@ fn _fifth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -502,7 +498,7 @@ fn _sixth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -526,7 +522,6 @@ fn _sixth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -1015,7 +1010,7 @@ fn _mpi_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -1040,7 +1035,6 @@ fn _mpi_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
-- 
2.43.0


From bb0043450144c48d36a60dd46e51c3a79332081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 04/18] fix: take the first permutation into account in the
 permutation solvers

With one or two vertices there is no further permutation to look at, and
the reported cost was infinite. The first solver panicked on the empty
graph.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index f62650f..faf4fe7 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -27,7 +27,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation) {
@@ -51,10 +51,10 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
-    while next_permutation(&mut current_permutation[1..]) {
+    while n > 1 && next_permutation(&mut current_permutation[1..]) {
         let cost = graph_matrix.evaluate_circle(&current_permutation);
         if cost < best_cost {
             best_cost = cost;
-- 
2.43.0


From 87c2e06bc74f7d32d0ee48727c662544b1aeadc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 05/18] fix: keep the matching perfect when the crossed pair is
 the cheapest

If cost_2 < cost_1 < cost_0, the two edges written both contained v2 and v3
was left unmatched, so Christofides combined the MST with an invalid
matching.
---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From 9e70101602931fda39fa5adeeb77cb4c779a5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 06/18] fix: only reconnect a queued vertex to the MST by a
 cheaper edge

PriorityQueue::push_increase returns the new priority if the old one was
better, so every visited vertex became the connection of all vertices left
in the queue, while the edge kept the cost of another connection.
---
 src/mst.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mst.rs b/src/mst.rs
index 7b74adc..c54c0df 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -240,10 +240,12 @@ impl FindMinCostEdge for VerticesInPriorityQueue {
             if self.used[to] {
                 continue;
             }
-            let Reverse(OrderedFloat(old_cost)) = self.cost_queue
-            .push_increase(to, Reverse(OrderedFloat(cost)))
+            let &Reverse(OrderedFloat(old_cost)) = self.cost_queue
+            .get_priority(&to)
             .unwrap_or_else(|| panic!("Every unused unused vertex shall be contained in the queue from the beginning. Missing vertex: {}", to));
-            if cost <= old_cost {
+            if cost < old_cost {
+                self.cost_queue
+                    .change_priority(&to, Reverse(OrderedFloat(cost)));
                 self.connection_to_mst[to] = from;
             }
         }
-- 
2.43.0


From fc4b91a9f256b2661cde8a8245d929d8e67f79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 07/18] fix: reject graphs with self loops, missing or
 one-sided edges

is_fully_connected only counted edges and is_undirected ignored edges
without a reverse edge, so graphs with self loops or missing edges passed
the preconditions; an edge to an unknown vertex was an index out of bounds.
---
 src/preconditions.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..bcf9d53 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,9 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter().enumerate().all(|(i, v)| {
+        v.degree() == n - 1 && (0..n).all(|j| j == i || v.iter().any(|edge| edge.to == j))
+    })
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
@@ -31,18 +33,15 @@ pub fn is_undirected(graph: &Graph) -> bool {
     for i in 0..graph.num_vertices() {
         let v1 = &graph.vertices[i];
         for v1e in v1.iter() {
-            // Find the Vertex connected to the edge
-            let v2 = &graph.vertices[v1e.to];
+            // Find the reverse edge link of the Vertex connected to the edge
+            let reverse_edge = graph
+                .vertices
+                .get(v1e.to)
+                .and_then(|v2| v2.iter().find(|v2e| v2e.to == i));
 
-            // Find reverse edge link
-            for v2e in v2.iter() {
-                if v2e.to == i {
-                    // If not same weight => directed graph
-                    if v2e.cost != v1e.cost {
-                        return false;
-                    }
-                    break;
-                }
+            // If there is none, or not of the same weight => directed graph
+            if reverse_edge.map(|v2e| v2e.cost) != Some(v1e.cost) {
+                return false;
             }
         }
     }
-- 
2.43.0


From 59b754407752bbd2db795677ebf1a632bfddd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 08/18] fix: compute the 1-tree lower bound of graphs with one
 or two vertices

With two vertices the bound was infinite (above the optimal tour), with one
vertex the computation panicked.
---
 src/one_tree.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..108a150 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -29,6 +29,11 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         "The special vertex has to be a valid vertex in the graph."
     );
 
+    if graph.dim() == 1 {
+        // the special vertex is the only one, there is no edge to choose
+        return Graph::from(vec![Vec::new()]);
+    }
+
     let mut mst = prim_with_excluded_node_single_threaded(graph, &[special_vertex]);
     let mut fst_min_edg = Edge {
         to: special_vertex,
@@ -60,6 +65,11 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         }
     }
 
+    if graph.dim() == 2 {
+        // there is only one edge, a tour uses it in both directions
+        snd_min_edg = fst_min_edg;
+    }
+
     // add the two edges to the mst, making it a 1-tree
     mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
     mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
-- 
2.43.0


From f348ba7ef87f38aa5e41875611631ed220e453ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 09/18] fix: a VecMatrix built from a graph has a zero diagonal

The distance of a vertex to itself was infinite, unlike in NAMatrix and in
from_dim, so is_metric failed for every VecMatrix built from a graph.
---
 src/datastructures/vecmatrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/vecmatrix.rs b/src/datastructures/vecmatrix.rs
index b114e6a..7e83b40 100644
--- a/src/datastructures/vecmatrix.rs
+++ b/src/datastructures/vecmatrix.rs
@@ -9,7 +9,7 @@ pub struct VecMatrix(Vec<Vec<f64>>);
 impl From<Graph> for VecMatrix {
     fn from(graph: Graph) -> Self {
         let n: usize = graph.num_vertices();
-        let mut matrix = vec![vec![f64::INFINITY; n]; n];
+        let mut matrix = VecMatrix::from_dim(n);
         for i in 0..n {
             let vi = &graph[i];
             for edge in vi.iter() {
@@ -18,7 +18,7 @@ impl From<Graph> for VecMatrix {
                 matrix[j][i] = edge.cost;
             }
         }
-        matrix.into()
+        matrix
     }
 }
 
-- 
2.43.0


From a9ca1c47379809520fc45541900b3b105b3ce665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 10/18] fix: explore every prefix of a chunk in the threaded
 and static MPI solver

---
 src/solvers/exact.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index faf4fe7..ade86dc 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -558,6 +558,7 @@ pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
 
 /// Splits the `basis`-ary space from 0...0 to (basis-1)..(basis-1) into `n` chunks of `number_digits` digits.
 /// Returns the minimum and maximum (exclusive) values for the `k`-th chunk.
+/// The maximum of the last chunk wraps around to 0...0.
 pub fn split_up_b_ary_number_into_n_chunks(
     number_digits: usize,
     basis: usize,
@@ -565,11 +566,9 @@ pub fn split_up_b_ary_number_into_n_chunks(
     k: usize,
 ) -> (Vec<usize>, Vec<usize>) {
     let total_values = basis.pow(number_digits as u32);
-    assert!(total_values > n);
-    let chunk_size = total_values / n;
 
-    let min_value = k * chunk_size;
-    let max_value = min_value + chunk_size - 1;
+    let min_value = k * total_values / n;
+    let max_value = (k + 1) * total_values / n;
 
     let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
     let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
@@ -667,11 +666,11 @@ fn threaded_solver_generic(
                 current_prefix.reserve(graph_matrix.dim());
 
                 // For each prefix
-                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-                    // early return if we have finished our chunk
-                    if next_value == max_digits {
-                        break;
-                    }
+                let mut next_prefix = Some(min_digits.clone());
+                while let Some(next_value) = next_prefix {
+                    // there is no next prefix if we have finished our chunk
+                    next_prefix = get_next_value(&mut min_digits, graph_matrix.dim())
+                        .filter(|next| *next != max_digits);
 
                     // if it has at least two times the same digit, its not a valid path
                     let is_unique =
@@ -894,11 +893,11 @@ fn static_mpi_solver_generic_nonroot(
     let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-        // early return if we have finished our chunk
-        if next_value == max_digits {
-            break;
-        }
+    let mut next_prefix = Some(min_digits.clone());
+    while let Some(next_value) = next_prefix {
+        // there is no next prefix if we have finished our chunk
+        next_prefix = get_next_value(&mut min_digits, graph_matrix.dim())
+            .filter(|next| *next != max_digits);
 
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
-- 
2.43.0


From 3f29c5a92ded82cb0b8de454f438c0449f7bf9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 11/18] fix: solve graphs with less vertices than the prefix
 length sequentially

---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index ade86dc..06848c6 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -640,8 +640,8 @@ fn threaded_solver_generic(
             .into(),
     };
 
-    // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // if (number of threads >= n) or there are no prefixes of that length, we do seq
+    if number_of_threads >= graph_matrix.dim() || graph_matrix.dim() < prefix_length {
         return fifth_improved_solver(graph_matrix);
     }
 
-- 
2.43.0


From 5ca8e4e9e860369ae80299a943415bf6bc2b5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 12/18] fix: let MPI workers without a tour receive the winning
 tour

---
 src/solvers/exact.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 06848c6..5c52f04 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -796,6 +796,8 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     } else {
         // This is just the local winner path, look below on how the winner broadcasts its one.
         winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length);
+        // if we found no tour, we still have to be able to receive the one of the winner
+        winner_path.resize(graph_matrix.dim(), 0);
     }
 
     // After the barrier was broken we can broadcast the winner rank and cost
@@ -1118,6 +1120,8 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     } else {
         // This is just the local winner path, look below on how the winner broadcasts its one.
         winner_path = dynamic_mpi_solver_nonroot(&world, graph_matrix);
+        // if we found no tour, we still have to be able to receive the one of the winner
+        winner_path.resize(graph_matrix.dim(), 0);
     }
 
     // After the barrier was broken we can broadcast the winner rank and cost
-- 
2.43.0


From c42a9493a6043d8e5a1ac7017d834611fc60b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 13/18] fix: solve graphs with at most 3 vertices, or without
 workers, in the MPI solvers

---
 src/solvers/exact.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 5c52f04..1158297 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -786,6 +786,11 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // if there are no workers, or no prefixes of that length, we do seq
+    if world.size() == 1 || graph_matrix.dim() < prefix_length {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1110,6 +1115,11 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // if there are no workers, or no prefixes of that length, we do seq
+    if world.size() == 1 || graph_matrix.dim() < DYNAMIC_MPI_PREFIX_LENGTH {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1135,13 +1145,15 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     (winner.0, winner_path)
 }
 
+/// The number of vertices in the prefixes that [`dynamic_mpi_solver`] distributes.
+#[cfg(feature = "mpi")]
+const DYNAMIC_MPI_PREFIX_LENGTH: usize = 3;
+
 /// As it is a very interconnected logic, see [`dynamic_mpi_solver`] for a thorough explaination.
 #[cfg(feature = "mpi")]
 fn dynamic_mpi_solver_root(world: &SystemCommunicator, graph_matrix: &NAMatrix) -> MPICostRank {
     let size = world.size();
     let number_of_workers = size - 1;
-    const PREFIX_LENGTH: usize = 3;
-
     let n = graph_matrix.dim();
 
     let mut current_winner = MPICostRank(f64::INFINITY, 0);
@@ -1152,7 +1164,7 @@ fn dynamic_mpi_solver_root(world: &SystemCommunicator, graph_matrix: &NAMatrix)
     let mut number_of_waiting_processes = 0;
 
     // Our root tracks the prefixes...
-    let mut current_prefix: Option<[usize; PREFIX_LENGTH]> = Some([1, 2, 3]);
+    let mut current_prefix: Option<[usize; DYNAMIC_MPI_PREFIX_LENGTH]> = Some([0, 1, 2]);
 
     while number_of_waiting_processes < number_of_workers {
         let (msg, _) = world.any_process().receive::<MPICostRank>();
-- 
2.43.0


From e4fa04320b5d2ac1c3579d9047409ea2b6193d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 14/18] fix: allow more MPI processes than vertices in the
 nearest neighbour search

---
 src/solvers/approximate/nearest_neighbour.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 46dc1b0..f8c23aa 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -144,10 +144,11 @@ pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
     }
 
     // Do the solving for our local chunk
+    // (which is empty if there are more processes than nodes)
     let local_solution = (start_node..end_node)
         .map(|k| single_nearest_neighbour(graph_matrix, k.try_into().unwrap()))
         .min_by_key(|&(distance, _)| OrderedFloat(distance))
-        .unwrap();
+        .unwrap_or((f64::INFINITY, vec![0; graph_matrix.dim()]));
 
     // ALLREDUCE all solutions
     // If two solutions have same cost, we choose lower rank
-- 
2.43.0


From 909e9587cfedd56236464f16f69246a7407f668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 15/18] fix: allow more MPI processes than vertices in the
 1-tree lower bound

---
 src/one_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 108a150..7762d93 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -141,7 +141,8 @@ fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
                 x.partial_cmp(y)
                     .expect("Tried to compare NaN value. Your data seems currupt.")
             })
-            .expect("Cannot compute the 1-tree lower bound of the empty graph");
+            // there are no special vertices left for this process
+            .unwrap_or(f64::NEG_INFINITY);
 
         let mut global_lower_bound = f64::INFINITY;
         if rank as mpi::topology::Rank == ROOT_RANK {
-- 
2.43.0


From 5d7e452b05d6086692dd1da6171c2818362e80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 16/18] fix: allow an empty matching in the MPI matching
 computation

---
 src/solvers/approximate/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 60998cc..c1728db 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -241,7 +241,7 @@ pub fn mpi_improve_matching<C: Communicator>(
         // then matching_singletons is a slice of length 2n and type `&mut [usize]`
         // safety: the memory is valid
         let matching_singletons =
-            unsafe { from_raw_parts(&matching[0][0] as *const usize, matching.len() * 2) };
+            unsafe { from_raw_parts(matching.as_ptr() as *const usize, matching.len() * 2) };
         root_process.send_with_tag(matching_singletons, MATCHING_TAG);
     } else {
         // if rank == crate::ROOT_RANK
@@ -356,7 +356,7 @@ fn broadcast_matching<C: Communicator>(root_process: &Process<C>, matching: &mut
     //    unsafe { from_raw_parts_mut(&mut matching_vec[0][0] as *mut usize, matching.len() * 2) }
     //};
     let matching_singletons =
-        unsafe { from_raw_parts_mut(&mut matching[0][0] as *mut usize, matching.len() * 2) };
+        unsafe { from_raw_parts_mut(matching.as_mut_ptr() as *mut usize, matching.len() * 2) };
     // distribute the matching from the root process to all other processes
     root_process.broadcast_into(matching_singletons);
 }
-- 
2.43.0


From b2d64e9aee682977732cfb64d7aa56b632f88bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 17/18] fix: keep MPI initialised for the lower bound of an
 approximation

---
 src/lib.rs                                   | 23 +++++++++++++++-----
 src/solvers/approximate/nearest_neighbour.rs |  8 ++++---
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4ffa1..bf16f2e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,6 +89,14 @@ fn approx_run(
 ) -> Result<(), Box<dyn Error>> {
     let tsp_instance = get_tsp_instance(input_file.clone())?;
 
+    // MPI can be initialized only once, and the lower bound needs it as well,
+    // so do not drop the Universe before the end of this function!
+    #[cfg(feature = "mpi")]
+    let _universe = match parallelism {
+        Parallelism::MPI => mpi::initialize(),
+        _ => None,
+    };
+
     match algorithm {
         ApproxAlgorithm::Christofides => {
             let graph = (&tsp_instance.graph).into();
@@ -104,8 +112,7 @@ fn approx_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let root_process = world.process_at_rank(0);
 
@@ -122,8 +129,11 @@ fn approx_run(
                             &graph,
                         );
                         mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
-                        // non-root process is done here
-                        return Ok(());
+                        // non-root process is done here, apart from the lower bound
+                        return match lower_bound {
+                            Some(algorithm) => lower_bound_run(algorithm, input_file, parallelism),
+                            None => Ok(()),
+                        };
                     }
                 }
             };
@@ -183,8 +193,9 @@ fn lower_bound_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    // this is None if MPI has been initialized before
+                    let _universe = mpi::initialize();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let result =
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index f8c23aa..ff3c3bf 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -6,7 +6,7 @@ use rayon::iter::ParallelIterator;
 use rayon::prelude::IntoParallelIterator;
 
 #[cfg(feature = "mpi")]
-use mpi::{collective::UserOperation, traits::*};
+use mpi::{collective::UserOperation, topology::SystemCommunicator, traits::*};
 
 use crate::{
     computation_mode::{panic_on_invaid_mode, PAR_COMPUTATION, SEQ_COMPUTATION},
@@ -126,8 +126,10 @@ pub fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> Solution
 /// Now every node knows the global minimum and can successfully return it.
 #[cfg(feature = "mpi")]
 pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // do not drop the Universe until the search has finished!
+    // (it is None if MPI has been initialized before)
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let size = world.size();
     let rank = world.rank();
 
-- 
2.43.0


From b2661b96b6c37512b21cf7bd5f03352eabe6774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 18/18] fix: gen_matrix_fast keeps the edges between equal
 points

---
 utils/gen_matrix_fast/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/gen_matrix_fast/src/main.rs b/utils/gen_matrix_fast/src/main.rs
index cc25eb5..82a05c4 100644
--- a/utils/gen_matrix_fast/src/main.rs
+++ b/utils/gen_matrix_fast/src/main.rs
@@ -28,10 +28,10 @@ fn generate_xml_from_matrix(matrix: &[Vec<f64>]) {
     println!("  <ignoredDigits>{}</ignoredDigits>", ignored_digits);
     println!("  <graph>");
 
-    for (_, row) in matrix.iter().enumerate() {
+    for (row_index, row) in matrix.iter().enumerate() {
         println!("    <vertex>");
         for (col_index, &value) in row.iter().enumerate() {
-            if value == 0.0 {continue;}
+            if row_index == col_index {continue;}
             println!("      <edge cost=\"{}\">{}</edge>", value, col_index);
         }
         println!("    </vertex>");
-- 
2.43.0

