From cd56e50a750911e55299cd6a4df0f0ca16b32623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:51 +0000
Subject: [PATCH 01/49] fix: build Delaunay triangulations with ghost triangles

The finite super-triangle had its apex at (cy + 2) * r instead of cy + 2r,
and the batch version centred it at twice the box sum, so point sets away
from the origin lost triangles. Even a correct finite super-triangle drops
thin triangles along the hull. Batch results also came back out of order
when a job had fewer than three points.

Hull edges now carry ghost triangles, which need no far-away vertices, and
the batch entry point reuses build().
---
 src/operations/triangulation/delaunay.rs | 218 ++++++++---------------
 1 file changed, 78 insertions(+), 140 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..01993de 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -27,13 +27,16 @@ use crate::geometry::Point2;
 use crate::geometry::point::Point;
 use crate::geometry::spatial_element::SpatialElement;
 use crate::geometry::util::EPS;
-use crate::kernel::predicates::{bbox_approx2d, incircle, orient2d};
+use crate::kernel::predicates::{incircle, orient2d};
 use crate::mesh::basic_types::{Edge, Mesh, Triangle};
 use crate::mesh_processing::batching::FaceJobUV;
 use crate::numeric::scalar::Scalar;
 
 pub const SQRT_3: f64 = 1.7320508075688772;
 
+/// Index of the symbolic vertex at infinity while a triangulation is being built.
+const GHOST: usize = usize::MAX;
+
 #[derive(Default)]
 struct Adj {
     // undirected edge -> up to 2 triangle indices
@@ -120,77 +123,13 @@ where
             return Vec::new();
         }
 
-        // Pre-allocate results
-        let mut results = Vec::with_capacity(jobs.len());
-
-        // Batch super-triangle computation using single bbox pass
-        let mut super_triangles = Vec::with_capacity(jobs.len());
-        for job in jobs {
-            if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
-                super_triangles.push(None);
-                continue;
-            }
-
-            let (min, max) = bbox_approx2d(&job.points_uv);
-            let dx = &max[0] - &min[0];
-            let dy = &max[1] - &min[1];
-            let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
-            let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-
-            super_triangles.push(Some((cx, cy, r)));
-        }
-
-        // Process each job with pre-computed super-triangle
-        for (job_idx, job) in jobs.iter().enumerate() {
-            if job.points_uv.len() < 3 {
-                continue;
-            }
-
-            let Some((cx, cy, r)) = &super_triangles[job_idx] else {
-                continue;
-            };
-
-            let mut points = job.points_uv.clone();
-            let sqrt_3 = T::from(SQRT_3);
-            let s0 = points.len();
-            let s1 = s0 + 1;
-            let s2 = s0 + 2;
-
-            points.extend([
-                Point2::<T>::from_vals([
-                    T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
-                ]),
-                Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
-                Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
-            ]);
-
-            let mut triangles = vec![Triangle(s0, s1, s2)];
-
-            // Bowyer-Watson insertion
-            for pid in 0..s0 {
-                Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
-            }
-
-            // Remove super-triangles and finalize
-            triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-            points.truncate(s0);
-
-            let mut dt = Self { points, triangles };
-
-            // Batch constraint processing
-            Self::process_constraints_batch(&mut dt, &job.segments);
-
-            results.push(dt);
-        }
-
-        results
+        jobs.iter()
+            .map(|job| {
+                let mut dt = Self::build(&job.points_uv);
+                Self::process_constraints_batch(&mut dt, &job.segments);
+                dt
+            })
+            .collect()
     }
 
     fn process_constraints_batch(dt: &mut Self, constraints_in: &[[usize; 2]]) {
@@ -236,104 +175,103 @@ where
 
     /// Build Delaunay triangulation of `pts`. Duplicates are ignored.
     pub fn build(pts: &[Point2<T>]) -> Self {
-        let mut points = pts.to_vec();
-        if points.len() < 3 {
+        let points = pts.to_vec();
+
+        // Seed with the first non-degenerate triangle; every hull edge u->v also
+        // carries a ghost triangle (v, u, GHOST) standing for the outside.
+        let Some([a, b, c]) = Self::first_triangle(&points) else {
             return Self {
                 points,
                 triangles: Vec::new(),
             };
-        }
-
-        // Create super-triangle that contains all points
-        let (min, max) = bbox_approx2d(&points);
-        let dx = &max[0] - &min[0];
-        let dy = &max[1] - &min[1];
-        let delta = dx.max(dy);
-        let cx = &(&min[0] + &max[0]) * &T::from_num_den(1, 2);
-        let cy = &(&min[1] + &max[1]) * &T::from_num_den(1, 2);
-
-        let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-        let sqrt_3 = T::from(SQRT_3);
-        let p_super0 = Point2::<T>::from_vals([
-            T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
-        ]);
-        let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-        let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-
-        let s0 = points.len();
-        let s1 = s0 + 1;
-        let s2 = s0 + 2;
-
-        points.push(p_super0);
-        points.push(p_super1);
-        points.push(p_super2);
-
-        // Initialize with super-triangle
-        let mut triangles = vec![Triangle(s0, s1, s2)];
+        };
+        let mut triangles = vec![
+            Triangle(a, b, c),
+            Triangle(b, a, GHOST),
+            Triangle(c, b, GHOST),
+            Triangle(a, c, GHOST),
+        ];
 
         // Insert each point using Bowyer-Watson
-        for pid in 0..s0 {
-            Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
+        for pid in 0..points.len() {
+            if pid != a && pid != b && pid != c {
+                Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
+            }
         }
 
-        // Remove super-triangles
-        triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-        points.truncate(s0);
+        // Remove ghosts
+        triangles.retain(|t| t.0 != GHOST && t.1 != GHOST && t.2 != GHOST);
 
         Self { points, triangles }
     }
 
+    /// First non-collinear triple of `points`, in CCW order.
+    fn first_triangle(points: &[Point2<T>]) -> Option<[usize; 3]> {
+        let b = (1..points.len()).find(|&i| points[i] != points[0])?;
+        for c in b + 1..points.len() {
+            let o = orient2d(&points[0], &points[b], &points[c]);
+            if o.is_positive() {
+                return Some([0, b, c]);
+            }
+            if o.is_negative() {
+                return Some([0, c, b]);
+            }
+        }
+        None
+    }
+
     /// Insert a single point using Bowyer-Watson algorithm
     fn bowyer_watson_insert_point(pid: usize, points: &[Point2<T>], triangles: &mut Vec<Triangle>) {
         let p = &points[pid];
 
         // Find triangles whose circumcircle contains p
-        let mut bad_triangles = Vec::new();
-        for (i, &t) in triangles.iter().enumerate() {
-            if Self::point_in_circumcircle_fast(p, t, points) {
-                bad_triangles.push(i);
-            }
-        }
+        let bad_triangles: Vec<usize> = (0..triangles.len())
+            .filter(|&i| Self::in_conflict(p, triangles[i], points))
+            .collect();
 
         if bad_triangles.is_empty() {
             return; // Point already well-positioned
         }
 
-        // Find cavity boundary
-        let mut edge_count = std::collections::HashMap::new();
-        for &i in &bad_triangles {
-            let t = triangles[i];
-            for edge in [
-                Edge::new(t.0, t.1),
-                Edge::new(t.1, t.2),
-                Edge::new(t.2, t.0),
-            ] {
-                *edge_count.entry(edge).or_insert(0) += 1;
-            }
-        }
-
-        // Boundary edges appear exactly once
-        let boundary_edges: Vec<Edge> = edge_count
-            .into_iter()
-            .filter_map(|(edge, count)| if count == 1 { Some(edge) } else { None })
+        // Cavity boundary: directed edges whose reverse is not part of the cavity
+        let cavity: AHashSet<(usize, usize)> = bad_triangles
+            .iter()
+            .flat_map(|&i| tri_edges(triangles[i]))
+            .collect();
+        let boundary_edges: Vec<(usize, usize)> = bad_triangles
+            .iter()
+            .flat_map(|&i| tri_edges(triangles[i]))
+            .filter(|&(u, v)| !cavity.contains(&(v, u)))
             .collect();
 
         // Remove bad triangles (in reverse order to preserve indices)
-        bad_triangles.sort_unstable();
         for &i in bad_triangles.iter().rev() {
             triangles.swap_remove(i);
         }
 
-        // Create new triangles by connecting boundary edges to new point
-        for edge in boundary_edges {
-            let new_triangle = if orient2d(&points[edge.a()], &points[edge.b()], p).is_positive() {
-                Triangle(edge.a(), edge.b(), pid)
-            } else {
-                Triangle(edge.a(), pid, edge.b())
-            };
-            triangles.push(new_triangle);
+        // Connect the boundary to the new point; orientation is inherited
+        for (u, v) in boundary_edges {
+            triangles.push(Triangle(u, v, pid));
+        }
+    }
+
+    /// Conflict test: circumcircle for real triangles, open half-plane (plus the
+    /// open hull edge itself) for ghost triangles.
+    fn in_conflict(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
+        let (a, b) = if t.0 == GHOST {
+            (t.1, t.2)
+        } else if t.1 == GHOST {
+            (t.2, t.0)
+        } else if t.2 == GHOST {
+            (t.0, t.1)
+        } else {
+            return Self::point_in_circumcircle_fast(p, t, points);
+        };
+        let o = orient2d(&points[a], &points[b], p);
+        if o.is_zero() {
+            return *p != points[a] && *p != points[b] && on_segment(&points[a], &points[b], p);
         }
+        o.is_positive()
     }
 
     /// Test if point is inside circumcircle of triangle
-- 
2.43.0


From 70026dc62882be300405ceb98013942fe012e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:13 +0000
Subject: [PATCH 02/49] fix: insert constraint edges by flipping only convex
 quads

The constraint walk flipped edges without checking that the surrounding
quad is convex, which produced overlapping triangles, and patched boundary
crossings with triangles that left the domain. Constraints could go missing
and booleans then panicked on the missing edge.

Collect the crossed edges and flip them away, postponing non-convex quads.
---
 src/operations/triangulation/delaunay.rs | 583 +++--------------------
 1 file changed, 53 insertions(+), 530 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 01993de..fd7083b 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -20,12 +20,13 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+use std::collections::VecDeque;
+
 use ahash::{AHashMap, AHashSet};
 use smallvec::SmallVec;
 
 use crate::geometry::Point2;
 use crate::geometry::point::Point;
-use crate::geometry::spatial_element::SpatialElement;
 use crate::geometry::util::EPS;
 use crate::kernel::predicates::{incircle, orient2d};
 use crate::mesh::basic_types::{Edge, Mesh, Triangle};
@@ -393,40 +394,11 @@ where
         true
     }
 
-    fn triangle_exists(&self, a: usize, b: usize, c: usize) -> bool {
-        let mut k = [a, b, c];
-        k.sort_unstable();
-        self.triangles.iter().any(|t| {
-            let mut s = [t.0, t.1, t.2];
-            s.sort_unstable();
-            s == k
-        })
-    }
-
-    fn neighbors_of(&self, v: usize) -> AHashSet<usize> {
-        let mut set = AHashSet::default();
-        for t in &self.triangles {
-            if t.0 == v {
-                set.insert(t.1);
-                set.insert(t.2);
-            }
-            if t.1 == v {
-                set.insert(t.0);
-                set.insert(t.2);
-            }
-            if t.2 == v {
-                set.insert(t.0);
-                set.insert(t.1);
-            }
-        }
-        set.remove(&v);
-        set
-    }
-
+    /// Force edge (a,b) into the triangulation by flipping away every edge it crosses.
     fn insert_constraint_walk(
         &mut self,
-        mut a: usize,
-        mut b: usize,
+        a: usize,
+        b: usize,
         adj: &mut Adj,
         constrained: &AHashSet<Edge>,
     ) -> Result<(), &'static str> {
@@ -434,276 +406,61 @@ where
             return Ok(());
         }
 
-        // Choose a starting triangle that actually faces toward the segment (a,b).
-        // Prefer a's incident triangles; if none useful, swap endpoints and try b.
-        let pick_start = |end: usize, other: usize| -> Option<usize> {
-            if let Some(inc) = adj.vert2tris.get(end) {
-                for &ti in inc.iter() {
-                    if exit_edge_of_triangle_fast(
-                        &self.points,
-                        adj,
-                        &self.triangles,
-                        ti,
-                        end,
-                        other,
-                    )
-                    .is_some()
-                    {
-                        return Some(ti);
-                    }
-                }
-                if let Some(&ti) = inc.get(0) {
-                    return Some(ti);
-                }
-            }
-            None
-        };
-        let mut current_tri = if let Some(ti) = pick_start(a, b) {
-            ti
-        } else if let Some(ti) = pick_start(b, a) {
-            std::mem::swap(&mut a, &mut b);
-            ti
-        } else {
-            return Err("no incident triangle for either endpoint");
+        let mut crossing: VecDeque<Edge> = {
+            let mut es: Vec<Edge> = adj
+                .edge2tris
+                .keys()
+                .copied()
+                .filter(|e| self.crosses(*e, a, b))
+                .collect();
+            es.sort_unstable_by_key(|e| (e.a(), e.b()));
+            es.into()
         };
+        if crossing.iter().any(|e| constrained.contains(e)) {
+            return Err("constraint crosses another constraint");
+        }
 
-        // Track the best (latest) apex seen on each side of (a,b).
-        let mut last_pos_apex: Option<usize> = None;
-        let mut last_neg_apex: Option<usize> = None;
-
-        // Visit-state: avoid cycles
-        let mut visited = ahash::AHashSet::<(usize, Edge)>::default();
-        let mut steps = 0usize;
-        let max_steps = 4 * self.triangles.len().max(10);
-
-        while !self.edge_exists(Edge::new(a, b)) {
-            steps += 1;
-            if steps > max_steps {
-                return Err("insert_constraint_walk: too many steps");
-            }
-
-            // Decide the edge we must cross from current_tri toward segment (a,b)
-            let (cross_e, nei) = match exit_edge_of_triangle_fast(
-                &self.points,
-                adj,
-                &self.triangles,
-                current_tri,
-                a,
-                b,
-            ) {
-                Some(x) => x,
-                None => return Err("walker stuck: no exit edge"),
+        // Flips of non-convex quads are postponed; each full round makes progress.
+        let mut postponed = 0usize;
+        while let Some(e) = crossing.pop_front() {
+            let (t0, t1) = match adj.edge2tris.get(&e).map(|v| v.as_slice()) {
+                Some(&[t0, t1]) => (t0, t1),
+                _ => return Err("constraint leaves the triangulated domain"),
             };
-
-            // Record apex on the side we are leaving across cross_e
-            if let Some(w) = third_vertex(self.triangles[current_tri], cross_e.a(), cross_e.b()) {
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_positive() {
-                    last_pos_apex = Some(w);
-                } else if s.is_negative() {
-                    last_neg_apex = Some(w);
-                }
-            }
-
-            if !visited.insert((current_tri, cross_e)) {
-                return Err("walker cycle detected");
-            }
-
-            // If we already have the target edge, stop walking; we'll add missing side(s) below.
-            if (cross_e.a() == a && cross_e.b() == b) || (cross_e.a() == b && cross_e.b() == a) {
-                break;
-            }
-
-            // Interior vs boundary
-            match adj.edge2tris.get(&cross_e).map(|v| v.len()).unwrap_or(0) {
-                2 => {
-                    // Interior: try to flip if allowed, otherwise step across.
-                    if !constrained.contains(&cross_e) {
-                        if let Some(new_e) = self.flip_shared_edge_with_adj(
-                            cross_e,
-                            adj.edge2tris[&cross_e][0],
-                            adj.edge2tris[&cross_e][1],
-                            constrained,
-                            adj,
-                        ) {
-                            // If this flip created (a,b), stop walking.
-                            if (new_e.a() == a && new_e.b() == b)
-                                || (new_e.a() == b && new_e.b() == a)
-                            {
-                                break;
-                            }
-                            // Re-evaluate from the same triangle index for stability.
-                            continue;
-                        }
-                    }
-                    // No flip (or constrained): step to neighbor if available.
-                    if let Some(next_ti) = nei {
-                        current_tri = next_ti;
-                    } else {
-                        return Err("no neighbor across interior edge");
+            match self.flip_shared_edge_with_adj(e, t0, t1, constrained, adj) {
+                Some(new_e) => {
+                    postponed = 0;
+                    if self.crosses(new_e, a, b) {
+                        crossing.push_back(new_e);
                     }
                 }
-                _ => {
-                    // Boundary: split triangles to introduce progress for (a,b), then continue walking.
-                    self.handle_boundary_crossing(current_tri, cross_e, a, b, adj)?;
-                    visited.clear(); // topology changed; clear cycle state
+                None => {
+                    crossing.push_back(e);
+                    postponed += 1;
+                    if postponed > crossing.len() {
+                        return Err("no flippable edge left");
+                    }
                 }
             }
         }
 
-        // At this point, (a,b) should exist. If it has only one incident triangle, add the missing one
-        // deterministically using the last recorded apex on the opposite side; fall back to best common neighbor.
-        self.add_missing_triangle_for_edge(a, b, last_pos_apex, last_neg_apex, adj);
-
-        Ok(())
-    }
-
-    /// After (a,b) exists, if it has only one incident triangle, add the missing one.
-    /// Prefer the recorded apexes from the walk; otherwise choose the best common neighbor on the opposite side.
-    fn add_missing_triangle_for_edge(
-        &mut self,
-        a: usize,
-        b: usize,
-        last_pos_apex: Option<usize>,
-        last_neg_apex: Option<usize>,
-        adj: &mut Adj,
-    ) where
-        T: PartialOrd,
-    {
-        let e = Edge::new(a, b);
-        let list = match adj.edge2tris.get(&e) {
-            Some(v) => v.clone(),
-            None => return,
-        };
-        if list.len() >= 2 {
-            return; // already has both sides
-        }
-        if list.is_empty() {
-            return; // unexpected; nothing to do
-        }
-
-        // Existing side sign
-        let ti_exist = list[0];
-        if ti_exist >= self.triangles.len() {
-            return;
-        }
-        let w_exist = match third_vertex(self.triangles[ti_exist], a, b) {
-            Some(w) => w,
-            None => return,
-        };
-        let s_exist = orient2d(&self.points[a], &self.points[b], &self.points[w_exist]);
-        if s_exist.is_zero() {
-            return;
-        }
-
-        // Target side is the opposite one
-        let want_pos = s_exist.is_negative();
-
-        // 1) Prefer recorded apex from the walk on the wanted side
-        let mut candidate = if want_pos {
-            last_pos_apex
+        if self.edge_exists(Edge::new(a, b)) {
+            Ok(())
         } else {
-            last_neg_apex
-        };
-
-        // 2) Fallback: search common neighbors of a and b on the wanted side, pick max |area|
-        if candidate.is_none() {
-            let na = self.neighbors_of(a);
-            let nb = self.neighbors_of(b);
-            let mut best_w: Option<usize> = None;
-            let mut best_score: Option<T> = None;
-            for &w in na.intersection(&nb) {
-                if w == a || w == b || w == w_exist {
-                    continue;
-                }
-                if self.triangle_exists(a, b, w) {
-                    continue;
-                }
-                // avoid creating long edges
-                if edge_has_mid_vertex(a, w, &self.points)
-                    || edge_has_mid_vertex(b, w, &self.points)
-                {
-                    continue;
-                }
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_zero() || (want_pos != s.is_positive()) {
-                    continue;
-                }
-                let score = if s.is_negative() { -s } else { s }; // |area|
-                if best_score.as_ref().map_or(true, |bs| score > *bs) {
-                    best_score = Some(score);
-                    best_w = Some(w);
-                }
-            }
-            candidate = best_w;
+            Err("constraint endpoint is not part of the triangulation")
         }
-
-        let Some(w) = candidate else {
-            return;
-        };
-
-        // Create triangle (a,b,w) with CCW orientation
-        let t_new = if orient2d(&self.points[a], &self.points[b], &self.points[w]).is_positive() {
-            Triangle(a, b, w)
-        } else {
-            Triangle(a, w, b)
-        };
-
-        let ti = self.triangles.len();
-        self.triangles.push(t_new);
-        adj.add_tri(ti, t_new);
     }
 
-    fn handle_boundary_crossing(
-        &mut self,
-        tri_idx: usize,
-        boundary_edge: Edge,
-        a: usize,
-        b: usize,
-        adj: &mut Adj,
-    ) -> Result<(), &'static str> {
-        // We are crossing a boundary edge (u,v) from triangle tri_idx. Replace it with TWO triangles
-        // that introduce the constrained edge between the endpoint on the boundary (anchor) and the other endpoint.
-        let tri = self.triangles[tri_idx];
-        let (u, v) = (boundary_edge.a(), boundary_edge.b());
-        let w = third_vertex(tri, u, v).ok_or("invalid boundary edge")?;
-
-        // Determine which endpoint of (a,b) lies on this boundary edge; that must be the anchor.
-        let anchor = if u == a || v == a {
-            a
-        } else if u == b || v == b {
-            b
-        } else {
-            return Err("hit unrelated boundary while inserting constraint");
-        };
-        let other = if anchor == a { b } else { a };
-
-        // First triangle introduces (anchor, other) with w
-        let t0 =
-            if orient2d(&self.points[anchor], &self.points[other], &self.points[w]).is_positive() {
-                Triangle(anchor, other, w)
-            } else {
-                Triangle(anchor, w, other)
-            };
-
-        // Second triangle closes the fan on the boundary edge using the vertex of (u,v) not equal to anchor
-        let x = if u == anchor { v } else { u };
-        let t1 = if orient2d(&self.points[other], &self.points[x], &self.points[w]).is_positive() {
-            Triangle(other, x, w)
-        } else {
-            Triangle(other, w, x)
-        };
-
-        // Commit both triangles
-        let old = self.triangles[tri_idx];
-        self.triangles[tri_idx] = t0;
-        let t1_idx = self.triangles.len();
-        self.triangles.push(t1);
-
-        adj.replace_tri(tri_idx, old, t0);
-        adj.add_tri(t1_idx, t1);
-
-        Ok(())
+    /// True if edge `e` properly crosses segment (a,b).
+    fn crosses(&self, e: Edge, a: usize, b: usize) -> bool {
+        let (u, v) = (e.a(), e.b());
+        if u == a || u == b || v == a || v == b {
+            return false;
+        }
+        let (pa, pb) = (&self.points[a], &self.points[b]);
+        let (pu, pv) = (&self.points[u], &self.points[v]);
+        opposite_signs(&orient2d(pa, pb, pu), &orient2d(pa, pb, pv))
+            && opposite_signs(&orient2d(pu, pv, pa), &orient2d(pu, pv, pb))
     }
 
     fn flip_shared_edge_with_adj(
@@ -745,6 +502,10 @@ where
         // Build new triangles (preserve CCW)
         let a0 = orient2d(&self.points[x], &self.points[u], &self.points[y]);
         let a1 = orient2d(&self.points[x], &self.points[y], &self.points[v]);
+        // Only a strictly convex quad may be flipped
+        if a0.is_zero() || a1.is_zero() || a0.is_positive() != a1.is_positive() {
+            return None;
+        }
         let t0_new = if a0.is_positive_or_zero() {
             Triangle(x, u, y)
         } else {
@@ -765,18 +526,8 @@ where
 }
 
 #[inline]
-fn third_vertex(t: Triangle, u: usize, v: usize) -> Option<usize> {
-    let vs = [t.0, t.1, t.2];
-    let mut count = 0;
-    let mut other = None;
-    for &w in &vs {
-        if w != u && w != v {
-            other = Some(w);
-        } else {
-            count += 1;
-        }
-    }
-    if count == 2 { other } else { None }
+fn opposite_signs<T: Scalar>(s: &T, t: &T) -> bool {
+    (s.is_positive() && t.is_negative()) || (s.is_negative() && t.is_positive())
 }
 
 #[inline]
@@ -790,234 +541,6 @@ fn tri_edges(t: Triangle) -> [(usize, usize); 3] {
     [(t.0, t.1), (t.1, t.2), (t.2, t.0)]
 }
 
-#[inline]
-fn tri_as_array(t: Triangle) -> [usize; 3] {
-    [t.0, t.1, t.2]
-}
-
-#[inline]
-fn has_vertex(t: Triangle, v: usize) -> bool {
-    t.0 == v || t.1 == v || t.2 == v
-}
-
-fn exit_edge_of_triangle_fast<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // Fast path using ball centers
-    if let (Some(ax), Some(ay), Some(bx), Some(by)) = (
-        points[a][0].as_f64_fast(),
-        points[a][1].as_f64_fast(),
-        points[b][0].as_f64_fast(),
-        points[b][1].as_f64_fast(),
-    ) {
-        // Use fast f64 computation for edge selection
-        return exit_edge_fast_f64(points, adj, tris, ti, ax, ay, bx, by);
-    }
-
-    // Fallback to exact
-    exit_edge_of_triangle(points, adj, tris, ti, a, b)
-}
-
-fn exit_edge_fast_f64<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    ax: f64,
-    ay: f64,
-    bx: f64,
-    by: f64,
-) -> Option<(Edge, Option<usize>)> {
-    let t = tris[ti];
-
-    // Fast f64 orientation tests
-    for (u, v) in [(t.0, t.1), (t.1, t.2), (t.2, t.0)] {
-        let ux = points[u][0].ball_center_f64();
-        let uy = points[u][1].ball_center_f64();
-        let vx = points[v][0].ball_center_f64();
-        let vy = points[v][1].ball_center_f64();
-
-        // Fast crossing test
-        let o1 = (bx - ax) * (uy - ay) - (by - ay) * (ux - ax);
-        let o2 = (bx - ax) * (vy - ay) - (by - ay) * (vx - ax);
-        let o3 = (vx - ux) * (ay - uy) - (vy - uy) * (ax - ux);
-        let o4 = (vx - ux) * (by - uy) - (vy - uy) * (bx - ux);
-
-        let eps = EPS * ((bx - ax).abs() + (by - ay).abs()).max(1.0);
-
-        if (o1 * o2 < -eps * eps) && (o3 * o4 < -eps * eps) {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
-/// Given current triangle index `ti`, decide the **one** edge we exit across,
-/// when walking from a -> b. Uses exact orient2d.
-/// Returns (crossed undirected edge, neighbor triangle index if interior).
-fn exit_edge_of_triangle<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let t = tris[ti];
-    let vs = tri_as_array(t);
-    let pa = &points[a];
-    let pb = &points[b];
-
-    // Case A: a is a vertex of this triangle (common at start)
-    if has_vertex(t, a) {
-        // let the other two vertices be x,y (not equal to a).
-        let mut other = [0usize; 2];
-        let mut k = 0;
-        for &v in &vs {
-            if v != a {
-                other[k] = v;
-                k += 1;
-            }
-        }
-        let x = other[0];
-        let y = other[1];
-        // If segment (a,b) exits the triangle, it exits across the edge between the two "other" vertices
-        // iff orient(a,b,x) and orient(a,b,y) have opposite signs.
-        let s1 = orient2d(pa, pb, &points[x]);
-        let s2 = orient2d(pa, pb, &points[y]);
-
-        // Touching a vertex (one sign == 0): step through the edge adjacent to that vertex that is crossed.
-        if s1.is_zero() && s2.is_zero() {
-            // (a,b) is collinear with both -> (a,b) lies exactly along the side through a.
-            // Walk out through the edge that contains a and heads towards b.
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    // choose the directed edge (a,*) whose midpoint is most "forward" towards b
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    let o = orient2d(pa, pb, &mid);
-                    if !o.is_zero() {
-                        let e = Edge::new(u, v);
-                        let nei = adj
-                            .edge2tris
-                            .get(&e)
-                            .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                        return Some((e, nei));
-                    }
-                }
-            }
-            return None;
-        } else if s1.is_zero() || s2.is_zero() {
-            // Through vertex: go through the edge opposite the *other* vertex
-            let vtx = if s1.is_zero() { x } else { y };
-            // Opposite edge is the edge that does not contain vtx
-            let mut e_opt = None;
-            for (u, v) in tri_edges(t) {
-                if u != vtx && v != vtx {
-                    e_opt = Some(Edge::new(u, v));
-                    break;
-                }
-            }
-            if let Some(e) = e_opt {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        } else if (s1.is_positive()) != (s2.is_positive()) {
-            // Different signs -> exit across the edge (x,y) (the one NOT incident to a)
-            let e = Edge::new(x, y);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        } else {
-            // Both on same side: we do not leave through the opposite edge; try an edge incident to a
-            // Pick the incident edge whose midpoint lies most "forward" wrt (a->b)
-            let mut best: Option<(Edge, T)> = None;
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    // Compare by projection on direction (a->b)
-                    let dx = &pb[0] - &pa[0];
-                    let dy = &pb[1] - &pa[1];
-                    let sx = &mid[0] - &pa[0];
-                    let sy = &mid[1] - &pa[1];
-                    let proj = dx * sx + dy * sy;
-                    let cand = (Edge::new(u, v), proj.clone());
-                    if best.as_ref().map_or(true, |(_, p)| proj > *p) {
-                        best = Some(cand);
-                    }
-                }
-            }
-            if let Some((e, _)) = best {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        }
-    }
-
-    // Case B: general triangle — test the three edges for proper crossing or interior touch
-    for (u, v) in tri_edges(t) {
-        let pu = &points[u];
-        let pv = &points[v];
-        let o1 = orient2d(pa, pb, pu);
-        let o2 = orient2d(pa, pb, pv);
-        let o3 = orient2d(pu, pv, pa);
-        let o4 = orient2d(pu, pv, pb);
-        let proper = (&o1 * &o2).is_negative() && (&o3 * &o4).is_negative();
-        let touch_inside = o1.is_zero() && (&o3 * &o4).is_negative()
-            || (o2.is_zero() && (&o3 * &o4).is_negative())
-            || (o3.is_zero() && (&o1 * &o2).is_negative())
-            || (o4.is_zero() && (&o1 * &o2).is_negative());
-        if proper || touch_inside {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
 #[inline]
 fn on_segment<T: Scalar + PartialOrd>(a: &Point2<T>, b: &Point2<T>, p: &Point2<T>) -> bool
 where
-- 
2.43.0


From effc57bc664e49b0faf9be1b134fbd3cbcdc06b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:16 +0000
Subject: [PATCH 03/49] fix: classify every region cut out by the intersection
 curves

Boolean operations flood-filled a single region from one seed face. When
the intersection curve cuts a surface into several inside regions, for
example a bar crossing a box, all but one were treated as outside and the
result had holes.

Flood-fill each region and classify it once, from its largest face.
---
 src/mesh_processing/boolean.rs | 153 +++++++++++----------------------
 1 file changed, 48 insertions(+), 105 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e16a2c6..b0714d2 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -154,48 +154,6 @@ where
             }
             return inside;
         } else {
-            let mut boundary_faces = AHashSet::new();
-            for seg in intersection_segments {
-                let v0 = seg.a.resulting_vertex.unwrap();
-                let v1 = seg.b.resulting_vertex.unwrap();
-
-                if let Some(&he) = self.edge_map.get(&(v0, v1)) {
-                    if let Some(f0) = self.half_edges[he].face {
-                        boundary_faces.insert(f0);
-                    }
-                    if let Some(f1) = self.half_edges[self.half_edges[he].twin].face {
-                        boundary_faces.insert(f1);
-                    }
-                }
-            }
-
-            // 3) pick a seed face that lies inside B
-            let seed_result = Self::get_seed_face_3(
-                &self,
-                &other,
-                &tree_b,
-                intersection_segments,
-                &boundary_faces,
-                include_on_surface,
-            );
-
-            if seed_result.is_none() {
-                for (f, face) in self.faces.iter().enumerate() {
-                    if face.removed {
-                        continue;
-                    }
-                    let c = self.face_centroid_fast(f);
-                    match other.point_in_mesh_3(&tree_b, &c) {
-                        PointInMeshResult::Inside => inside[f] = true,
-                        PointInMeshResult::OnSurface if include_on_surface => inside[f] = true,
-                        _ => {}
-                    }
-                }
-                return inside;
-            }
-
-            let (_seed_intersection_idx, selected_face) = seed_result.unwrap();
-
             let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
             for seg_idx in 0..intersection_segments.len() {
                 let seg = &intersection_segments[seg_idx];
@@ -222,43 +180,47 @@ where
                 face_pairs.entry(f1).or_default().push(f0);
             }
 
-            // 4) iterative flood‐fill without crossing the boundary_map
-            let mut queue = VecDeque::new();
-
-            // seed found as before
-            visited[selected_face] = true;
-            inside[selected_face] = true;
-            queue.push_back(selected_face);
-            let mut num_visited = 1;
-
-            while let Some(curr) = queue.pop_front() {
-                for nbr in self.adjacent_faces(curr) {
-                    if visited[nbr] {
-                        continue;
-                    }
+            // Flood-fill every region bounded by the intersection curves, and decide
+            // each region once, from its largest face.
+            for start in 0..self.faces.len() {
+                if visited[start] || self.faces[start].removed {
+                    continue;
+                }
 
-                    let paired = face_pairs.get(&curr);
-                    // skip exactly the neighbor that comes from the same segment split
-                    if let Some(pv) = paired {
-                        if pv.iter().any(|&pf| pf == nbr) {
-                            // this nbr is the other half of a segment splitting curr
+                visited[start] = true;
+                let mut region = vec![start];
+                let mut next = 0;
+                while next < region.len() {
+                    let curr = region[next];
+                    next += 1;
+                    for nbr in self.adjacent_faces(curr) {
+                        if visited[nbr] {
                             continue;
                         }
+                        // this nbr is the other half of a segment splitting curr
+                        if face_pairs.get(&curr).map_or(false, |pv| pv.contains(&nbr)) {
+                            continue;
+                        }
+                        visited[nbr] = true;
+                        region.push(nbr);
                     }
+                }
 
-                    // otherwise, it's a genuine inside‐region adjacency
-                    visited[nbr] = true;
-                    inside[nbr] = true;
-                    num_visited += 1;
-                    queue.push_back(nbr);
+                let representative = region
+                    .iter()
+                    .copied()
+                    .max_by(|&f, &g| self.face_area_fast(f).total_cmp(&self.face_area_fast(g)))
+                    .unwrap();
+                let c = self.face_centroid_fast(representative);
+                let region_inside = match other.point_in_mesh_3(&tree_b, &c) {
+                    PointInMeshResult::Inside => true,
+                    PointInMeshResult::OnSurface => include_on_surface,
+                    PointInMeshResult::Outside => false,
+                };
+                for f in region {
+                    inside[f] = region_inside;
                 }
             }
-
-            println!(
-                "Flood-fill visited {} faces out of {}",
-                num_visited,
-                self.faces.len()
-            );
         }
 
         if include_on_surface {
@@ -1119,39 +1081,20 @@ where
         triangles_per_group
     }
 
-    fn get_seed_face_3(
-        a: &Mesh<T, N>,
-        b: &Mesh<T, N>,
-        tree_b: &AabbTree<T, N, Point<T, N>, usize>,
-        intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        boundary_faces: &AHashSet<usize>,
-        include_on_surface: bool,
-    ) -> Option<(usize, usize)> {
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let v0 = seg.a.resulting_vertex.unwrap();
-            let v1 = seg.b.resulting_vertex.unwrap();
-
-            if let Some(&he) = a.edge_map.get(&(v0, v1)) {
-                for &face_id in &[
-                    a.half_edges[he].face,
-                    a.half_edges[a.half_edges[he].twin].face,
-                ] {
-                    if let Some(f) = face_id {
-                        if boundary_faces.contains(&f) {
-                            let centroid = a.face_centroid_fast(f);
-                            match b.point_in_mesh_3(tree_b, &centroid) {
-                                PointInMeshResult::Inside => return Some((seg_idx, f)),
-                                PointInMeshResult::OnSurface if include_on_surface => {
-                                    return Some((seg_idx, f));
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                }
-            }
-        }
-        None
+    /// Squared area (up to a constant factor) of a face, in plain f64.
+    fn face_area_fast(&self, f: usize) -> f64 {
+        let vs = self.face_vertices(f);
+        let p: [[f64; 3]; 3] = from_fn(|i| {
+            from_fn(|k| self.vertices[vs[i]].position[k].ball_center_f64())
+        });
+        let e: [f64; 3] = from_fn(|k| p[1][k] - p[0][k]);
+        let g: [f64; 3] = from_fn(|k| p[2][k] - p[0][k]);
+        let n = [
+            e[1] * g[2] - e[2] * g[1],
+            e[2] * g[0] - e[0] * g[2],
+            e[0] * g[1] - e[1] * g[0],
+        ];
+        n[0] * n[0] + n[1] * n[1] + n[2] * n[2]
     }
 
     fn get_seed_face_2(
-- 
2.43.0


From 2a50524aed1b9d4cd56a0e9f86120e4ee28bb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 04/49] fix: keep the ball of a lazy scalar around its value

A non-dyadic rational leaf got a ball of radius zero around its rounded
value, and a reciprocal ignored the rounding of 1/m. A sign could be
reported as certain and be wrong.
---
 src/numeric/ball.rs       | 18 +++++++++++++++---
 src/numeric/lazy_exact.rs |  7 ++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..90a20dc 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -46,6 +46,14 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// Ball around a double known to be within one ulp of the value.
+    #[inline]
+    pub fn from_rounded_f64(x: f64) -> Self {
+        Ball {
+            m: x,
+            r: Self::widen_ulp(x),
+        }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
@@ -99,10 +107,14 @@ impl Ball {
         if self.m.abs() <= self.r {
             return Ball::unknown();
         }
-        let denom = self.m.abs() * (self.m.abs() - self.r);
+        let am = self.m.abs();
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
-        Ball { m, r }
+        // |1/x - 1/m| <= r / (|m| (|m| - r)), plus the rounding of 1/m itself
+        let r = self.r / am / (am - self.r) * (1.0 + 4.0 * f64::EPSILON);
+        Ball {
+            m,
+            r: r + Self::widen_ulp(m),
+        }
     }
 
     #[inline]
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..5dea380 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -825,7 +825,12 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => match e.to_f64() {
+                // only dyadic values fit a double; any other one is off by the conversion error
+                Some(v) if v.is_finite() && CgarRational::from(v) == **e => Ball::from_f64(v),
+                Some(v) => Ball::from_rounded_f64(v),
+                None => Ball::unknown(),
+            },
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From 6935b4ccf5f52f5efa77a4298010567e3c9d063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 05/49] fix: compare -0.0 and 0.0 as equal lazy scalars

cmp_ref ordered the two zeros while == and partial_cmp called them equal.
---
 src/numeric/lazy_exact.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 5dea380..e7ff9ad 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -159,7 +159,10 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            // finite values; unlike total_cmp, -0.0 and 0.0 are the same number
+            if let Some(o) = da.partial_cmp(&db) {
+                return o;
+            }
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
-- 
2.43.0


From 46d6c44de540e13c326e187b6bd411be38a46062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 06/49] fix: compare lazy scalars beyond the double range

A rational too large for a double was converted back from infinity, which
panics.
---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index e7ff9ad..c925524 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -360,7 +360,7 @@ impl LazyExact {
             Kind::LeafExact(e) => {
                 if let Some(v) = e.to_f64() {
                     // accept only if round-trip is exact (dyadic)
-                    if CgarRational::from(v) == **e {
+                    if v.is_finite() && CgarRational::from(v) == **e {
                         Some(v)
                     } else {
                         None
-- 
2.43.0


From 9b69aa2efbc056370c86cba9a291acb3d703bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 07/49] fix: enclose rationals in their double interval

The interval was the truncated value on both ends.
---
 src/numeric/cgar_rational.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 6ddea2e..d457245 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -24,6 +24,7 @@ use num_traits::ToPrimitive;
 use rug::Rational;
 
 use crate::{
+    geometry::util::{f64_next_down, f64_next_up},
     numeric::{
         cgar_f64::CgarF64,
         lazy_exact::LazyExact,
@@ -117,7 +118,12 @@ impl Scalar for CgarRational {
     }
 
     fn double_interval(&self) -> Option<(f64, f64)> {
-        Some((self.0.to_f64(), self.0.to_f64()))
+        let v = self.0.to_f64();
+        if v.is_finite() && self.0 == v {
+            return Some((v, v));
+        }
+        // to_f64() truncates: the value lies strictly between two neighbouring doubles
+        Some((f64_next_down(v), f64_next_up(v)))
     }
 
     fn ball_center_f64(&self) -> f64 {
-- 
2.43.0


From d644ad256057ea73295fd84e2c8a166be6b2990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 08/49] fix: count only live entries when inserting next to a
 dead leaf

---
 src/geometry/aabb_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..5c99080 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -268,6 +268,7 @@ where
 
                 let node_aabb = left_child.aabb().union(right_child.aabb()); // exact once here
                 let total_items = left_child.size() + right_child.size();
+                let valid_items = usize::from(*valid) + 1;
                 let (lmn, lmx) = left_child.approx_bounds();
                 let (rmn, rmx) = right_child.approx_bounds();
                 let (amin_u, amax_u) = approx_union(&lmn, &lmx, &rmn, &rmx);
@@ -276,7 +277,7 @@ where
                     aabb: node_aabb,
                     left: left_child,
                     right: right_child,
-                    valid_count: total_items,
+                    valid_count: valid_items,
                     total_count: total_items,
                     amin: amin_u,
                     amax: amax_u,
-- 
2.43.0


From 483db836d7c708655b62bb24db70ebf5b8193e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 09/49] fix: bound AABB tree boxes outward

The cached double bounds were one ulp around an approximation that may be
off by more, so queries could miss boxes.
---
 src/geometry/aabb_tree.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 5c99080..a42692c 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -588,11 +588,16 @@ fn approx_from_exact<T: Scalar, const N: usize, P: SpatialElement<T, N>>(
     let mut mn = [0.0; N];
     let mut mx = [0.0; N];
     for i in 0..N {
-        // outward-safe: step one ULP past the rounded extremes
-        let lo = as_f64(&a.min[i]);
-        let hi = as_f64(&a.max[i]);
-        mn[i] = f64_next_down(lo);
-        mx[i] = f64_next_up(hi);
+        // outward-safe: step one ULP past the ends of the enclosing intervals;
+        // a coordinate without a usable enclosure does not bound the box
+        mn[i] = match a.min[i].double_interval() {
+            Some((lo, _)) if !lo.is_nan() => f64_next_down(lo),
+            _ => f64::NEG_INFINITY,
+        };
+        mx[i] = match a.max[i].double_interval() {
+            Some((_, hi)) if !hi.is_nan() => f64_next_up(hi),
+            _ => f64::INFINITY,
+        };
     }
     (mn, mx)
 }
-- 
2.43.0


From 7de8c6f4d1e232033a5f4d10d4b7dad270c76d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:33 +0000
Subject: [PATCH 10/49] fix: compute the determinant in orient() with row
 exchange and division

The elimination multiplied the result by the leading pivot and gave up on a
zero pivot. The sign was therefore wrong whenever the second point lies left
of the first, and zero whenever both share an abscissa.
---
 src/kernel/orientation.rs | 127 ++++++++++++++++++++------------------
 1 file changed, 67 insertions(+), 60 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index cdb4ffe..581b255 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -1,60 +1,67 @@
-// SPDX-License-Identifier: MIT
-//
-// Copyright (c) 2025 Alexandre Severino
-//
-// Permission is hereby granted, free of charge, to any person obtaining a copy
-// of this software and associated documentation files (the "Software"), to deal
-// in the Software without restriction, including without limitation the rights
-// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-// copies of the Software, and to permit persons to whom the Software is
-// furnished to do so, subject to the following conditions:
-//
-// The above copyright notice and this permission notice shall be included in
-// all copies or substantial portions of the Software.
-//
-// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-// SOFTWARE.
-
-use crate::geometry::point::Point;
-use crate::numeric::scalar::Scalar;
-use std::{
-    array::from_fn,
-    ops::{Add, Mul, Neg, Sub},
-};
-
-/// Returns:
-/// - >0 if counter-clockwise
-/// - <0 if clockwise
-/// - =0 if collinear
-pub fn orient<T, const N: usize>(p: &[Point<T, N>]) -> T
-where
-    T: Scalar + Neg<Output = T>,
-    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
-{
-    assert!(p.len() == N + 1, "need N+1 points");
-    // 1. Build an NxN matrix of the difference vectors  (p[i+1] – p[0])
-    let mut m: [[T; N]; N] =
-        from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
-
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // running ±product of pivots
-    for k in 0..N {
-        // pivot = m[k][k];  if zero, determinant is zero
-        if m[k][k].abs() == T::zero() {
-            return T::zero();
-        }
-        for i in (k + 1)..N {
-            for j in (k + 1)..N {
-                //   m[i][j] = m[i][j] * pivot - m[i][k] * m[k][j];
-                m[i][j] = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
-            }
-        }
-        det = det * m[k][k].clone();
-    }
-    det
-}
+// SPDX-License-Identifier: MIT
+//
+// Copyright (c) 2025 Alexandre Severino
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in
+// all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+use crate::geometry::point::Point;
+use crate::numeric::scalar::Scalar;
+use std::{
+    array::from_fn,
+    ops::{Add, Mul, Neg, Sub},
+};
+
+/// Returns:
+/// - >0 if counter-clockwise
+/// - <0 if clockwise
+/// - =0 if collinear
+pub fn orient<T, const N: usize>(p: &[Point<T, N>]) -> T
+where
+    T: Scalar + Neg<Output = T>,
+    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
+{
+    assert!(p.len() == N + 1, "need N+1 points");
+    // 1. Build an NxN matrix of the difference vectors  (p[i+1] – p[0])
+    let mut m: [[T; N]; N] =
+        from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
+
+    // 2. Fraction-free Gaussian elimination → determinant in `det`
+    let mut det = T::one(); // previous pivot; the last one is the determinant
+    for k in 0..N {
+        // a zero pivot is exchanged with a row below; none left => determinant is zero
+        match (k..N).find(|&r| m[r][k].abs() != T::zero()) {
+            None => return T::zero(),
+            Some(r) if r != k => {
+                m.swap(k, r);
+                for x in m[k].iter_mut() {
+                    *x = -x.clone();
+                }
+            }
+            _ => {}
+        }
+        for i in (k + 1)..N {
+            for j in (k + 1)..N {
+                //   m[i][j] = (m[i][j] * pivot - m[i][k] * m[k][j]) / previous pivot;
+                m[i][j] = (&(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j])) / det.clone();
+            }
+        }
+        det = m[k][k].clone();
+    }
+    det
+}
-- 
2.43.0


From f0baee515679463c7de9d9df6255641609aa8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:07 +0000
Subject: [PATCH 11/49] fix: do not snap orient2d and incircle to zero for
 exact scalars

Exact determinants below the floating-point guard were reported as zero, so
small or nearly degenerate figures were taken for degenerate ones.
---
 src/kernel/predicates.rs | 1404 +++++++++++++++++++-------------------
 1 file changed, 707 insertions(+), 697 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 84d6cf3..e57bd84 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -1,697 +1,707 @@
-// SPDX-License-Identifier: MIT
-//
-// Copyright (c) 2025 Alexandre Severino
-//
-// Permission is hereby granted, free of charge, to any person obtaining a copy
-// of this software and associated documentation files (the "Software"), to deal
-// in the Software without restriction, including without limitation the rights
-// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-// copies of the Software, and to permit persons to whom the Software is
-// furnished to do so, subject to the following conditions:
-//
-// The above copyright notice and this permission notice shall be included in
-// all copies or substantial portions of the Software.
-//
-// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-// SOFTWARE.
-
-use crate::geometry::point::PointOps;
-use crate::geometry::segment::Segment;
-use crate::geometry::spatial_element::SpatialElement;
-use crate::geometry::util::EPS;
-use crate::geometry::vector::{Cross3, VectorOps};
-use crate::geometry::{Point2, Point3};
-use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
-use std::ops::{Add, Div, Mul, Sub};
-
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
-pub enum TrianglePoint {
-    Off,
-    OnEdge,
-    OnVertex,
-    In,
-}
-
-pub fn are_equal<T: Scalar, const N: usize>(p1: &Point<T, N>, p2: &Point<T, N>) -> bool
-where
-    for<'a> &'a T: Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
-{
-    for i in 0..N {
-        if !(&p1.coords[i] - &p2.coords[i]).is_zero() {
-            return false;
-        }
-    }
-
-    return true;
-}
-
-pub fn are_approximately_equal<T: Scalar, const N: usize>(
-    p1: &Point<T, N>,
-    p2: &Point<T, N>,
-) -> bool
-where
-    for<'a> &'a T: Sub<&'a T, Output = T>,
-{
-    for i in 0..N {
-        let diff = &p1.coords[i] - &p2.coords[i];
-
-        // Fast path: try approximation first
-        if let Some(diff_f64) = diff.as_f64_fast() {
-            if diff_f64.abs() > T::point_merge_threshold().as_f64_fast().unwrap_or(EPS) {
-                return false;
-            }
-        } else {
-            // Fallback: use exact comparison only if approximation unavailable
-            if !diff.is_zero() {
-                return false;
-            }
-        }
-    }
-    true
-}
-
-pub fn are_collinear<T, const N: usize>(a: &Point<T, N>, b: &Point<T, N>, c: &Point<T, N>) -> bool
-where
-    T: Scalar,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    for i in 0..N {
-        let ui = &b.coords[i] - &a.coords[i];
-        let vi = &c.coords[i] - &a.coords[i];
-
-        if ui.abs().is_positive() {
-            // first non-zero component gives the candidate scale factor
-            let r = &vi / &ui;
-
-            // every remaining coordinate must satisfy vj = r * uj
-            for j in (i + 1)..N {
-                let uj = &b.coords[j] - &a.coords[j];
-                let vj = &c.coords[j] - &a.coords[j];
-                if (&vj - &(&uj * &r)).abs().is_positive() {
-                    return false; // breaks proportionality
-                }
-            }
-            return true; // all coordinates match
-        } else if vi.abs().is_positive() {
-            return false; // ui ≈ 0 but vi isn’t ⇒ not collinear
-        }
-    }
-    // all ui ≈ 0  ⇒  A and B coincide; collinear iff C coincides too
-    true
-}
-
-pub fn triangle_is_degenerate<T: Scalar, const N: usize>(
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    c: &Point<T, N>,
-) -> bool
-where
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // Coincidence or collinearity → zero area
-    are_equal(a, b) || are_equal(a, c) || are_equal(b, c) || are_collinear(a, b, c)
-}
-
-pub fn is_point_on_segment<T, const N: usize>(p: &Point<T, N>, seg: &Segment<T, N>) -> bool
-where
-    T: Scalar,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-    T: PartialOrd, // needed for comparisons inside the loop
-{
-    // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(p, &seg.a, &seg.b) {
-        return false;
-    }
-
-    // 2.  For every coordinate axis, P must lie between A and B
-    for i in 0..N {
-        let ai = &seg.a.coords[i];
-        let bi = &seg.b.coords[i];
-
-        // min_i, max_i bounds
-        let (min_i, max_i) = if ai <= bi { (ai, bi) } else { (bi, ai) };
-
-        let pi = &p.coords[i];
-        if pi < min_i || pi > max_i {
-            return false; // outside on some axis ⇒ not on segment
-        }
-    }
-
-    true
-}
-
-pub fn point_u_on_segment<T: Scalar + PartialOrd, const N: usize>(
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    p: &Point<T, N>,
-) -> Option<T>
-where
-    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
-    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Add<&'a T, Output = T>
-        + Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // Direction and offset
-    let ab = (b - a).as_vector();
-    let ap = (p - a).as_vector();
-
-    // Degenerate segment?
-    let ab2 = ab.dot(&ab);
-    if ab2.is_zero() {
-        return if are_equal(a, p) {
-            Some(T::zero())
-        } else if are_equal(b, p) {
-            Some(T::one())
-        } else {
-            None
-        };
-    }
-
-    // Must be collinear with AB
-    if !are_collinear(a, b, p) {
-        return None;
-    }
-
-    // Parametric coordinate along AB
-    let u = ap.dot(&ab) / ab2;
-    if u < T::zero() || u > T::one() {
-        None
-    } else {
-        Some(u)
-    }
-}
-
-pub fn point_u_on_segment_with_tolerance<T: Scalar + PartialOrd, const N: usize>(
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    p: &Point<T, N>,
-    tolerance: &T,
-) -> Option<T>
-where
-    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
-    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Add<&'a T, Output = T>
-        + Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    fn are_approx<TT: Scalar, const NN: usize>(
-        p1: &Point<TT, NN>,
-        p2: &Point<TT, NN>,
-        tolerance: &TT,
-    ) -> bool
-    where
-        for<'a> &'a TT:
-            Add<&'a TT, Output = TT> + Sub<&'a TT, Output = TT> + Mul<&'a TT, Output = TT>,
-    {
-        let tolerance_sq = tolerance * tolerance;
-        let mut distance_sq = TT::zero();
-
-        for i in 0..NN {
-            let diff = &p1.coords[i] - &p2.coords[i];
-            distance_sq = &distance_sq + &(&diff * &diff);
-        }
-
-        (distance_sq - tolerance_sq).is_negative_or_zero()
-    }
-
-    // Direction and offset
-    let ab = (b - a).as_vector();
-    let ap = (p - a).as_vector();
-
-    // Degenerate segment?
-    let ab2 = ab.dot(&ab);
-    if ab2.is_zero() {
-        return if are_approx(a, p, tolerance) {
-            Some(T::zero())
-        } else if are_approx(b, p, tolerance) {
-            Some(T::one())
-        } else {
-            None
-        };
-    }
-
-    // Parametric coordinate along AB
-    let u = ap.dot(&ab) / ab2;
-
-    // Clamp u to [0, 1] range for distance calculation
-    let u_clamped = if u < T::zero() {
-        T::zero()
-    } else if u > T::one() {
-        T::one()
-    } else {
-        u.clone()
-    };
-
-    // Calculate closest point on segment
-    let closest_point_vector = ab.scale(&u_clamped);
-    let closest_point = a + &closest_point_vector.0;
-
-    // Calculate distance from p to closest point on segment
-    let distance_vector = (p - &closest_point).as_vector();
-    let distance_sq = distance_vector.dot(&distance_vector);
-    let tolerance_sq = tolerance * tolerance;
-
-    // Check if point is within tolerance of the segment
-    if distance_sq <= tolerance_sq {
-        // Return the original u parameter (not clamped) if within tolerance
-        Some(u)
-    } else {
-        None
-    }
-}
-
-pub fn point_in_or_on_triangle_old<T: Scalar, const N: usize>(
-    p: &Point<T, N>,
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    c: &Point<T, N>,
-) -> TrianglePoint
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // Barycentric setup
-    let v0 = (c - a).as_vector();
-    let v1 = (b - a).as_vector();
-    let v2 = (p - a).as_vector();
-
-    let dot00 = v0.dot(&v0);
-    let dot01 = v0.dot(&v1);
-    let dot02 = v0.dot(&v2);
-    let dot11 = v1.dot(&v1);
-    let dot12 = v1.dot(&v2);
-
-    let denom = &dot00 * &dot11 - &dot01 * &dot01;
-
-    // Degenerate triangle (zero/near-zero area)
-    if denom.abs() < T::tolerance() {
-        return TrianglePoint::Off;
-    }
-
-    let inv = T::one() / denom;
-    let u = &(&dot11 * &dot02 - &dot01 * &dot12) * &inv;
-    let v = &(&dot00 * &dot12 - &dot01 * &dot02) * &inv;
-    let sum_uv = &u + &v;
-    let w = &T::one() - &sum_uv;
-
-    // Classification with tolerance
-    let e = T::tolerance();
-    let neg_e = e.clone().neg();
-
-    // Outside if any barycentric is below -eps or u+v exceeds 1+eps
-    if u < neg_e || v < neg_e || sum_uv > &T::one() + &e {
-        return TrianglePoint::Off;
-    }
-
-    // On if any barycentric is within eps of the boundary
-    // Check if on vertex (distance to vertex is zero)
-    if are_equal(p, a) || are_equal(p, b) || are_equal(p, c) {
-        return TrianglePoint::OnVertex;
-    }
-
-    // Check if on edge (one barycentric coordinate is zero)
-    if u.is_zero() || v.is_zero() || w.is_zero() {
-        return TrianglePoint::OnEdge;
-    }
-
-    TrianglePoint::In
-}
-
-#[inline(always)]
-pub fn point_in_or_on_triangle<T: Scalar + PartialOrd, const N: usize>(
-    p: &Point<T, N>,
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    c: &Point<T, N>,
-) -> TrianglePoint
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Add<&'a T, Output = T>
-        + Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
-    #[inline(always)]
-    fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
-        let zero = TS::zero();
-
-        // exact zero flags
-        let z0 = e0.is_zero();
-        let z1 = e1.is_zero();
-        let z2 = e2.is_zero();
-        let zc = (z0 as u8) + (z1 as u8) + (z2 as u8);
-
-        // mixed signs => strictly outside
-        let has_neg = (!z0 && *e0 < zero) || (!z1 && *e1 < zero) || (!z2 && *e2 < zero);
-        let has_pos = (!z0 && *e0 > zero) || (!z1 && *e1 > zero) || (!z2 && *e2 > zero);
-        if has_neg && has_pos {
-            return TrianglePoint::Off;
-        }
-
-        // boundary cases
-        if zc >= 2 {
-            return TrianglePoint::OnVertex; // exactly at a vertex
-        }
-        if zc == 1 {
-            return TrianglePoint::OnEdge; // exactly on a unique edge
-        }
-
-        // inside (all nonzero and same sign)
-        TrianglePoint::In
-    }
-
-    if N == 2 {
-        // degenerate?
-        let abx = &b[0] - &a[0];
-        let aby = &b[1] - &a[1];
-        let acx = &c[0] - &a[0];
-        let acy = &c[1] - &a[1];
-        let area2 = &(&abx * &acy) - &(&aby * &acx);
-        if area2.is_zero() {
-            return TrianglePoint::Off;
-        }
-
-        // edge functions
-        let bcx = &c[0] - &b[0];
-        let bcy = &c[1] - &b[1];
-        let cax = &a[0] - &c[0];
-        let cay = &a[1] - &c[1];
-
-        let apx = &p[0] - &a[0];
-        let apy = &p[1] - &a[1];
-        let bpx = &p[0] - &b[0];
-        let bpy = &p[1] - &b[1];
-        let cpx = &p[0] - &c[0];
-        let cpy = &p[1] - &c[1];
-
-        let e0 = &(&abx * &apy) - &(&aby * &apx);
-        let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
-        let e2 = &(&cax * &cpy) - &(&cay * &cpx);
-
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
-        return classify_from_edges(&e0, &e1, &e2);
-    } else if N == 3 {
-        // normal and degeneracy
-        let ab = (b - a).as_vector_3();
-        let ac = (c - a).as_vector_3();
-        let n = ab.cross(&ac);
-        if n[0].is_zero() && n[1].is_zero() && n[2].is_zero() {
-            return TrianglePoint::Off;
-        }
-
-        // edge functions projected on n
-        let ap = (p - a).as_vector_3();
-        let bp = (p - b).as_vector_3();
-        let cp = (p - c).as_vector_3();
-        let bc = (c - b).as_vector_3();
-        let ca = (a - c).as_vector_3();
-
-        let e0 = ab.cross(&ap).dot(&n);
-        let e1 = bc.cross(&bp).dot(&n);
-        let e2 = ca.cross(&cp).dot(&n);
-
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
-        return classify_from_edges(&e0, &e1, &e2);
-    } else {
-        panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-    }
-}
-
-#[inline]
-pub fn orient2d<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>) -> T
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let det = (&b[0] - &a[0]) * (&c[1] - &a[1]) - (&b[1] - &a[1]) * (&c[0] - &a[0]);
-
-    let scale_approx = if let (Some(a0), Some(a1), Some(b0), Some(b1), Some(c0), Some(c1)) = (
-        a[0].as_f64_fast(),
-        a[1].as_f64_fast(),
-        b[0].as_f64_fast(),
-        b[1].as_f64_fast(),
-        c[0].as_f64_fast(),
-        c[1].as_f64_fast(),
-    ) {
-        (a0.abs() + a1.abs() + b0.abs() + b1.abs() + c0.abs() + c1.abs()) * EPS
-    } else {
-        EPS // Conservative fallback without exact computation
-    };
-
-    if let Some(det_approx) = det.as_f64_fast() {
-        if det_approx.abs() <= scale_approx {
-            T::zero()
-        } else {
-            det
-        }
-    } else {
-        det // Can't determine with approximation, return raw determinant
-    }
-}
-
-#[inline]
-pub fn incircle<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>, d: &Point2<T>) -> T
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // Compute with standard determinant expansion; apply light scaling guard.
-    // (Assumes abc CCW. If not, caller should flip sign or reorder.)
-    let ax = &a[0] - &d[0];
-    let ay = &a[1] - &d[1];
-    let a2 = &ax * &ax + &ay * &ay;
-    let bx = &b[0] - &d[0];
-    let by = &b[1] - &d[1];
-    let b2 = &bx * &bx + &by * &by;
-    let cx = &c[0] - &d[0];
-    let cy = &c[1] - &d[1];
-    let c2 = &cx * &cx + &cy * &cy;
-
-    let det = &ax * &(&(&by * &c2) - &(&b2 * &cy)) - &ay * &(&(&bx * &c2) - &(&b2 * &cx))
-        + &a2 * &(&(&bx * &cy) - &(&by * &cx));
-
-    let scale =
-        (&ax.abs() + &ay.abs() + bx.abs() + by.abs() + cx.abs() + cy.abs()).max(T::from(1.0));
-    let eps = &scale * &scale * T::from(EPS);
-    if (&det.abs() - &eps).is_negative_or_zero() {
-        T::zero()
-    } else {
-        det
-    }
-}
-
-#[inline]
-pub fn bbox2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>)
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let mut minx = &pts[0][0];
-    let mut miny = &pts[0][1];
-    let mut maxx = &pts[0][0];
-    let mut maxy = &pts[0][1];
-    for p in &pts[1..] {
-        if (&p[0] - &minx).is_negative() {
-            minx = &p[0];
-        }
-        if (&p[1] - &miny).is_negative() {
-            miny = &p[1];
-        }
-        if (&p[0] - &maxx).is_positive() {
-            maxx = &p[0];
-        }
-        if (&p[1] - maxy).is_positive() {
-            maxy = &p[1];
-        }
-    }
-    (
-        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
-        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
-    )
-}
-
-#[inline]
-pub fn bbox_approx2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>) {
-    let mut minx = pts[0][0].ball_center_f64();
-    let mut miny = pts[0][1].ball_center_f64();
-    let mut maxx = minx;
-    let mut maxy = miny;
-
-    for p in &pts[1..] {
-        let px = p[0].ball_center_f64();
-        let py = p[1].ball_center_f64();
-
-        if px < minx {
-            minx = px;
-        }
-        if py < miny {
-            miny = py;
-        }
-        if px > maxx {
-            maxx = px;
-        }
-        if py > maxy {
-            maxy = py;
-        }
-    }
-
-    (
-        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
-        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
-    )
-}
-
-#[inline]
-pub fn bbox3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>)
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let mut minx = &pts[0][0];
-    let mut miny = &pts[0][1];
-    let mut minz = &pts[0][2];
-    let mut maxx = &pts[0][0];
-    let mut maxy = &pts[0][1];
-    let mut maxz = &pts[0][2];
-    for p in &pts[1..] {
-        if (&p[0] - &minx).is_negative() {
-            minx = &p[0];
-        }
-        if (&p[1] - &miny).is_negative() {
-            miny = &p[1];
-        }
-        if (&p[2] - &minz).is_negative() {
-            minz = &p[2];
-        }
-        if (&p[0] - &maxx).is_positive() {
-            maxx = &p[0];
-        }
-        if (&p[1] - maxy).is_positive() {
-            maxy = &p[1];
-        }
-        if (&p[2] - &maxz).is_positive() {
-            maxz = &p[2];
-        }
-    }
-    (
-        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
-        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
-    )
-}
-
-#[inline]
-pub fn bbox_approx3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>) {
-    let mut minx = pts[0][0].ball_center_f64();
-    let mut miny = pts[0][1].ball_center_f64();
-    let mut minz = pts[0][2].ball_center_f64();
-    let mut maxx = minx;
-    let mut maxy = miny;
-    let mut maxz = minz;
-
-    for p in &pts[1..] {
-        let px = p[0].ball_center_f64();
-        let py = p[1].ball_center_f64();
-        let pz = p[2].ball_center_f64();
-        if px < minx {
-            minx = px;
-        }
-        if py < miny {
-            miny = py;
-        }
-        if pz < minz {
-            minz = pz;
-        }
-        if px > maxx {
-            maxx = px;
-        }
-        if py > maxy {
-            maxy = py;
-        }
-        if pz > maxz {
-            maxz = pz;
-        }
-    }
-
-    (
-        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
-        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
-    )
-}
-
-#[inline]
-pub fn centroid2<T: Scalar>(a: &Point2<T>, b: &Point2<T>) -> Point2<T>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    Point::<T, 2>::from_vals([
-        T::from_num_den(1, 2) * (&a[0] + &b[0]),
-        T::from_num_den(1, 2) * (&a[1] + &b[1]),
-    ])
-}
+// SPDX-License-Identifier: MIT
+//
+// Copyright (c) 2025 Alexandre Severino
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in
+// all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+use crate::geometry::point::PointOps;
+use crate::geometry::segment::Segment;
+use crate::geometry::spatial_element::SpatialElement;
+use crate::geometry::util::EPS;
+use crate::geometry::vector::{Cross3, VectorOps};
+use crate::geometry::{Point2, Point3};
+use crate::geometry::{point::Point, vector::Vector};
+use crate::numeric::cgar_f64::CgarF64;
+use crate::numeric::scalar::{RefInto, Scalar};
+use std::ops::{Add, Div, Mul, Sub};
+
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+pub enum TrianglePoint {
+    Off,
+    OnEdge,
+    OnVertex,
+    In,
+}
+
+pub fn are_equal<T: Scalar, const N: usize>(p1: &Point<T, N>, p2: &Point<T, N>) -> bool
+where
+    for<'a> &'a T: Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
+{
+    for i in 0..N {
+        if !(&p1.coords[i] - &p2.coords[i]).is_zero() {
+            return false;
+        }
+    }
+
+    return true;
+}
+
+pub fn are_approximately_equal<T: Scalar, const N: usize>(
+    p1: &Point<T, N>,
+    p2: &Point<T, N>,
+) -> bool
+where
+    for<'a> &'a T: Sub<&'a T, Output = T>,
+{
+    for i in 0..N {
+        let diff = &p1.coords[i] - &p2.coords[i];
+
+        // Fast path: try approximation first
+        if let Some(diff_f64) = diff.as_f64_fast() {
+            if diff_f64.abs() > T::point_merge_threshold().as_f64_fast().unwrap_or(EPS) {
+                return false;
+            }
+        } else {
+            // Fallback: use exact comparison only if approximation unavailable
+            if !diff.is_zero() {
+                return false;
+            }
+        }
+    }
+    true
+}
+
+pub fn are_collinear<T, const N: usize>(a: &Point<T, N>, b: &Point<T, N>, c: &Point<T, N>) -> bool
+where
+    T: Scalar,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    for i in 0..N {
+        let ui = &b.coords[i] - &a.coords[i];
+        let vi = &c.coords[i] - &a.coords[i];
+
+        if ui.abs().is_positive() {
+            // first non-zero component gives the candidate scale factor
+            let r = &vi / &ui;
+
+            // every remaining coordinate must satisfy vj = r * uj
+            for j in (i + 1)..N {
+                let uj = &b.coords[j] - &a.coords[j];
+                let vj = &c.coords[j] - &a.coords[j];
+                if (&vj - &(&uj * &r)).abs().is_positive() {
+                    return false; // breaks proportionality
+                }
+            }
+            return true; // all coordinates match
+        } else if vi.abs().is_positive() {
+            return false; // ui ≈ 0 but vi isn’t ⇒ not collinear
+        }
+    }
+    // all ui ≈ 0  ⇒  A and B coincide; collinear iff C coincides too
+    true
+}
+
+pub fn triangle_is_degenerate<T: Scalar, const N: usize>(
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    c: &Point<T, N>,
+) -> bool
+where
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    // Coincidence or collinearity → zero area
+    are_equal(a, b) || are_equal(a, c) || are_equal(b, c) || are_collinear(a, b, c)
+}
+
+pub fn is_point_on_segment<T, const N: usize>(p: &Point<T, N>, seg: &Segment<T, N>) -> bool
+where
+    T: Scalar,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+    T: PartialOrd, // needed for comparisons inside the loop
+{
+    // 1.  If P, A, B are not collinear, P cannot lie on AB
+    if !are_collinear(p, &seg.a, &seg.b) {
+        return false;
+    }
+
+    // 2.  For every coordinate axis, P must lie between A and B
+    for i in 0..N {
+        let ai = &seg.a.coords[i];
+        let bi = &seg.b.coords[i];
+
+        // min_i, max_i bounds
+        let (min_i, max_i) = if ai <= bi { (ai, bi) } else { (bi, ai) };
+
+        let pi = &p.coords[i];
+        if pi < min_i || pi > max_i {
+            return false; // outside on some axis ⇒ not on segment
+        }
+    }
+
+    true
+}
+
+pub fn point_u_on_segment<T: Scalar + PartialOrd, const N: usize>(
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    p: &Point<T, N>,
+) -> Option<T>
+where
+    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
+    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    // Direction and offset
+    let ab = (b - a).as_vector();
+    let ap = (p - a).as_vector();
+
+    // Degenerate segment?
+    let ab2 = ab.dot(&ab);
+    if ab2.is_zero() {
+        return if are_equal(a, p) {
+            Some(T::zero())
+        } else if are_equal(b, p) {
+            Some(T::one())
+        } else {
+            None
+        };
+    }
+
+    // Must be collinear with AB
+    if !are_collinear(a, b, p) {
+        return None;
+    }
+
+    // Parametric coordinate along AB
+    let u = ap.dot(&ab) / ab2;
+    if u < T::zero() || u > T::one() {
+        None
+    } else {
+        Some(u)
+    }
+}
+
+pub fn point_u_on_segment_with_tolerance<T: Scalar + PartialOrd, const N: usize>(
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    p: &Point<T, N>,
+    tolerance: &T,
+) -> Option<T>
+where
+    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
+    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    fn are_approx<TT: Scalar, const NN: usize>(
+        p1: &Point<TT, NN>,
+        p2: &Point<TT, NN>,
+        tolerance: &TT,
+    ) -> bool
+    where
+        for<'a> &'a TT:
+            Add<&'a TT, Output = TT> + Sub<&'a TT, Output = TT> + Mul<&'a TT, Output = TT>,
+    {
+        let tolerance_sq = tolerance * tolerance;
+        let mut distance_sq = TT::zero();
+
+        for i in 0..NN {
+            let diff = &p1.coords[i] - &p2.coords[i];
+            distance_sq = &distance_sq + &(&diff * &diff);
+        }
+
+        (distance_sq - tolerance_sq).is_negative_or_zero()
+    }
+
+    // Direction and offset
+    let ab = (b - a).as_vector();
+    let ap = (p - a).as_vector();
+
+    // Degenerate segment?
+    let ab2 = ab.dot(&ab);
+    if ab2.is_zero() {
+        return if are_approx(a, p, tolerance) {
+            Some(T::zero())
+        } else if are_approx(b, p, tolerance) {
+            Some(T::one())
+        } else {
+            None
+        };
+    }
+
+    // Parametric coordinate along AB
+    let u = ap.dot(&ab) / ab2;
+
+    // Clamp u to [0, 1] range for distance calculation
+    let u_clamped = if u < T::zero() {
+        T::zero()
+    } else if u > T::one() {
+        T::one()
+    } else {
+        u.clone()
+    };
+
+    // Calculate closest point on segment
+    let closest_point_vector = ab.scale(&u_clamped);
+    let closest_point = a + &closest_point_vector.0;
+
+    // Calculate distance from p to closest point on segment
+    let distance_vector = (p - &closest_point).as_vector();
+    let distance_sq = distance_vector.dot(&distance_vector);
+    let tolerance_sq = tolerance * tolerance;
+
+    // Check if point is within tolerance of the segment
+    if distance_sq <= tolerance_sq {
+        // Return the original u parameter (not clamped) if within tolerance
+        Some(u)
+    } else {
+        None
+    }
+}
+
+pub fn point_in_or_on_triangle_old<T: Scalar, const N: usize>(
+    p: &Point<T, N>,
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    c: &Point<T, N>,
+) -> TrianglePoint
+where
+    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
+    Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    // Barycentric setup
+    let v0 = (c - a).as_vector();
+    let v1 = (b - a).as_vector();
+    let v2 = (p - a).as_vector();
+
+    let dot00 = v0.dot(&v0);
+    let dot01 = v0.dot(&v1);
+    let dot02 = v0.dot(&v2);
+    let dot11 = v1.dot(&v1);
+    let dot12 = v1.dot(&v2);
+
+    let denom = &dot00 * &dot11 - &dot01 * &dot01;
+
+    // Degenerate triangle (zero/near-zero area)
+    if denom.abs() < T::tolerance() {
+        return TrianglePoint::Off;
+    }
+
+    let inv = T::one() / denom;
+    let u = &(&dot11 * &dot02 - &dot01 * &dot12) * &inv;
+    let v = &(&dot00 * &dot12 - &dot01 * &dot02) * &inv;
+    let sum_uv = &u + &v;
+    let w = &T::one() - &sum_uv;
+
+    // Classification with tolerance
+    let e = T::tolerance();
+    let neg_e = e.clone().neg();
+
+    // Outside if any barycentric is below -eps or u+v exceeds 1+eps
+    if u < neg_e || v < neg_e || sum_uv > &T::one() + &e {
+        return TrianglePoint::Off;
+    }
+
+    // On if any barycentric is within eps of the boundary
+    // Check if on vertex (distance to vertex is zero)
+    if are_equal(p, a) || are_equal(p, b) || are_equal(p, c) {
+        return TrianglePoint::OnVertex;
+    }
+
+    // Check if on edge (one barycentric coordinate is zero)
+    if u.is_zero() || v.is_zero() || w.is_zero() {
+        return TrianglePoint::OnEdge;
+    }
+
+    TrianglePoint::In
+}
+
+#[inline(always)]
+pub fn point_in_or_on_triangle<T: Scalar + PartialOrd, const N: usize>(
+    p: &Point<T, N>,
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    c: &Point<T, N>,
+) -> TrianglePoint
+where
+    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
+    Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    #[inline(always)]
+    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
+        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
+        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
+        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
+        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
+        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
+    }
+
+    #[inline(always)]
+    fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
+        let zero = TS::zero();
+
+        // exact zero flags
+        let z0 = e0.is_zero();
+        let z1 = e1.is_zero();
+        let z2 = e2.is_zero();
+        let zc = (z0 as u8) + (z1 as u8) + (z2 as u8);
+
+        // mixed signs => strictly outside
+        let has_neg = (!z0 && *e0 < zero) || (!z1 && *e1 < zero) || (!z2 && *e2 < zero);
+        let has_pos = (!z0 && *e0 > zero) || (!z1 && *e1 > zero) || (!z2 && *e2 > zero);
+        if has_neg && has_pos {
+            return TrianglePoint::Off;
+        }
+
+        // boundary cases
+        if zc >= 2 {
+            return TrianglePoint::OnVertex; // exactly at a vertex
+        }
+        if zc == 1 {
+            return TrianglePoint::OnEdge; // exactly on a unique edge
+        }
+
+        // inside (all nonzero and same sign)
+        TrianglePoint::In
+    }
+
+    if N == 2 {
+        // degenerate?
+        let abx = &b[0] - &a[0];
+        let aby = &b[1] - &a[1];
+        let acx = &c[0] - &a[0];
+        let acy = &c[1] - &a[1];
+        let area2 = &(&abx * &acy) - &(&aby * &acx);
+        if area2.is_zero() {
+            return TrianglePoint::Off;
+        }
+
+        // edge functions
+        let bcx = &c[0] - &b[0];
+        let bcy = &c[1] - &b[1];
+        let cax = &a[0] - &c[0];
+        let cay = &a[1] - &c[1];
+
+        let apx = &p[0] - &a[0];
+        let apy = &p[1] - &a[1];
+        let bpx = &p[0] - &b[0];
+        let bpy = &p[1] - &b[1];
+        let cpx = &p[0] - &c[0];
+        let cpy = &p[1] - &c[1];
+
+        let e0 = &(&abx * &apy) - &(&aby * &apx);
+        let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
+        let e2 = &(&cax * &cpy) - &(&cay * &cpx);
+
+        // near-edge fast path -> confirm exact boundary kind
+        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
+            // figure out vertex vs edge by zero-count
+            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
+            return if zc >= 2 {
+                TrianglePoint::OnVertex
+            } else {
+                TrianglePoint::OnEdge
+            };
+        }
+
+        return classify_from_edges(&e0, &e1, &e2);
+    } else if N == 3 {
+        // normal and degeneracy
+        let ab = (b - a).as_vector_3();
+        let ac = (c - a).as_vector_3();
+        let n = ab.cross(&ac);
+        if n[0].is_zero() && n[1].is_zero() && n[2].is_zero() {
+            return TrianglePoint::Off;
+        }
+
+        // edge functions projected on n
+        let ap = (p - a).as_vector_3();
+        let bp = (p - b).as_vector_3();
+        let cp = (p - c).as_vector_3();
+        let bc = (c - b).as_vector_3();
+        let ca = (a - c).as_vector_3();
+
+        let e0 = ab.cross(&ap).dot(&n);
+        let e1 = bc.cross(&bp).dot(&n);
+        let e2 = ca.cross(&cp).dot(&n);
+
+        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
+            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
+            return if zc >= 2 {
+                TrianglePoint::OnVertex
+            } else {
+                TrianglePoint::OnEdge
+            };
+        }
+
+        return classify_from_edges(&e0, &e1, &e2);
+    } else {
+        panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
+    }
+}
+
+#[inline]
+pub fn orient2d<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>) -> T
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    let det = (&b[0] - &a[0]) * (&c[1] - &a[1]) - (&b[1] - &a[1]) * (&c[0] - &a[0]);
+
+    // Snapping near-degenerate values to zero is for inexact scalars only
+    if T::tolerance().is_zero() {
+        return det;
+    }
+
+    let scale_approx = if let (Some(a0), Some(a1), Some(b0), Some(b1), Some(c0), Some(c1)) = (
+        a[0].as_f64_fast(),
+        a[1].as_f64_fast(),
+        b[0].as_f64_fast(),
+        b[1].as_f64_fast(),
+        c[0].as_f64_fast(),
+        c[1].as_f64_fast(),
+    ) {
+        (a0.abs() + a1.abs() + b0.abs() + b1.abs() + c0.abs() + c1.abs()) * EPS
+    } else {
+        EPS // Conservative fallback without exact computation
+    };
+
+    if let Some(det_approx) = det.as_f64_fast() {
+        if det_approx.abs() <= scale_approx {
+            T::zero()
+        } else {
+            det
+        }
+    } else {
+        det // Can't determine with approximation, return raw determinant
+    }
+}
+
+#[inline]
+pub fn incircle<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>, d: &Point2<T>) -> T
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    // Compute with standard determinant expansion; apply light scaling guard.
+    // (Assumes abc CCW. If not, caller should flip sign or reorder.)
+    let ax = &a[0] - &d[0];
+    let ay = &a[1] - &d[1];
+    let a2 = &ax * &ax + &ay * &ay;
+    let bx = &b[0] - &d[0];
+    let by = &b[1] - &d[1];
+    let b2 = &bx * &bx + &by * &by;
+    let cx = &c[0] - &d[0];
+    let cy = &c[1] - &d[1];
+    let c2 = &cx * &cx + &cy * &cy;
+
+    let det = &ax * &(&(&by * &c2) - &(&b2 * &cy)) - &ay * &(&(&bx * &c2) - &(&b2 * &cx))
+        + &a2 * &(&(&bx * &cy) - &(&by * &cx));
+
+    // Snapping near-degenerate values to zero is for inexact scalars only
+    if T::tolerance().is_zero() {
+        return det;
+    }
+
+    let scale =
+        (&ax.abs() + &ay.abs() + bx.abs() + by.abs() + cx.abs() + cy.abs()).max(T::from(1.0));
+    let eps = &scale * &scale * T::from(EPS);
+    if (&det.abs() - &eps).is_negative_or_zero() {
+        T::zero()
+    } else {
+        det
+    }
+}
+
+#[inline]
+pub fn bbox2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>)
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    let mut minx = &pts[0][0];
+    let mut miny = &pts[0][1];
+    let mut maxx = &pts[0][0];
+    let mut maxy = &pts[0][1];
+    for p in &pts[1..] {
+        if (&p[0] - &minx).is_negative() {
+            minx = &p[0];
+        }
+        if (&p[1] - &miny).is_negative() {
+            miny = &p[1];
+        }
+        if (&p[0] - &maxx).is_positive() {
+            maxx = &p[0];
+        }
+        if (&p[1] - maxy).is_positive() {
+            maxy = &p[1];
+        }
+    }
+    (
+        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
+        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
+    )
+}
+
+#[inline]
+pub fn bbox_approx2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>) {
+    let mut minx = pts[0][0].ball_center_f64();
+    let mut miny = pts[0][1].ball_center_f64();
+    let mut maxx = minx;
+    let mut maxy = miny;
+
+    for p in &pts[1..] {
+        let px = p[0].ball_center_f64();
+        let py = p[1].ball_center_f64();
+
+        if px < minx {
+            minx = px;
+        }
+        if py < miny {
+            miny = py;
+        }
+        if px > maxx {
+            maxx = px;
+        }
+        if py > maxy {
+            maxy = py;
+        }
+    }
+
+    (
+        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
+        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
+    )
+}
+
+#[inline]
+pub fn bbox3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>)
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    let mut minx = &pts[0][0];
+    let mut miny = &pts[0][1];
+    let mut minz = &pts[0][2];
+    let mut maxx = &pts[0][0];
+    let mut maxy = &pts[0][1];
+    let mut maxz = &pts[0][2];
+    for p in &pts[1..] {
+        if (&p[0] - &minx).is_negative() {
+            minx = &p[0];
+        }
+        if (&p[1] - &miny).is_negative() {
+            miny = &p[1];
+        }
+        if (&p[2] - &minz).is_negative() {
+            minz = &p[2];
+        }
+        if (&p[0] - &maxx).is_positive() {
+            maxx = &p[0];
+        }
+        if (&p[1] - maxy).is_positive() {
+            maxy = &p[1];
+        }
+        if (&p[2] - &maxz).is_positive() {
+            maxz = &p[2];
+        }
+    }
+    (
+        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
+        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
+    )
+}
+
+#[inline]
+pub fn bbox_approx3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>) {
+    let mut minx = pts[0][0].ball_center_f64();
+    let mut miny = pts[0][1].ball_center_f64();
+    let mut minz = pts[0][2].ball_center_f64();
+    let mut maxx = minx;
+    let mut maxy = miny;
+    let mut maxz = minz;
+
+    for p in &pts[1..] {
+        let px = p[0].ball_center_f64();
+        let py = p[1].ball_center_f64();
+        let pz = p[2].ball_center_f64();
+        if px < minx {
+            minx = px;
+        }
+        if py < miny {
+            miny = py;
+        }
+        if pz < minz {
+            minz = pz;
+        }
+        if px > maxx {
+            maxx = px;
+        }
+        if py > maxy {
+            maxy = py;
+        }
+        if pz > maxz {
+            maxz = pz;
+        }
+    }
+
+    (
+        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
+        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
+    )
+}
+
+#[inline]
+pub fn centroid2<T: Scalar>(a: &Point2<T>, b: &Point2<T>) -> Point2<T>
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    Point::<T, 2>::from_vals([
+        T::from_num_den(1, 2) * (&a[0] + &b[0]),
+        T::from_num_den(1, 2) * (&a[1] + &b[1]),
+    ])
+}
-- 
2.43.0


From 23c322eeec2486f1b1e9a34c3d39b499387725fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:08 +0000
Subject: [PATCH 12/49] fix: count the start point of a segment as lying on it

The collinearity test was asked with the query point first, which it answers
with no when that point coincides with the segment's start.
---
 src/kernel/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index e57bd84..706e186 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -135,7 +135,7 @@ where
     T: PartialOrd, // needed for comparisons inside the loop
 {
     // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(p, &seg.a, &seg.b) {
+    if !are_collinear(&seg.a, &seg.b, p) {
         return false;
     }
 
-- 
2.43.0


From 85abacbab045f3e8cad2d38082ac4b9499245725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:10 +0000
Subject: [PATCH 13/49] fix: report points on the extension of a triangle's
 edge as outside

The shortcut for points on the line of an edge returned OnEdge without
looking at the other two edges. Classify by all three signs instead.
---
 src/kernel/predicates.rs | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 706e186..b9c01a9 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -27,8 +27,7 @@ use crate::geometry::util::EPS;
 use crate::geometry::vector::{Cross3, VectorOps};
 use crate::geometry::{Point2, Point3};
 use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
+use crate::numeric::scalar::Scalar;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -355,15 +354,6 @@ where
         + Mul<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
     #[inline(always)]
     fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
         let zero = TS::zero();
@@ -421,17 +411,6 @@ where
         let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
         let e2 = &(&cax * &cpy) - &(&cay * &cpx);
 
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else if N == 3 {
         // normal and degeneracy
@@ -453,15 +432,6 @@ where
         let e1 = bc.cross(&bp).dot(&n);
         let e2 = ca.cross(&cp).dot(&n);
 
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else {
         panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-- 
2.43.0


From e8675c2c4745deb5ebfb774f6d15bbee3d3da9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:38 +0000
Subject: [PATCH 14/49] fix: test exactly for points on a segment with exact
 scalars

---
 src/geometry/segment.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/geometry/segment.rs b/src/geometry/segment.rs
index ef433cd..ad60306 100755
--- a/src/geometry/segment.rs
+++ b/src/geometry/segment.rs
@@ -24,7 +24,6 @@ use crate::{
     geometry::{
         point::{Point, PointOps},
         spatial_element::SpatialElement,
-        util::EPS,
         vector::{Vector, VectorOps},
     },
     numeric::scalar::Scalar,
@@ -136,7 +135,7 @@ where
             if db != T::zero() {
                 let t = &da / &db;
                 if let Some(prev_t) = &t_opt {
-                    if (&t - &prev_t).abs() > T::from(EPS) {
+                    if (&t - &prev_t).abs().is_positive() {
                         return false;
                     }
                 } else {
-- 
2.43.0


From 7e1c453fd9c28ce801bb72c5d8eac80edcab40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:39 +0000
Subject: [PATCH 15/49] fix: use all coordinates in CanonicalEdge::parameter_t

---
 src/geometry/canonical_edge.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/canonical_edge.rs b/src/geometry/canonical_edge.rs
index ea7fa15..eded1ff 100644
--- a/src/geometry/canonical_edge.rs
+++ b/src/geometry/canonical_edge.rs
@@ -56,13 +56,17 @@ impl<T: Scalar, const N: usize> CanonicalEdge<T, N> {
         let edge_vec = &self.b - &self.a;
         let point_vec = p - &self.a;
 
-        let edge_len2 = &(&edge_vec[0] * &edge_vec[0]) + &(&edge_vec[1] * &edge_vec[1]);
+        let mut edge_len2 = T::zero();
+        let mut dot = T::zero();
+        for i in 0..N {
+            edge_len2 = &edge_len2 + &(&edge_vec[i] * &edge_vec[i]);
+            dot = &dot + &(&point_vec[i] * &edge_vec[i]);
+        }
 
         if edge_len2.is_zero() {
             return T::zero();
         }
 
-        let dot = &(&point_vec[0] * &edge_vec[0]) + &(&point_vec[1] * &edge_vec[1]);
         dot / edge_len2
     }
 }
-- 
2.43.0


From dc3b890bc2d6fa51e16111a754d59138daef9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:27 +0000
Subject: [PATCH 16/49] fix: tell apart collinear segments that overlap, touch
 and are disjoint

Collinear segments always reported the stretch between their middle end
points, even when that is the gap between them or a single point.
---
 src/geometry/intersection.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/geometry/intersection.rs b/src/geometry/intersection.rs
index 3344e35..1f917b7 100755
--- a/src/geometry/intersection.rs
+++ b/src/geometry/intersection.rs
@@ -25,7 +25,7 @@ use crate::{
         Point2, Point3, Segment2, Segment3, Vector3, point::Point, spatial_element::SpatialElement,
         vector::VectorOps,
     },
-    kernel::{are_collinear, orient},
+    kernel::{are_collinear, are_equal, is_point_on_segment, orient},
     numeric::scalar::Scalar,
 };
 use std::ops::{Add, Div, Mul, Sub};
@@ -133,6 +133,14 @@ where
                     )
             });
 
+            // The middle points are shared, unless the segments are apart
+            if !is_point_on_segment(pts[1], seg1) || !is_point_on_segment(pts[1], seg2) {
+                return SegmentIntersection2::None;
+            }
+            if are_equal(pts[1], pts[2]) {
+                return SegmentIntersection2::Point(pts[1].clone());
+            }
+
             let s = Segment2::new(&pts[1], &pts[2]);
             return SegmentIntersection2::Overlapping(s);
         }
@@ -236,6 +244,15 @@ where
                             .unwrap_or(std::cmp::Ordering::Equal),
                     )
             });
+
+            // The middle points are shared, unless the segments are apart
+            if !is_point_on_segment(pts[1], seg1) || !is_point_on_segment(pts[1], seg2) {
+                return SegmentIntersection3::None;
+            }
+            if are_equal(pts[1], pts[2]) {
+                return SegmentIntersection3::Point(pts[1].clone());
+            }
+
             return SegmentIntersection3::Overlapping(Segment3 {
                 a: pts[1].clone(),
                 b: pts[2].clone(),
-- 
2.43.0


From 904320c1608479ea37532ffb5732999a1a03e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:28 +0000
Subject: [PATCH 17/49] fix: find the crossing of two edges in
 edge_edge_intersection_2

The parameter along the first edge had the wrong sign and the second edge
was treated as an infinite line.
---
 src/geometry/edge_edge_intersect.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/edge_edge_intersect.rs b/src/geometry/edge_edge_intersect.rs
index ed0bdd2..42173c8 100644
--- a/src/geometry/edge_edge_intersect.rs
+++ b/src/geometry/edge_edge_intersect.rs
@@ -44,13 +44,16 @@ where
         return None; // Parallel lines
     }
 
-    let d2 = (p1[0].clone() - p3[0].clone()) * (p4[1].clone() - p3[1].clone())
-        - (p1[1].clone() - p3[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d2 = (p3[0].clone() - p1[0].clone()) * (p4[1].clone() - p3[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d3 = (p3[0].clone() - p1[0].clone()) * (p2[1].clone() - p1[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p2[0].clone() - p1[0].clone());
 
     let t = d2 / d1.clone();
+    let u = d3 / d1;
 
     // Check if intersection is within both line segments
-    if t >= T::zero() && t <= T::one() {
+    if t >= T::zero() && t <= T::one() && u >= T::zero() && u <= T::one() {
         let x = p1[0].clone() + t.clone() * (p2[0].clone() - p1[0].clone());
         let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());
         Some(Point::<T, N>::from_vals(from_fn(|i| match i {
-- 
2.43.0


From 0e9131b268bec3eefb141629284db0b4b4b54f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:25 +0000
Subject: [PATCH 18/49] fix: keep triangle intersection points in the
 triangles' plane

Clipped and coplanar intersection points copied the dropped coordinate
from a reference vertex, which is only right in axis-parallel planes.
---
 src/geometry/tri_tri_intersect.rs | 32 +++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 4456f51..ec1e747 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -181,12 +181,12 @@ where
     let mut pts: Vec<Point<T, N>> = Vec::new();
     for point in &t1 {
         if point_in_tri_2d(point, &t2) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, p[2]));
+            pts.push(lift_to_plane(point, i0, i1, drop, p[2], n));
         }
     }
     for point in &t2 {
         if point_in_tri_2d(point, &t1) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, q[2]));
+            pts.push(lift_to_plane(point, i0, i1, drop, q[2], n));
         }
     }
 
@@ -196,8 +196,7 @@ where
     for (a, b) in &edges1 {
         for (c, d) in &edges2 {
             if let Some(s) = segment_intersect_2d(a, b, c, d) {
-                // Here we use p0 as the reference for the dropped axis, but you could interpolate if desired
-                pts.push(back_project_to_3d(&s.a, i0, i1, drop, &p[2]));
+                pts.push(lift_to_plane(&s.a, i0, i1, drop, p[2], n));
             }
         }
     }
@@ -230,9 +229,7 @@ where
             for w in 0..hull_idx.len() {
                 let i = hull_idx[w];
                 let j = hull_idx[(w + 1) % hull_idx.len()];
-                let a3 = back_project_to_3d(&pts2d[i], i0, i1, drop, p[2]);
-                let b3 = back_project_to_3d(&pts2d[j], i0, i1, drop, p[2]);
-                segs.push(Segment::new(&a3, &b3));
+                segs.push(Segment::new(&uniq[i], &uniq[j]));
             }
             TriTriIntersectionResult::CoplanarPolygon(segs)
         }
@@ -647,6 +644,25 @@ where
     coords
 }
 
+/// Back-project a 2D point onto the plane through `reference` with normal `n`.
+fn lift_to_plane<T: Scalar, const N: usize>(
+    p: &Point2<T>,
+    i0: usize,
+    i1: usize,
+    drop: usize,
+    reference: &Point<T, N>,
+    n: &Vector<T, N>,
+) -> Point<T, N>
+where
+    Point<T, N>: SpatialElement<T, N>,
+    for<'a> &'a T: Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Div<&'a T, Output = T>,
+{
+    let mut lifted = back_project_to_3d(p, i0, i1, drop, reference);
+    let rise = &n[i0] * &(&p[0] - &reference[i0]) + &n[i1] * &(&p[1] - &reference[i1]);
+    lifted[drop] = &lifted[drop] - &(&rise / &n[drop]);
+    lifted
+}
+
 fn clip_segment_to_triangle_in_plane<T: Scalar, const N: usize>(
     a3: &Point<T, N>,
     b3: &Point<T, N>,
@@ -753,7 +769,7 @@ where
         let ox = &dx * t;
         let oy = &dy * t;
         let p2 = Point2::<T>::from_vals([&a[0] + &ox, &a[1] + &oy]);
-        back_project_to_3d::<T, N>(&p2, i0, i1, drop, a3) // drop axis from a3
+        lift_to_plane(&p2, i0, i1, drop, a3, n)
     };
     let pa = lerp3(&t0);
     let pb = lerp3(&t1);
-- 
2.43.0


From 0f1d21da753c170c255326aff6cbc579adc306d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:51 +0000
Subject: [PATCH 19/49] fix: leave removed faces out of the face tree

---
 src/mesh/core.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..43f7e02 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -438,14 +438,17 @@ impl_mesh! {
     where
         for<'a> &'a T: Sub<&'a T, Output = T>,
     {
-        let face_aabbs = self.internal_build_face_tree();
-        AabbTree::build_with_lookup(face_aabbs)
+        let lookup = (0..self.faces.len()).map(|f| self.face_aabb(f)).collect();
+        (self.build_face_tree(), lookup)
     }
 
     fn internal_build_face_tree(&self) -> Vec<(Aabb<T, N, Point<T, N>>, usize)> {
         let mut face_aabbs = Vec::with_capacity(self.faces.len());
 
         for (face_idx, face) in self.faces.iter().enumerate() {
+            if face.removed {
+                continue;
+            }
             let he0 = face.half_edge;
 
             let he1 = self.half_edges[he0].next;
-- 
2.43.0


From 1a7f07785ec9de61599b6fcf51372e33816c6779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:51 +0000
Subject: [PATCH 20/49] fix: keep border loops intact when splitting a border
 edge

---
 src/mesh/core.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 43f7e02..862b455 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -739,7 +739,12 @@ impl_mesh! {
         update_tree: bool,
     ) -> Result<SplitResult, &'static str>
     {
-        let he_ca = he;
+        // A border half-edge has no face of its own: split from the other side.
+        let he_ca = if self.half_edges[he].face.is_some() {
+            he
+        } else {
+            self.half_edges[he].twin
+        };
         let he_ab = self.half_edges[he_ca].next;
         let he_bc = self.half_edges[he_ab].next;
         let he_ac = self.half_edges[he_ca].twin;
@@ -764,6 +769,8 @@ impl_mesh! {
             // Open borders scenario
             let ex_he_ba = self.half_edges[he_ab].twin; // b->a
             let ex_he_cb = self.half_edges[he_bc].twin; // c->b
+            let border_prev = self.half_edges[he_ac].prev; // ?->a
+            let border_next = self.half_edges[he_ac].next; // c->?
 
             // Mark old faces and half-edges removed
             self.faces[original_face_1].removed = true;
@@ -862,13 +869,15 @@ impl_mesh! {
 
             // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
             self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
-
             self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+
+            // They take the place of a->c in its border loop
+            self.half_edges[bhe_aw].prev = border_prev;
+            self.half_edges[border_prev].next = bhe_aw;
+            self.half_edges[bhe_aw].next = bhe_wc;
+            self.half_edges[bhe_wc].prev = bhe_aw;
+            self.half_edges[bhe_wc].next = border_next;
+            self.half_edges[border_next].prev = bhe_wc;
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -879,10 +888,10 @@ impl_mesh! {
             self.edge_map.insert((a, w), bhe_aw);
 
             // Update representative half-edges at vertices
-            self.vertices[w].half_edge.get_or_insert(he_wb);
-            self.vertices[a].half_edge.get_or_insert(he_ab);
-            self.vertices[b].half_edge.get_or_insert(he_bc);
-            self.vertices[c].half_edge.get_or_insert(he_cw);
+            self.vertices[w].half_edge = Some(he_wb);
+            self.vertices[a].half_edge = Some(he_ab);
+            self.vertices[b].half_edge = Some(he_bc);
+            self.vertices[c].half_edge = Some(he_cw);
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From 053949e6b31949276224f610d2410657a2b92d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:59 +0000
Subject: [PATCH 21/49] fix: refuse non-manifold edge collapses and keep border
 loops on border ones

---
 src/mesh/edge_collapse.rs | 40 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..f5662ac 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -421,14 +421,44 @@ impl_mesh! {
         let left_exists  = f_left.is_some()  && !self.faces[f_left.unwrap()].removed;
         let right_exists = f_right.is_some() && !self.faces[f_right.unwrap()].removed;
 
+        // ---------- 2a. Refuse what would not leave a manifold, before touching anything ----------
+        // A triangle at the edge whose other two sides are both border would leave a dangling edge.
+        for (exists, h0, h1) in [(left_exists, he_va, he_au), (right_exists, he_ub, he_bv)] {
+            let border = |h: usize| !self.face_ok(self.half_edges[h].twin);
+            if exists && border(h0) && border(h1) {
+                return Err(CollapseReject::LinkCondition);
+            }
+        }
+        if left_exists && right_exists {
+            // An interior edge joining two border vertices would pinch the surface.
+            if self.vertex_ring_ccw(u).is_border && self.vertex_ring_ccw(v).is_border {
+                return Err(CollapseReject::LinkCondition);
+            }
+            // Faces (u,a,b) and (v,a,b) would become two faces on the same three vertices.
+            let a = self.half_edges[he_va].vertex;
+            let b = self.half_edges[he_ub].vertex;
+            let spans = |w: usize| {
+                [(a, b), (b, a)].iter().any(|e| match self.edge_map.get(e) {
+                    Some(&h) => self.face_ok(h) && self.half_edges[self.half_edges[h].next].vertex == w,
+                    None => false,
+                })
+            };
+            if spans(u) && spans(v) {
+                return Err(CollapseReject::LinkCondition);
+            }
+        }
+
         // Splice anchors (only valid if respective face exists)
         let splice_l_from = if left_exists  { self.half_edges[he_au].prev } else { usize::MAX };
         let splice_l_to   = if left_exists  { self.half_edges[he_va].next } else { usize::MAX };
         let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { usize::MAX };
         let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
 
-        // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // Half-edges to remove (the two faces' 6 interior half-edges). On a border edge the
+        // neighbours of its border half-edge stay.
+        let mut remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        if !left_exists  { remove_set[2] = he_uv; remove_set[3] = he_uv; }
+        if !right_exists { remove_set[4] = he_vu; remove_set[5] = he_vu; }
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -460,10 +490,16 @@ impl_mesh! {
         if left_exists {
             self.half_edges[splice_l_from].next = splice_l_to;
             self.half_edges[splice_l_to].prev = splice_l_from;
+        } else {
+            self.half_edges[he_au].next = he_va;
+            self.half_edges[he_va].prev = he_au;
         }
         if right_exists {
             self.half_edges[splice_r_from].next = splice_r_to;
             self.half_edges[splice_r_to].prev = splice_r_from;
+        } else {
+            self.half_edges[he_bv].next = he_ub;
+            self.half_edges[he_ub].prev = he_bv;
         }
 
         // ---------- 7. Mark faces removed ----------
-- 
2.43.0


From 5e79d07cf4c88c9e3926c243b253bbcdef1a0ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:59 +0000
Subject: [PATCH 22/49] fix: allow batch triangle removal after an edge
 collapse in debug builds

---
 src/mesh/triangle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/triangle.rs b/src/mesh/triangle.rs
index d41fd44..524a720 100644
--- a/src/mesh/triangle.rs
+++ b/src/mesh/triangle.rs
@@ -238,7 +238,8 @@ impl_mesh! {
         #[cfg(debug_assertions)]
         {
             for h in 0..self.half_edges.len() {
-                if self.half_edges[h].removed {
+                // spokes removed by an edge collapse have no twin left
+                if self.half_edges[h].removed && self.half_edges[h].twin < self.half_edges.len() {
                     let (u,v) = key_pair(self, h);
                     if let Some(&owner) = self.edge_map.get(&(u,v)) {
                         debug_assert_ne!(owner, h, "removed spoke {} still owns edge_map ({},{})", h, u, v);
-- 
2.43.0


From 157901a0eb17a6fb9ff1354cc74db6542203c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:39 +0000
Subject: [PATCH 23/49] fix: keep the vertex lookup in step with moved and
 collapsed vertices

---
 src/mesh/core.rs          |  4 +---
 src/mesh/edge_collapse.rs |  3 ++-
 src/mesh/spatial_hash.rs  | 16 ++++++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 862b455..3889415 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1380,9 +1380,7 @@ impl_mesh! {
         // ...existing degeneracy check...
 
         // Commit new position
-        self.vertices[v].position[0] = axp;
-        self.vertices[v].position[1] = ayp;
-        self.vertices[v].position[2] = azp;
+        self.move_vertex(v, new_pos);
 
         true
     }
diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index f5662ac..be9effe 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -521,7 +521,8 @@ impl_mesh! {
         }
 
         // ---------- 9. Retire v, move position into u ----------
-        self.vertices[u].position = plan.p_star;
+        self.move_vertex(u, plan.p_star);
+        self.unhash_vertex(v);
         self.vertices[v].removed = true;
         self.vertices[v].half_edge = None;
 
diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index 51611b6..b9d9298 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -68,6 +68,22 @@ impl_mesh! {
         )
     }
 
+    /// Take vertex `v` out of the spatial hash.
+    pub(crate) fn unhash_vertex(&mut self, v: usize) {
+        let key = self.position_to_packed_key(&self.vertices[v].position);
+        if let Some(bucket) = self.vertex_spatial_hash.get_mut(&key) {
+            bucket.retain(|i| *i != v);
+        }
+    }
+
+    /// Move vertex `v` to `pos`, keeping the spatial hash in step.
+    pub(crate) fn move_vertex(&mut self, v: usize, pos: Point<T, N>) {
+        self.unhash_vertex(v);
+        let key = self.position_to_packed_key(&pos);
+        self.vertices[v].position = pos;
+        self.vertex_spatial_hash.entry(key).or_default().push(v);
+    }
+
     #[inline(always)]
     pub fn position_to_packed_key(&self, pos: &Point<T, N>) -> u128 {
         let (x, y, z) = self.position_to_hash_key(pos);
-- 
2.43.0


From 2bccc609d8ce431adc1818e61f56a530217d917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:19 +0000
Subject: [PATCH 24/49] fix: honour area and normal-flip options of edge
 collapse

---
 src/mesh/edge_collapse.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index be9effe..5025386 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -241,10 +241,12 @@ impl_mesh! {
         let survivors = self.surviving_faces_after_collapse(v0, v1);
         for &f in &survivors {
             let a2x4 = self.tri_area2_after_move_face(f, v0, v1, &p_star);
-            let eps = T::tolerance();
-            if a2x4 <= &(&eps * &eps) * &(&eps * &eps) {
+            if a2x4 <= &opts.area_eps2 * &T::from_num_den(4, 1) {
                 return Err(CollapseReject::DegenerateFace);
             }
+            if opts.forbid_normal_flip && self.face_flips_after_move(f, v0, v1, &p_star) {
+                return Err(CollapseReject::NormalFlip);
+            }
         }
 
         Ok(p_star)
@@ -289,6 +291,26 @@ impl_mesh! {
         n.dot(&n) // (2*area)^2
     }
 
+    /// True if moving `v_keep` and `v_gone` to `p_star` turns the normal of face `f` around.
+    fn face_flips_after_move(
+        &self,
+        f: usize,
+        v_keep: usize,
+        v_gone: usize,
+        p_star: &Point<T, N>,
+    ) -> bool
+    where
+        Vector<T, N>: VectorOps<T, N> + Cross3<T>,
+    {
+        let vs = self.face_vertices(f);
+        let before = vs.map(|i| &self.vertices[i].position);
+        let after = vs.map(|i| {
+            if i == v_keep || i == v_gone { p_star } else { &self.vertices[i].position }
+        });
+        let normal = |[a, b, c]: [&Point<T, N>; 3]| (b - a).as_vector().cross(&(c - a).as_vector());
+        normal(before).dot(&normal(after)).is_negative()
+    }
+
     /// Begin collapse from a half-edge handle `he_ab`.
     /// Convention here: keep `a`, delete `b`.
     pub fn collapse_edge_begin_he(
-- 
2.43.0


From 4b025e953b40a0c65e595e8563acd72e98675138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:53 +0000
Subject: [PATCH 25/49] fix: rotate around the vertex when linking border loops

---
 src/mesh/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 3889415..0173584 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -141,9 +141,9 @@ impl_mesh! {
                     break cand;
                 }
 
-                // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
-                if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
+                // Keep rotating around the same vertex via the interior spoke `cand`
+                t = cand;
+                if !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
                 }
-- 
2.43.0


From 2c8750432bc09433885668d361de394a2ede24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:53 +0000
Subject: [PATCH 26/49] fix: leave removed faces out of the face adjacency
 graph

---
 src/mesh/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 0173584..89d7652 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -192,6 +192,9 @@ impl_mesh! {
         let mut adjacency_graph = AHashMap::new();
 
         for face_idx in 0..self.faces.len() {
+            if self.faces[face_idx].removed {
+                continue;
+            }
             let mut adjacent_faces = Vec::new();
 
             // Use iterative approach with safety limits
-- 
2.43.0


From 76786643e795fff34741bf2e1e5c748cc00ef1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:53 +0000
Subject: [PATCH 27/49] fix: make face boxes contain faces with coordinates
 that are not doubles

---
 src/mesh/core.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 89d7652..883feef 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1418,21 +1418,22 @@ where
     T: From<f64>,
 {
     // Single allocation for all coordinates
-    let mut coords = [[0.0; N]; 3];
+    let mut coords = [[(0.0, 0.0); N]; 3];
 
-    // Batch extract all coordinates
+    // Batch extract all coordinates, rounded outwards so that the box contains the triangle
     for i in 0..N {
-        coords[0][i] = p0[i].as_f64_fast()?;
-        coords[1][i] = p1[i].as_f64_fast()?;
-        coords[2][i] = p2[i].as_f64_fast()?;
+        for (c, p) in coords.iter_mut().zip([p0, p1, p2]) {
+            p[i].as_f64_fast()?;
+            c[i] = p[i].double_interval()?;
+        }
     }
 
     // Vectorized min/max computation
     let min_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].min(coords[1][i]).min(coords[2][i])));
+        std::array::from_fn(|i| T::from(coords[0][i].0.min(coords[1][i].0).min(coords[2][i].0)));
 
     let max_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].max(coords[1][i]).max(coords[2][i])));
+        std::array::from_fn(|i| T::from(coords[0][i].1.max(coords[1][i].1).max(coords[2][i].1)));
 
     Some(Aabb::new(
         Point::<T, N>::from_vals(min_coords),
-- 
2.43.0


From 241fe8fdcbd5339b878ed11049ff43add0325386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:53 +0000
Subject: [PATCH 28/49] fix: skip vertices without edges in boundary_vertices

---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..4a8a268 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -434,7 +434,7 @@ impl_mesh! {
     // /// Returns all vertex indices that lie on at least one boundary loop.
     pub fn boundary_vertices(&self) -> Vec<usize> {
         (0..self.vertices.len())
-            .filter(|&v| self.is_boundary_vertex(v))
+            .filter(|&v| self.vertices[v].half_edge.is_some() && self.is_boundary_vertex(v))
             .collect()
     }
 
-- 
2.43.0


From e8194f85e105c2eedecf44f8b14dab3e864dfbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:53 +0000
Subject: [PATCH 29/49] fix: return the neighbours across the edges from
 faces_around_face

---
 src/mesh/topology.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 4a8a268..20ed317 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -790,7 +790,7 @@ impl_mesh! {
         let mut i = 0;
         loop {
             let current_he = &self.half_edges[current_he_idx];
-            if let Some(face_idx) = current_he.face
+            if let Some(face_idx) = self.half_edges[current_he.twin].face
                 && !self.faces[face_idx].removed
             {
                 result[i] = face_idx; // valid half_edges should always point to valid faces
@@ -800,8 +800,7 @@ impl_mesh! {
                 }
             }
 
-            let twin_idx = current_he.twin;
-            let next_idx = self.half_edges[twin_idx].next;
+            let next_idx = current_he.next;
 
             if next_idx == starting_he_idx {
                 break;
-- 
2.43.0


From f8c4ef514bbce209edb3263dc5a8ba0b8210ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:32 +0000
Subject: [PATCH 30/49] fix: look up vertices at huge coordinates without
 overflow

---
 src/mesh/core.rs         | 2 +-
 src/mesh/spatial_hash.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 883feef..a8c8543 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -560,7 +560,7 @@ impl_mesh! {
 
         let (kx, ky, kz) = self.position_to_hash_key(pos);
         for (dx,dy,dz) in OFFS {
-            let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
+            let key = Self::pack_key3(kx.wrapping_add(dx), ky.wrapping_add(dy), kz.wrapping_add(dz));
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
                     if kernel::are_equal(&self.vertices[vi].position, pos) {
diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index b9d9298..d09bdfa 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -40,7 +40,7 @@ impl_mesh! {
     fn floor_sat_i64(x: f64) -> i64 {
         if !x.is_finite() { return if x.is_sign_positive() { i64::MAX } else { i64::MIN }; }
         let i = x as i64;
-        i - ((i as f64 > x) as i64)
+        i.saturating_sub((i as f64 > x) as i64)
     }
 
     #[inline(always)]
-- 
2.43.0


From 5ae65f70dbb69d3fc35442580f2396109094e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:32 +0000
Subject: [PATCH 31/49] fix: glue edges and skip removed vertices when merging
 duplicate vertices

---
 src/mesh/core.rs | 140 ++++++++++++++++-------------------------------
 1 file changed, 47 insertions(+), 93 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index a8c8543..cf08b87 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -263,125 +263,79 @@ impl_mesh! {
 
         let initial_count = self.vertices.len();
 
-        // Build spatial hash for efficient duplicate detection
+        // Find duplicates: equal positions always lie in the same or in neighbouring cells
         let mut spatial_groups: AHashMap<u128, Bucket> = AHashMap::new();
-
-        for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
-            let hash_key = self.position_to_packed_key(&vertex.position);
-            spatial_groups.entry(hash_key).or_default().push(vertex_idx);
-        }
-
-        // Find duplicates within each spatial group
         let mut vertex_mapping = (0..self.vertices.len()).collect::<Vec<_>>();
         let mut duplicates = AHashSet::new();
 
-        for group in spatial_groups.values() {
-            if group.len() < 2 {
+        for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
+            if vertex.removed {
                 continue;
             }
-
-            // Check all pairs within the group
-            for i in 0..group.len() {
-                if duplicates.contains(&group[i]) {
-                    continue;
-                }
-
-                for j in (i + 1)..group.len() {
-                    if duplicates.contains(&group[j]) {
-                        continue;
-                    }
-
-                    let pos_i = &self.vertices[group[i]].position;
-                    let pos_j = &self.vertices[group[j]].position;
-
-                    if kernel::are_equal(pos_i, pos_j) {
-                        // Mark j as duplicate of i
-                        vertex_mapping[group[j]] = group[i];
-                        duplicates.insert(group[j]);
+            let (kx, ky, kz) = self.position_to_hash_key(&vertex.position);
+            let mut canonical = None;
+            'cells: for dx in -1..=1 {
+                for dy in -1..=1 {
+                    for dz in -1..=1 {
+                        let key = Self::pack_key3(
+                            kx.wrapping_add(dx),
+                            ky.wrapping_add(dy),
+                            kz.wrapping_add(dz),
+                        );
+                        let Some(group) = spatial_groups.get(&key) else {
+                            continue;
+                        };
+                        canonical = group.iter().copied().find(|&i| {
+                            kernel::are_equal(&self.vertices[i].position, &vertex.position)
+                        });
+                        if canonical.is_some() {
+                            break 'cells;
+                        }
                     }
                 }
             }
+            if let Some(canonical) = canonical {
+                vertex_mapping[vertex_idx] = canonical;
+                duplicates.insert(vertex_idx);
+            } else {
+                spatial_groups
+                    .entry(Self::pack_key3(kx, ky, kz))
+                    .or_default()
+                    .push(vertex_idx);
+            }
         }
 
         if duplicates.is_empty() {
             return 0;
         }
 
-        // Create compacted vertex list and final mapping
-        let mut new_vertices = Vec::new();
+        // Compacted vertices; merging glues edges together, so the faces are added anew
+        let mut new_mesh = Mesh::new();
         let mut old_to_new = vec![usize::MAX; self.vertices.len()];
 
         for (old_idx, vertex) in self.vertices.iter().enumerate() {
-            if !duplicates.contains(&old_idx) {
-                let new_idx = new_vertices.len();
+            if duplicates.contains(&old_idx) {
+                old_to_new[old_idx] = old_to_new[vertex_mapping[old_idx]];
+            } else {
+                let new_idx = new_mesh.add_vertex(vertex.position.clone());
                 old_to_new[old_idx] = new_idx;
-                new_vertices.push(vertex.clone());
-            }
-        }
-
-        // Update mapping for duplicates to point to their canonical vertex's new index
-        for &duplicate_idx in &duplicates {
-            let canonical_idx = vertex_mapping[duplicate_idx];
-            old_to_new[duplicate_idx] = old_to_new[canonical_idx];
-        }
-
-        // Update all half-edge vertex references
-        for half_edge in &mut self.half_edges {
-            if half_edge.removed {
-                continue;
-            }
-
-            let old_vertex = half_edge.vertex;
-            if old_vertex < old_to_new.len() {
-                if let Some(&new_vertex) = old_to_new.get(old_vertex) {
-                    if new_vertex != usize::MAX {
-                        half_edge.vertex = new_vertex;
-                    }
+                if vertex.removed {
+                    new_mesh.unhash_vertex(new_idx);
+                    new_mesh.vertices[new_idx].removed = true;
                 }
             }
         }
 
-        // Update vertex half-edge references
-        for vertex in &mut new_vertices {
-            if let Some(he_idx) = vertex.half_edge {
-                // Verify the half-edge still exists and is valid
-                if he_idx >= self.half_edges.len() || self.half_edges[he_idx].removed {
-                    vertex.half_edge = None;
-                }
+        for face_idx in 0..self.faces.len() {
+            if self.faces[face_idx].removed {
+                continue;
             }
-        }
-
-        // Rebuild edge map with new vertex indices
-        let mut new_edge_map = AHashMap::new();
-        for (&(old_v1, old_v2), &he_idx) in &self.edge_map {
-            if old_v1 < old_to_new.len() && old_v2 < old_to_new.len() {
-                let new_v1 = old_to_new[old_v1];
-                let new_v2 = old_to_new[old_v2];
-
-                if new_v1 != usize::MAX && new_v2 != usize::MAX && new_v1 != new_v2 {
-                    // Only keep edges that don't become self-loops
-                    new_edge_map.insert((new_v1, new_v2), he_idx);
-                }
+            let [a, b, c] = self.face_vertices(face_idx).map(|v| old_to_new[v]);
+            if a != b && b != c && c != a {
+                new_mesh.add_triangle(a, b, c);
             }
         }
-
-        // Rebuild spatial hash with new vertex indices
-        let mut new_spatial_hash: AHashMap<u128, Bucket> = AHashMap::new();
-        for (vertex_idx, vertex) in new_vertices.iter().enumerate() {
-            let hash_key = self.position_to_packed_key(&vertex.position);
-            new_spatial_hash
-                .entry(hash_key)
-                .or_default()
-                .push(vertex_idx);
-        }
-
-        // Update mesh data structures
-        self.vertices = new_vertices;
-        self.edge_map = new_edge_map;
-        self.vertex_spatial_hash = new_spatial_hash;
-
-        // Remove any degenerate faces that may have been created
-        // self.remove_degenerate_faces();
+        *self = new_mesh;
 
         initial_count - self.vertices.len()
     }
-- 
2.43.0


From 003e83fee405a16b885013f15a71e22094c74c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:40 +0000
Subject: [PATCH 32/49] fix: give the edge parameter of geodesic corner rays
 the right sign

---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 20ed317..b59af93 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -952,7 +952,7 @@ impl_mesh! {
 
         let inv_det = T::one() / det;
         let t = &rhs.cross(&edge_vec).dot(&face_normal) * &inv_det;
-        let u = &geodesic_dir.cross(&rhs).dot(&face_normal) * &inv_det;
+        let u = &rhs.cross(&geodesic_dir).dot(&face_normal) * &inv_det;
 
         // Validate solution
         if t <= tol || u < T::zero() || u > T::one() {
-- 
2.43.0


From 228f53f8882d230627d6c7a29c75339802b0fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:40 +0000
Subject: [PATCH 33/49] fix: test the given edge, once per vertex, in planar
 point-in-mesh

---
 src/mesh/topology.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index b59af93..e189c64 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -743,8 +743,8 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
+        let v1 = self.half_edges[self.half_edges[he].prev].vertex;
+        let v2 = self.half_edges[he].vertex;
 
         let p1 = &self.vertices[v1].position;
         let p2 = &self.vertices[v2].position;
@@ -752,25 +752,14 @@ impl_mesh! {
         // Ray casting from point horizontally to the right
         // Check if edge crosses the horizontal ray
 
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Both points above, or both on or below the ray: a vertex on the ray
+        // counts for exactly one of the two sides
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
-        if dy.is_zero() {
-            return false;
-        }
 
         let t = &(&point[1] - &p1[1]) / &dy;
         let x_intersect = &p1[0] + &(&t * &(&p2[0] - &p1[0]));
-- 
2.43.0


From 7c82fd860661bfac4f4669933ae9b421d1090f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:40 +0000
Subject: [PATCH 34/49] fix: decide point-in-mesh by the number of crossings

---
 src/mesh/topology.rs | 78 +++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index e189c64..7c242ee 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -556,41 +556,67 @@ impl_mesh! {
         p: &Point<T, N>,
     ) -> PointInMeshResult where T: Into<T>, Vector<T, N>: VectorOps<T, N>,
     {
-        let rays = [
-            Vector::<T, N>::from_vals(from_fn(|i| [T::one(), T::zero(), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::one(), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::one()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::from(-1.0), T::zero(), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::from(-1.0), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::from(-1.0)][i].clone())),
+        // The axes first; a ray through an edge or a vertex does not decide, so
+        // continue with directions that are ever less likely to be special.
+        let axes = [
+            [1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1],
         ];
+        let skew = (0..64).map(|k| [61 - 2 * k, 7 * k + 3, 127 - k * k]);
 
-        let total_rays = rays.len();
-        let mut inside_count = 0usize;
-        let mut on_surface = false;
+        for d in axes.into_iter().chain(skew) {
+            let r = Vector::<T, N>::from_vals(from_fn(|i| T::from(d[i])));
+            if let Some(result) = self.ray_parity_3(p, &r, tree) {
+                return result;
+            }
+        }
+        PointInMeshResult::Outside
+    }
 
-        for r in rays {
-            match self.cast_ray_3(p, &r, tree, &None) {
-                IntersectionResult::Hit(_hit, t) => {
-                    if t.is_zero() {
-                        on_surface = true; // optionally: return PointInMeshResult::OnSurface immediately
-                    } else {
-                        // odd parity for this direction
-                        inside_count += 1;
-                    }
+    /// Side of the surface `p` is on by the number of crossings in direction `dir`,
+    /// or None if the ray meets an edge or a vertex.
+    fn ray_parity_3(
+        &self,
+        p: &Point<T, N>,
+        dir: &Vector<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> Option<PointInMeshResult> where Vector<T, N>: VectorOps<T, N>,
+    {
+        let far_multiplier = T::from(10e6); // as in cast_ray_3
+        let far_point = Point::<T, N>::from_vals(from_fn(|i| &p[i] + &(&dir[i] * &far_multiplier)));
+
+        let mut candidate_faces = Vec::new();
+        tree.query_valid(&Aabb::from_points(p, &far_point), &mut candidate_faces);
+
+        let tol = T::tolerance();
+        let mut inside = false;
+        let mut decided = true;
+        for &&fi in &candidate_faces {
+            if self.faces[fi].removed {
+                continue;
+            }
+            let vs = self.face_vertices(fi).map(|v| &self.vertices[v].position);
+            if let Some((t, u, v)) = ray_triangle_intersection(p, dir, from_fn(|i| vs[i]), &None) {
+                if t.is_zero() {
+                    return Some(PointInMeshResult::OnSurface);
                 }
-                IntersectionResult::Miss => {
-                    // even parity for this direction (0), do nothing
+                if t.is_negative() {
+                    continue;
+                }
+                let w = &(&T::one() - &u) - &v;
+                if [&u, &v, &w].iter().all(|l| (*l - &tol).is_positive()) {
+                    inside = !inside;
+                } else {
+                    decided = false;
                 }
             }
         }
 
-        if on_surface {
-            PointInMeshResult::OnSurface
-        } else if inside_count > total_rays / 2 {
-            PointInMeshResult::Inside
+        if !decided {
+            None
+        } else if inside {
+            Some(PointInMeshResult::Inside)
         } else {
-            PointInMeshResult::Outside
+            Some(PointInMeshResult::Outside)
         }
     }
 
-- 
2.43.0


From 8e3768ff96f1c068a172f07bbd0e584345c2318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:17 +0000
Subject: [PATCH 35/49] fix: give a half-edge touching the vertex when locating
 a replaced edge

When a replaced half-edge was looked up at the position of a vertex, the
twin of the first half-edge of some face at that vertex was returned,
which need not touch the vertex at all.
---
 src/mesh/topology.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7c242ee..dcb05c6 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1600,8 +1600,15 @@ impl_mesh! {
                 FindFaceResult::OnEdge { he, .. } => {
                     return he;
                 },
-                FindFaceResult::OnVertex { f, .. } => {
-                    return self.half_edges[self.faces[f].half_edge].twin;
+                FindFaceResult::OnVertex { f, v } => {
+                    // a half-edge of the face that ends at the vertex
+                    let (e0, e1, e2) = self.face_edges(f);
+                    for e in [e0, e1, e2] {
+                        if target_of(self, e) == v {
+                            return e;
+                        }
+                    }
+                    return e0;
                 },
                 FindFaceResult::Inside { f, .. } => {
                     // Choose the boundary edge of that face that is closest.
-- 
2.43.0


From b28eb0b53bd9ae64e1b887c64a01819fe34db049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:17 +0000
Subject: [PATCH 36/49] fix: locate points in faces that contain them, not
 faces they project to

Barycentric coordinates in space describe the projection of the point
onto the plane of the face, so the search stopped at any face the point
projected into. Degenerate faces on the way and plane meshes that needed
the global scan made it panic.
---
 src/mesh/topology.rs | 82 +++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 46 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index dcb05c6..1c26459 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1319,52 +1319,32 @@ impl_mesh! {
         let zero = T::zero();
         let one  = T::one();
 
-        #[inline]
-        fn live_face_degenerate<TS: Scalar, const M: usize>(mesh: &Mesh<TS, M>, f: usize) -> bool
-        where
-            Point<TS, M>: PointOps<TS, M, Vector = Vector<TS, M>>,
-            Vector<TS, M>: VectorOps<TS, M>,
-            Vector<TS, 3>: VectorOps<TS, 3> + Cross3<TS>,
-            for<'a> &'a TS: Add<&'a TS, Output = TS>
-                        + Sub<&'a TS, Output = TS>
-                        + Mul<&'a TS, Output = TS>,
-        {
-            // vertices (A,B,C) of face f
-            let [i0, i1, i2] = {
-                let e0 = mesh.faces[f].half_edge;
-                let e1 = mesh.half_edges[e0].next;
-                let a = mesh.half_edges[mesh.half_edges[e0].prev].vertex; // tail(e0)
-                let b = mesh.half_edges[e0].vertex;                       // head(e0)
-                let c = mesh.half_edges[e1].vertex;                       // head(e1)
-                [a, b, c]
-            };
-
-            // zero-length edge => degenerate
-            let ab = (&mesh.vertices[i1].position - &mesh.vertices[i0].position).as_vector();
-            let ac = (&mesh.vertices[i2].position - &mesh.vertices[i0].position).as_vector();
-            let bc = (&mesh.vertices[i2].position - &mesh.vertices[i1].position).as_vector();
-            if ab.dot(&ab).is_zero() || ac.dot(&ac).is_zero() || bc.dot(&bc).is_zero() {
-                return true;
-            }
-
-            // collinear A,B,C => degenerate (3D-safe; for 2D z=0 it still works)
-            let ab3 = ab.0.as_vector_3();
-            let ac3 = ac.0.as_vector_3();
-            let n = ab3.cross(&ac3);               // compute once
-            // exact test with LazyExact: only true if *exactly* collinear
-            n[0].is_zero() && n[1].is_zero() && n[2].is_zero()
-        }
-
         // Exact barycentrics (l0,l1,l2) with respect to face f, using current vertex positions
-        let bary_live = |f: usize| -> (T, T, T) {
+        // (None for degenerate faces)
+        let bary_live = |f: usize| -> Option<(T, T, T)> {
             let [i0,i1,i2] = self.face_vertices(f);
             barycentric_coords(
                 point,
                 &self.vertices[i0].position,
                 &self.vertices[i1].position,
                 &self.vertices[i2].position,
-            ).unwrap()
+            )
+        };
+
+        // Barycentrics describe the projection onto the face's plane: is the point itself in the plane?
+        let in_plane = |f: usize, l: &(T, T, T)| -> bool {
+            let [i0,i1,i2] = self.face_vertices(f);
+            let mut d2 = T::zero();
+            for k in 0..N {
+                let ab = &(&l.0 * &self.vertices[i0].position[k]) + &(&l.1 * &self.vertices[i1].position[k]);
+                let q = &ab + &(&l.2 * &self.vertices[i2].position[k]);
+                let d = &q - &point[k];
+                d2 = &d2 + &(&d * &d);
+            }
+            d2.is_zero()
         };
+        // First face the point only projects into; used when no face contains it
+        let mut projected: Option<usize> = None;
 
         // neighbors of a live face via twins (skip borders / removed faces)
         let push_live_neighbors = |mesh: &Mesh<T, N>, f: usize, q: &mut VecDeque<usize>, seen: &AHashSet<usize>| {
@@ -1392,16 +1372,20 @@ impl_mesh! {
 
             if !self.faces[f].removed {
                 // Barycentric-driven membership and priority: Edge -> Vertex -> Inside
-                let (l0, l1, l2) = bary_live(f);
                 let neg = |x: &T| -> bool { x.is_negative() };
 
-                if neg(&l0) || neg(&l1) || neg(&l2) {
-                    // Off this face; explore neighbors
-                    push_live_neighbors(self, f, &mut q, &seen);
-                    continue;
+                if let Some(l) = bary_live(f) {
+                    if !neg(&l.0) && !neg(&l.1) && !neg(&l.2) {
+                        if in_plane(f, &l) {
+                            return self.location_on_face(f, point);
+                        }
+                        projected = projected.or(Some(f));
+                    }
                 }
 
-                return self.location_on_face(f, point);
+                // Off this face; explore neighbors
+                push_live_neighbors(self, f, &mut q, &seen);
+                continue;
             }
 
             // Removed face: descend via recorded triangles (use current vertex positions for test)
@@ -1448,11 +1432,16 @@ impl_mesh! {
 
         for f in 0..self.faces.len() {
             if self.faces[f].removed { continue; }
-            if live_face_degenerate(self, f) { continue; }
 
-            let (l0,l1,l2) = bary_live(f);
+            let Some((l0,l1,l2)) = bary_live(f) else { continue };
             let neg = |x: &T| -> bool { x.is_negative() };
             if neg(&l0) || neg(&l1) || neg(&l2) { continue; }
+            let l = (l0, l1, l2);
+            if !in_plane(f, &l) {
+                projected = projected.or(Some(f));
+                continue;
+            }
+            let (l0, l1, l2) = l;
 
             let zc = l0.is_zero() as u8 + l1.is_zero() as u8 + l2.is_zero() as u8;
 
@@ -1475,6 +1464,7 @@ impl_mesh! {
         if let Some((f, he, u)) = best_edge   { return FindFaceResult::OnEdge { f, he, u }; }
         if let Some((f, v))     = best_vertex { return FindFaceResult::OnVertex { f, v }; }
         if let Some((f, bary))  = best_inside { return FindFaceResult::Inside { f, bary }; }
+        if let Some(f)          = projected   { return self.location_on_face(f, point); }
 
         panic!("find_valid_face: could not locate a face/edge/vertex for the point starting from {}", start_face);
     }
-- 
2.43.0


From e532561c4245626959a1adde340d2acb930565fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:32 +0000
Subject: [PATCH 37/49] fix: keep flooding across edges when collecting the
 triangles of a face

The triangle across an edge lies on the opposite side of it. The search
asked for the side it came from and so never left the first ring.
---
 src/operations/triangulation/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index fd7083b..18a93c7 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -989,7 +989,7 @@ where
         // accept it
         accepted.insert(ti);
 
-        // push its other two edges with **directed** wanted side = orient(i->j, k)
+        // push its other two edges; the neighbour lies across, opposite orient(i->j, k)
         let t = dt_tris[ti];
         for (i, j, k) in [(t.0, t.1, t.2), (t.1, t.2, t.0), (t.2, t.0, t.1)] {
             // skip the edge we used to reach this tri
@@ -1006,7 +1006,7 @@ where
                 0
             };
             if side_dir != 0 {
-                q.push_back((i, j, side_dir));
+                q.push_back((i, j, -side_dir));
             }
         }
     }
-- 
2.43.0


From 882bef95bee2da44c3a136b9ac8670c3017001d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:32 +0000
Subject: [PATCH 38/49] fix: decide circumcircle tests by the predicate alone

The floating-point circle comparison in front of it had no error bound:
for points far from the origin, or circles of very different size, it
gave wrong answers that tore holes into the triangulation.
---
 src/operations/triangulation/delaunay.rs | 66 +-----------------------
 1 file changed, 1 insertion(+), 65 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 18a93c7..29fdb95 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -266,7 +266,7 @@ where
         } else if t.2 == GHOST {
             (t.0, t.1)
         } else {
-            return Self::point_in_circumcircle_fast(p, t, points);
+            return Self::point_in_circumcircle(p, t, points);
         };
         let o = orient2d(&points[a], &points[b], p);
         if o.is_zero() {
@@ -289,35 +289,6 @@ where
         incircle(&points[aa], &points[bb], &points[cc], p).is_positive()
     }
 
-    fn point_in_circumcircle_fast(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
-        if let Some((cx, cy, r2)) =
-            circumcircle_approx_fast(&points[t.0], &points[t.1], &points[t.2])
-        {
-            let px = p[0].ball_center_f64();
-            let py = p[1].ball_center_f64();
-
-            if [px, py, cx, cy, r2].iter().all(|x| x.is_finite()) {
-                let dx = px - cx;
-                let dy = py - cy;
-                let dist2 = dx * dx + dy * dy;
-
-                let tolerance = EPS * r2.max(1.0);
-
-                // Clearly outside circumcircle
-                if dist2 > r2 + tolerance {
-                    return false;
-                }
-                // Clearly inside circumcircle
-                if dist2 < r2 - tolerance {
-                    return true;
-                }
-            }
-        }
-
-        // Uncertain cases: fallback to exact
-        Self::point_in_circumcircle(p, t, points)
-    }
-
     /// Complete Bowyer-Watson with constraint handling
     pub fn build_with_constraints_bowyer_watson<const N: usize>(
         pts: &[Point2<T>],
@@ -1013,38 +984,3 @@ where
 
     accepted
 }
-
-fn circumcircle_approx_fast<T: Scalar>(
-    a: &Point2<T>,
-    b: &Point2<T>,
-    c: &Point2<T>,
-) -> Option<(f64, f64, f64)> {
-    let ax = a[0].ball_center_f64();
-    let ay = a[1].ball_center_f64();
-    let bx = b[0].ball_center_f64();
-    let by = b[1].ball_center_f64();
-    let cx = c[0].ball_center_f64();
-    let cy = c[1].ball_center_f64();
-
-    if ![ax, ay, bx, by, cx, cy].iter().all(|x| x.is_finite()) {
-        return None;
-    }
-
-    let d = 2.0 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by));
-    if d.abs() < 1e-15 {
-        return None;
-    }
-
-    let a2 = ax * ax + ay * ay;
-    let b2 = bx * bx + by * by;
-    let c2 = cx * cx + cy * cy;
-
-    let ux = (a2 * (by - cy) + b2 * (cy - ay) + c2 * (ay - by)) / d;
-    let uy = (a2 * (cx - bx) + b2 * (ax - cx) + c2 * (bx - ax)) / d;
-
-    let dx = ax - ux;
-    let dy = ay - uy;
-    let r2 = dx * dx + dy * dy;
-
-    Some((ux, uy, r2))
-}
-- 
2.43.0


From c35df3a829b272ceef3e43e4579f9dd3a2fe9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:02 +0000
Subject: [PATCH 39/49] fix: leave removed faces out of the intersection search

A mesh with faces removed by earlier edits made boolean operations panic
or cut along faces that no longer exist.
---
 src/mesh_processing/boolean.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index b0714d2..b6ad0c8 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -355,6 +355,9 @@ where
         let mut ends_vec = Vec::with_capacity(64);
 
         for fa in 0..self.faces.len() {
+            if self.faces[fa].removed {
+                continue;
+            }
             candidates.clear();
             tree_b.query(&self.face_aabb(fa), &mut candidates);
 
@@ -477,6 +480,9 @@ where
         let one = T::one();
 
         for fa in 0..self.faces.len() {
+            if self.faces[fa].removed {
+                continue;
+            }
             candidates.clear();
             tree_b.query(&self.face_aabb(fa), &mut candidates);
 
-- 
2.43.0


From a54adc5bd13af9c19650cca8de3787611e8c4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:40 +0000
Subject: [PATCH 40/49] fix: reject smoothing moves that turn a face over

Moving a vertex towards the average of its neighbours can carry it past an
edge of its own neighbourhood. The incident faces were not looked at, so a
flat mesh could end up folded.
---
 src/mesh/core.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index cf08b87..f38caba 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1333,8 +1333,28 @@ impl_mesh! {
             }
         }
 
-        // Fast rejection using ball approximation for degeneracy check
-        // ...existing degeneracy check...
+        // Reject a move that would turn an incident face over or flatten it to zero area
+        let cross = |p: &Point<T, N>, b: &Point<T, N>, c: &Point<T, N>| -> [T; 3] {
+            let u: [T; 3] = from_fn(|i| &b[i] - &p[i]);
+            let w: [T; 3] = from_fn(|i| &c[i] - &p[i]);
+            from_fn(|i| {
+                let (j, k) = ((i + 1) % 3, (i + 2) % 3);
+                &(&u[j] * &w[k]) - &(&u[k] * &w[j])
+            })
+        };
+        let dot = |x: &[T; 3], y: &[T; 3]| &(&(&x[0] * &y[0]) + &(&x[1] * &y[1])) + &(&x[2] * &y[2]);
+        for &(he, b_idx) in &valid_neighbors {
+            if self.half_edges[he].face.is_none() {
+                continue;
+            }
+            let b = &self.vertices[b_idx].position;
+            let c = &self.vertices[self.half_edges[self.half_edges[he].next].vertex].position;
+            let before = cross(&self.vertices[v].position, b, c);
+            let after = cross(&new_pos, b, c);
+            if dot(&after, &after).is_zero() || dot(&before, &after).is_negative() {
+                return false;
+            }
+        }
 
         // Commit new position
         self.move_vertex(v, new_pos);
-- 
2.43.0


From a26147bceafdbc6e79f439de99e8ec37b9fa4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:40 +0000
Subject: [PATCH 41/49] fix: flip an edge only where the new faces keep facing
 the same way

The flip decision compared angles and areas only. Around a non-convex quad a
flip then folded the surface over itself. Coincident corners made the angle
unavailable, which panicked.
---
 src/mesh_processing/remesh.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index f09f11b..8490af5 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -219,13 +219,17 @@ impl_mesh! {
         if v2 == v3 { return false; } // would collapse
 
         // Old triangles: (v0,v1,v2) and (v1,v0,v3)
-        let old1 = self.tri_min_angle_cos_f64(v0,v1,v2).unwrap();
-        let old2 = self.tri_min_angle_cos_f64(v1,v0,v3).unwrap();
+        let (Some(old1), Some(old2)) = (
+            self.tri_min_angle_cos_f64(v0,v1,v2),
+            self.tri_min_angle_cos_f64(v1,v0,v3),
+        ) else { return false };
         let old_min = old1.max(old2); // since each returns cos(minAngle of tri), worst small angle
 
         // New triangles after flip: (v0,v2,v3) and (v1,v3,v2)
-        let new1 = self.tri_min_angle_cos_f64(v0,v2,v3).unwrap();
-        let new2 = self.tri_min_angle_cos_f64(v1,v3,v2).unwrap();
+        let (Some(new1), Some(new2)) = (
+            self.tri_min_angle_cos_f64(v0,v2,v3),
+            self.tri_min_angle_cos_f64(v1,v3,v2),
+        ) else { return false };
         let new_min = new1.max(new2);
 
         // Require a strict improvement with a small epsilon
@@ -243,10 +247,20 @@ impl_mesh! {
             let z  = n.norm2();
             z > T::zero()
         };
-        area_safe(&pa,&pb,&pc) &&
-        area_safe(&pb,&pa,&pd) &&
-        area_safe(&pa,&pc,&pd) &&
-        area_safe(&pb,&pd,&pc)
+        let safe = area_safe(&pa,&pb,&pc) &&
+            area_safe(&pb,&pa,&pd) &&
+            area_safe(&pa,&pc,&pd) &&
+            area_safe(&pb,&pd,&pc);
+        if !safe { return false; }
+
+        // Orientation guard: no new triangle may face away from an old one,
+        // as happens when the quad is not convex
+        let normal = |p0: &Point::<T, N>, p1: &Point::<T, N>, p2: &Point::<T, N>| {
+            (p1 - p0).as_vector().cross(&(p2 - p0).as_vector())
+        };
+        let old = [normal(&pa,&pb,&pc), normal(&pb,&pa,&pd)];
+        let new = [normal(&pa,&pd,&pc), normal(&pb,&pc,&pd)];
+        old.iter().all(|o| new.iter().all(|n| o.dot(n) > T::zero()))
     }
 
     /// Flip edges using quality-based predicate plus lightweight valence improvement.
-- 
2.43.0


From bee0446211d45f3628e599b5f453f13c5cf7c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:41 +0000
Subject: [PATCH 42/49] fix: refuse malformed OBJ files and read corners with
 attributes

Lines that did not parse, indices out of range and numbers that are not finite
panicked, as did faces in the usual i/j/k notation. A face repeating a vertex
left broken connectivity behind.
---
 src/io/obj.rs | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..d285bfc 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -93,6 +93,33 @@ where
     let file = File::open(path)?;
     let reader = BufReader::new(file);
 
+    fn bad(msg: &str) -> io::Error {
+        io::Error::new(io::ErrorKind::InvalidData, format!("OBJ: {}", msg))
+    }
+    fn coord(tok: Option<&str>) -> io::Result<f64> {
+        let x: f64 = tok
+            .ok_or_else(|| bad("incomplete vertex"))?
+            .parse()
+            .map_err(|_| bad("bad vertex coordinate"))?;
+        if x.is_finite() {
+            Ok(x)
+        } else {
+            Err(bad("vertex coordinate is not finite"))
+        }
+    }
+    // zero-based index of an "i", "i/j", "i//k" or "i/j/k" corner (1-based in OBJ)
+    fn index(tok: Option<&str>, count: usize) -> io::Result<usize> {
+        let i: usize = tok
+            .and_then(|t| t.split('/').next())
+            .ok_or_else(|| bad("incomplete face"))?
+            .parse()
+            .map_err(|_| bad("bad face index"))?;
+        if i == 0 || i > count {
+            return Err(bad("face index out of range"));
+        }
+        Ok(i - 1)
+    }
+
     let mut mesh = Mesh::new();
     let mut vertex_map = Vec::new();
 
@@ -102,19 +129,21 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
+                let x = coord(parts.next())?;
+                let y = coord(parts.next())?;
+                let z = coord(parts.next())?;
                 let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
                 vertex_map.push(vid);
             }
             Some("f") => {
                 // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
-                // subtract 1 for zero-based
-                mesh.add_triangle(i - 1, j - 1, k - 1);
+                let i = index(parts.next(), vertex_map.len())?;
+                let j = index(parts.next(), vertex_map.len())?;
+                let k = index(parts.next(), vertex_map.len())?;
+                if i == j || j == k || k == i {
+                    return Err(bad("face repeats a vertex"));
+                }
+                mesh.add_triangle(i, j, k);
             }
             _ => {
                 // ignore comments, normals, etc.
-- 
2.43.0


From c2c01333245cd1301c5d21520dc4c4f93a715127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:41 +0000
Subject: [PATCH 43/49] fix: refuse OFF files with impossible faces or
 coordinates

Face indices were not compared with the number of vertices, a face could repeat
a vertex, and a huge polygon size kept the reader busy after the end of the
file.
---
 src/io/off.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..c26872d 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -190,6 +190,13 @@ where
             .parse()
             .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex z"))?;
 
+        if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "OFF: vertex coordinate is not finite",
+            ));
+        }
+
         // Assuming Point3::<T>::from_vals accepts f64s as in your OBJ reader
         let _vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
         // We don't need to store a map because OFF face indices are zero-based
@@ -230,11 +237,25 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            if a >= vcount || b >= vcount || c >= vcount {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: face index out of range",
+                ));
+            }
+            if a == b || b == c || c == a {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: face repeats a vertex",
+                ));
+            }
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
             for _ in 0..poly_size {
-                let _ = it.next(); // discard
+                it.next().ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete face")
+                })?;
             }
         }
     }
-- 
2.43.0


From 34d0cf856b897731075920710ad83023fa940de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:41 +0000
Subject: [PATCH 44/49] fix: refuse STL facets that do not have three finite
 vertices

---
 src/io/stl.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 4a5b6b5..4a842a3 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -173,13 +173,24 @@ where
                     .parse()
                     .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
 
+                if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: vertex coordinate is not finite",
+                    ));
+                }
+
                 let vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
                 vertices.push(vid);
             }
             Some("endfacet") => {
-                if vertices.len() == 3 {
-                    mesh.add_triangle(vertices[0], vertices[1], vertices[2]);
+                if vertices.len() != 3 {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: facet without three vertices",
+                    ));
                 }
+                mesh.add_triangle(vertices[0], vertices[1], vertices[2]);
                 vertices.clear();
             }
             Some("endsolid") => {
-- 
2.43.0


From af6686bab86ffaa5ebf99e907f1d0b3488ee6f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:28 +0000
Subject: [PATCH 45/49] fix: keep intersection segments that start at a corner
 of the face they cut

---
 src/mesh_processing/batching.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mesh_processing/batching.rs b/src/mesh_processing/batching.rs
index f0d6011..4e3ec70 100644
--- a/src/mesh_processing/batching.rs
+++ b/src/mesh_processing/batching.rs
@@ -455,7 +455,7 @@ where
                 let (u, v, _) =
                     barycentric_coords(&mesh.vertices[va].position, pa, pb, pc).unwrap();
                 let pa_uv = Point2::new([u, v]);
-                a_res = choose_vertex_on_face(mesh, face_id, &[va, vb], &pa_uv, pa, pb, pc)
+                a_res = choose_vertex_on_face(mesh, face_id, &[va], &pa_uv, pa, pb, pc)
                     .unwrap_or(va);
                 if !boundary_verts.contains(&a_res) {
                     push_vertex_uv_3(
@@ -475,7 +475,7 @@ where
                 let (u, v, _) =
                     barycentric_coords(&mesh.vertices[vb].position, pa, pb, pc).unwrap();
                 let pb_uv = Point2::new([u, v]);
-                b_res = choose_vertex_on_face(mesh, face_id, &[vb, va], &pb_uv, pa, pb, pc)
+                b_res = choose_vertex_on_face(mesh, face_id, &[vb], &pb_uv, pa, pb, pc)
                     .unwrap_or(vb);
                 if !boundary_verts.contains(&b_res) {
                     push_vertex_uv_3(
@@ -564,12 +564,8 @@ where
                 return seg_on_any_outer_edge(*a, *b, &points_uv);
             }
 
-            // 3) boundary–interior: allow only if the segment lies on an outer edge
-            if a_is_boundary ^ b_is_boundary {
-                return seg_on_any_outer_edge(*a, *b, &points_uv);
-            }
-
-            // 4) interior–interior: always ok (intersection chords etc.)
+            // 3) anything else is part of an intersection curve, which may
+            //    start at a corner of the face
             true
         });
 
-- 
2.43.0


From cb6d1e3d445d4a64524a93cb513733c64cdac1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:28 +0000
Subject: [PATCH 46/49] fix: decide regions by a face that does not merely
 touch the other surface

---
 src/mesh_processing/boolean.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index b6ad0c8..6835ae3 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -181,7 +181,7 @@ where
             }
 
             // Flood-fill every region bounded by the intersection curves, and decide
-            // each region once, from its largest face.
+            // each region once, from its larger faces.
             for start in 0..self.faces.len() {
                 if visited[start] || self.faces[start].removed {
                     continue;
@@ -206,17 +206,23 @@ where
                     }
                 }
 
-                let representative = region
+                let mut by_area: Vec<(f64, usize)> = region
                     .iter()
-                    .copied()
-                    .max_by(|&f, &g| self.face_area_fast(f).total_cmp(&self.face_area_fast(g)))
-                    .unwrap();
-                let c = self.face_centroid_fast(representative);
-                let region_inside = match other.point_in_mesh_3(&tree_b, &c) {
-                    PointInMeshResult::Inside => true,
-                    PointInMeshResult::OnSurface => include_on_surface,
-                    PointInMeshResult::Outside => false,
-                };
+                    .map(|&f| (self.face_area_fast(f), f))
+                    .collect();
+                by_area.sort_by(|x, y| y.0.total_cmp(&x.0));
+
+                // A face whose centroid merely touches the other surface says nothing
+                // about the region, ask the next one.
+                let mut region_inside = include_on_surface;
+                for &(_, f) in &by_area {
+                    match other.point_in_mesh_3(&tree_b, &self.face_centroid_fast(f)) {
+                        PointInMeshResult::Inside => region_inside = true,
+                        PointInMeshResult::Outside => region_inside = false,
+                        PointInMeshResult::OnSurface => continue,
+                    }
+                    break;
+                }
                 for f in region {
                     inside[f] = region_inside;
                 }
-- 
2.43.0


From 5bc1f6116a92af464fdd506121d98078e2e4049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:28 +0000
Subject: [PATCH 47/49] fix: cut along edges that lie in a face of the other
 solid

---
 src/mesh_processing/boolean.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 6835ae3..8bbb6b4 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -392,10 +392,11 @@ where
                         ends_vec.push(ends);
                     }
                     TriTriIntersectionDetailed::Coplanar { segs } => {
+                        // a single segment is an edge lying in the other face's plane
+                        coplanar = segs.len() > 1;
                         for ends in segs {
                             ends_vec.push(ends);
                         }
-                        coplanar = true;
                     }
                     _ => {}
                 }
-- 
2.43.0


From 5cb3860c2db396c24defdb6afc08deb0d772645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:27 +0000
Subject: [PATCH 48/49] fix: decide regions by the exact centroid of a face

The rounded centroid can fall on the wrong side of the other surface
where that touches the face in its centroid.
---
 src/mesh_processing/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 8bbb6b4..d9a837f 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -216,7 +216,7 @@ where
                 // about the region, ask the next one.
                 let mut region_inside = include_on_surface;
                 for &(_, f) in &by_area {
-                    match other.point_in_mesh_3(&tree_b, &self.face_centroid_fast(f)) {
+                    match other.point_in_mesh_3(&tree_b, &self.face_centroid(f).0) {
                         PointInMeshResult::Inside => region_inside = true,
                         PointInMeshResult::Outside => region_inside = false,
                         PointInMeshResult::OnSurface => continue,
-- 
2.43.0


From d85bdbf340eeff55a15d50a47bc555aec1c3ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:26 +0000
Subject: [PATCH 49/49] fix: restore the line ends of the predicate files

Two earlier repairs had converted predicates.rs and orientation.rs from CRLF to LF. Only line ends change here, so the difference to the original files is again limited to the repaired lines.
---
 src/kernel/orientation.rs |  134 ++--
 src/kernel/predicates.rs  | 1354 ++++++++++++++++++-------------------
 2 files changed, 744 insertions(+), 744 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index 581b255..6230b6c 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -1,67 +1,67 @@
-// SPDX-License-Identifier: MIT
-//
-// Copyright (c) 2025 Alexandre Severino
-//
-// Permission is hereby granted, free of charge, to any person obtaining a copy
-// of this software and associated documentation files (the "Software"), to deal
-// in the Software without restriction, including without limitation the rights
-// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-// copies of the Software, and to permit persons to whom the Software is
-// furnished to do so, subject to the following conditions:
-//
-// The above copyright notice and this permission notice shall be included in
-// all copies or substantial portions of the Software.
-//
-// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-// SOFTWARE.
-
-use crate::geometry::point::Point;
-use crate::numeric::scalar::Scalar;
-use std::{
-    array::from_fn,
-    ops::{Add, Mul, Neg, Sub},
-};
-
-/// Returns:
-/// - >0 if counter-clockwise
-/// - <0 if clockwise
-/// - =0 if collinear
-pub fn orient<T, const N: usize>(p: &[Point<T, N>]) -> T
-where
-    T: Scalar + Neg<Output = T>,
-    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
-{
-    assert!(p.len() == N + 1, "need N+1 points");
-    // 1. Build an NxN matrix of the difference vectors  (p[i+1] – p[0])
-    let mut m: [[T; N]; N] =
-        from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
-
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // previous pivot; the last one is the determinant
-    for k in 0..N {
-        // a zero pivot is exchanged with a row below; none left => determinant is zero
-        match (k..N).find(|&r| m[r][k].abs() != T::zero()) {
-            None => return T::zero(),
-            Some(r) if r != k => {
-                m.swap(k, r);
-                for x in m[k].iter_mut() {
-                    *x = -x.clone();
-                }
-            }
-            _ => {}
-        }
-        for i in (k + 1)..N {
-            for j in (k + 1)..N {
-                //   m[i][j] = (m[i][j] * pivot - m[i][k] * m[k][j]) / previous pivot;
-                m[i][j] = (&(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j])) / det.clone();
-            }
-        }
-        det = m[k][k].clone();
-    }
-    det
-}
+// SPDX-License-Identifier: MIT
+//
+// Copyright (c) 2025 Alexandre Severino
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in
+// all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+use crate::geometry::point::Point;
+use crate::numeric::scalar::Scalar;
+use std::{
+    array::from_fn,
+    ops::{Add, Mul, Neg, Sub},
+};
+
+/// Returns:
+/// - >0 if counter-clockwise
+/// - <0 if clockwise
+/// - =0 if collinear
+pub fn orient<T, const N: usize>(p: &[Point<T, N>]) -> T
+where
+    T: Scalar + Neg<Output = T>,
+    for<'a> &'a T: Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
+{
+    assert!(p.len() == N + 1, "need N+1 points");
+    // 1. Build an NxN matrix of the difference vectors  (p[i+1] – p[0])
+    let mut m: [[T; N]; N] =
+        from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
+
+    // 2. Fraction-free Gaussian elimination → determinant in `det`
+    let mut det = T::one(); // previous pivot; the last one is the determinant
+    for k in 0..N {
+        // a zero pivot is exchanged with a row below; none left => determinant is zero
+        match (k..N).find(|&r| m[r][k].abs() != T::zero()) {
+            None => return T::zero(),
+            Some(r) if r != k => {
+                m.swap(k, r);
+                for x in m[k].iter_mut() {
+                    *x = -x.clone();
+                }
+            }
+            _ => {}
+        }
+        for i in (k + 1)..N {
+            for j in (k + 1)..N {
+                //   m[i][j] = (m[i][j] * pivot - m[i][k] * m[k][j]) / previous pivot;
+                m[i][j] = (&(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j])) / det.clone();
+            }
+        }
+        det = m[k][k].clone();
+    }
+    det
+}
diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index b9c01a9..b058272 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -1,677 +1,677 @@
-// SPDX-License-Identifier: MIT
-//
-// Copyright (c) 2025 Alexandre Severino
-//
-// Permission is hereby granted, free of charge, to any person obtaining a copy
-// of this software and associated documentation files (the "Software"), to deal
-// in the Software without restriction, including without limitation the rights
-// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-// copies of the Software, and to permit persons to whom the Software is
-// furnished to do so, subject to the following conditions:
-//
-// The above copyright notice and this permission notice shall be included in
-// all copies or substantial portions of the Software.
-//
-// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-// SOFTWARE.
-
-use crate::geometry::point::PointOps;
-use crate::geometry::segment::Segment;
-use crate::geometry::spatial_element::SpatialElement;
-use crate::geometry::util::EPS;
-use crate::geometry::vector::{Cross3, VectorOps};
-use crate::geometry::{Point2, Point3};
-use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::scalar::Scalar;
-use std::ops::{Add, Div, Mul, Sub};
-
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
-pub enum TrianglePoint {
-    Off,
-    OnEdge,
-    OnVertex,
-    In,
-}
-
-pub fn are_equal<T: Scalar, const N: usize>(p1: &Point<T, N>, p2: &Point<T, N>) -> bool
-where
-    for<'a> &'a T: Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
-{
-    for i in 0..N {
-        if !(&p1.coords[i] - &p2.coords[i]).is_zero() {
-            return false;
-        }
-    }
-
-    return true;
-}
-
-pub fn are_approximately_equal<T: Scalar, const N: usize>(
-    p1: &Point<T, N>,
-    p2: &Point<T, N>,
-) -> bool
-where
-    for<'a> &'a T: Sub<&'a T, Output = T>,
-{
-    for i in 0..N {
-        let diff = &p1.coords[i] - &p2.coords[i];
-
-        // Fast path: try approximation first
-        if let Some(diff_f64) = diff.as_f64_fast() {
-            if diff_f64.abs() > T::point_merge_threshold().as_f64_fast().unwrap_or(EPS) {
-                return false;
-            }
-        } else {
-            // Fallback: use exact comparison only if approximation unavailable
-            if !diff.is_zero() {
-                return false;
-            }
-        }
-    }
-    true
-}
-
-pub fn are_collinear<T, const N: usize>(a: &Point<T, N>, b: &Point<T, N>, c: &Point<T, N>) -> bool
-where
-    T: Scalar,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    for i in 0..N {
-        let ui = &b.coords[i] - &a.coords[i];
-        let vi = &c.coords[i] - &a.coords[i];
-
-        if ui.abs().is_positive() {
-            // first non-zero component gives the candidate scale factor
-            let r = &vi / &ui;
-
-            // every remaining coordinate must satisfy vj = r * uj
-            for j in (i + 1)..N {
-                let uj = &b.coords[j] - &a.coords[j];
-                let vj = &c.coords[j] - &a.coords[j];
-                if (&vj - &(&uj * &r)).abs().is_positive() {
-                    return false; // breaks proportionality
-                }
-            }
-            return true; // all coordinates match
-        } else if vi.abs().is_positive() {
-            return false; // ui ≈ 0 but vi isn’t ⇒ not collinear
-        }
-    }
-    // all ui ≈ 0  ⇒  A and B coincide; collinear iff C coincides too
-    true
-}
-
-pub fn triangle_is_degenerate<T: Scalar, const N: usize>(
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    c: &Point<T, N>,
-) -> bool
-where
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // Coincidence or collinearity → zero area
-    are_equal(a, b) || are_equal(a, c) || are_equal(b, c) || are_collinear(a, b, c)
-}
-
-pub fn is_point_on_segment<T, const N: usize>(p: &Point<T, N>, seg: &Segment<T, N>) -> bool
-where
-    T: Scalar,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-    T: PartialOrd, // needed for comparisons inside the loop
-{
-    // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(&seg.a, &seg.b, p) {
-        return false;
-    }
-
-    // 2.  For every coordinate axis, P must lie between A and B
-    for i in 0..N {
-        let ai = &seg.a.coords[i];
-        let bi = &seg.b.coords[i];
-
-        // min_i, max_i bounds
-        let (min_i, max_i) = if ai <= bi { (ai, bi) } else { (bi, ai) };
-
-        let pi = &p.coords[i];
-        if pi < min_i || pi > max_i {
-            return false; // outside on some axis ⇒ not on segment
-        }
-    }
-
-    true
-}
-
-pub fn point_u_on_segment<T: Scalar + PartialOrd, const N: usize>(
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    p: &Point<T, N>,
-) -> Option<T>
-where
-    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
-    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Add<&'a T, Output = T>
-        + Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // Direction and offset
-    let ab = (b - a).as_vector();
-    let ap = (p - a).as_vector();
-
-    // Degenerate segment?
-    let ab2 = ab.dot(&ab);
-    if ab2.is_zero() {
-        return if are_equal(a, p) {
-            Some(T::zero())
-        } else if are_equal(b, p) {
-            Some(T::one())
-        } else {
-            None
-        };
-    }
-
-    // Must be collinear with AB
-    if !are_collinear(a, b, p) {
-        return None;
-    }
-
-    // Parametric coordinate along AB
-    let u = ap.dot(&ab) / ab2;
-    if u < T::zero() || u > T::one() {
-        None
-    } else {
-        Some(u)
-    }
-}
-
-pub fn point_u_on_segment_with_tolerance<T: Scalar + PartialOrd, const N: usize>(
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    p: &Point<T, N>,
-    tolerance: &T,
-) -> Option<T>
-where
-    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
-    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Add<&'a T, Output = T>
-        + Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    fn are_approx<TT: Scalar, const NN: usize>(
-        p1: &Point<TT, NN>,
-        p2: &Point<TT, NN>,
-        tolerance: &TT,
-    ) -> bool
-    where
-        for<'a> &'a TT:
-            Add<&'a TT, Output = TT> + Sub<&'a TT, Output = TT> + Mul<&'a TT, Output = TT>,
-    {
-        let tolerance_sq = tolerance * tolerance;
-        let mut distance_sq = TT::zero();
-
-        for i in 0..NN {
-            let diff = &p1.coords[i] - &p2.coords[i];
-            distance_sq = &distance_sq + &(&diff * &diff);
-        }
-
-        (distance_sq - tolerance_sq).is_negative_or_zero()
-    }
-
-    // Direction and offset
-    let ab = (b - a).as_vector();
-    let ap = (p - a).as_vector();
-
-    // Degenerate segment?
-    let ab2 = ab.dot(&ab);
-    if ab2.is_zero() {
-        return if are_approx(a, p, tolerance) {
-            Some(T::zero())
-        } else if are_approx(b, p, tolerance) {
-            Some(T::one())
-        } else {
-            None
-        };
-    }
-
-    // Parametric coordinate along AB
-    let u = ap.dot(&ab) / ab2;
-
-    // Clamp u to [0, 1] range for distance calculation
-    let u_clamped = if u < T::zero() {
-        T::zero()
-    } else if u > T::one() {
-        T::one()
-    } else {
-        u.clone()
-    };
-
-    // Calculate closest point on segment
-    let closest_point_vector = ab.scale(&u_clamped);
-    let closest_point = a + &closest_point_vector.0;
-
-    // Calculate distance from p to closest point on segment
-    let distance_vector = (p - &closest_point).as_vector();
-    let distance_sq = distance_vector.dot(&distance_vector);
-    let tolerance_sq = tolerance * tolerance;
-
-    // Check if point is within tolerance of the segment
-    if distance_sq <= tolerance_sq {
-        // Return the original u parameter (not clamped) if within tolerance
-        Some(u)
-    } else {
-        None
-    }
-}
-
-pub fn point_in_or_on_triangle_old<T: Scalar, const N: usize>(
-    p: &Point<T, N>,
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    c: &Point<T, N>,
-) -> TrianglePoint
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // Barycentric setup
-    let v0 = (c - a).as_vector();
-    let v1 = (b - a).as_vector();
-    let v2 = (p - a).as_vector();
-
-    let dot00 = v0.dot(&v0);
-    let dot01 = v0.dot(&v1);
-    let dot02 = v0.dot(&v2);
-    let dot11 = v1.dot(&v1);
-    let dot12 = v1.dot(&v2);
-
-    let denom = &dot00 * &dot11 - &dot01 * &dot01;
-
-    // Degenerate triangle (zero/near-zero area)
-    if denom.abs() < T::tolerance() {
-        return TrianglePoint::Off;
-    }
-
-    let inv = T::one() / denom;
-    let u = &(&dot11 * &dot02 - &dot01 * &dot12) * &inv;
-    let v = &(&dot00 * &dot12 - &dot01 * &dot02) * &inv;
-    let sum_uv = &u + &v;
-    let w = &T::one() - &sum_uv;
-
-    // Classification with tolerance
-    let e = T::tolerance();
-    let neg_e = e.clone().neg();
-
-    // Outside if any barycentric is below -eps or u+v exceeds 1+eps
-    if u < neg_e || v < neg_e || sum_uv > &T::one() + &e {
-        return TrianglePoint::Off;
-    }
-
-    // On if any barycentric is within eps of the boundary
-    // Check if on vertex (distance to vertex is zero)
-    if are_equal(p, a) || are_equal(p, b) || are_equal(p, c) {
-        return TrianglePoint::OnVertex;
-    }
-
-    // Check if on edge (one barycentric coordinate is zero)
-    if u.is_zero() || v.is_zero() || w.is_zero() {
-        return TrianglePoint::OnEdge;
-    }
-
-    TrianglePoint::In
-}
-
-#[inline(always)]
-pub fn point_in_or_on_triangle<T: Scalar + PartialOrd, const N: usize>(
-    p: &Point<T, N>,
-    a: &Point<T, N>,
-    b: &Point<T, N>,
-    c: &Point<T, N>,
-) -> TrianglePoint
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Add<&'a T, Output = T>
-        + Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    #[inline(always)]
-    fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
-        let zero = TS::zero();
-
-        // exact zero flags
-        let z0 = e0.is_zero();
-        let z1 = e1.is_zero();
-        let z2 = e2.is_zero();
-        let zc = (z0 as u8) + (z1 as u8) + (z2 as u8);
-
-        // mixed signs => strictly outside
-        let has_neg = (!z0 && *e0 < zero) || (!z1 && *e1 < zero) || (!z2 && *e2 < zero);
-        let has_pos = (!z0 && *e0 > zero) || (!z1 && *e1 > zero) || (!z2 && *e2 > zero);
-        if has_neg && has_pos {
-            return TrianglePoint::Off;
-        }
-
-        // boundary cases
-        if zc >= 2 {
-            return TrianglePoint::OnVertex; // exactly at a vertex
-        }
-        if zc == 1 {
-            return TrianglePoint::OnEdge; // exactly on a unique edge
-        }
-
-        // inside (all nonzero and same sign)
-        TrianglePoint::In
-    }
-
-    if N == 2 {
-        // degenerate?
-        let abx = &b[0] - &a[0];
-        let aby = &b[1] - &a[1];
-        let acx = &c[0] - &a[0];
-        let acy = &c[1] - &a[1];
-        let area2 = &(&abx * &acy) - &(&aby * &acx);
-        if area2.is_zero() {
-            return TrianglePoint::Off;
-        }
-
-        // edge functions
-        let bcx = &c[0] - &b[0];
-        let bcy = &c[1] - &b[1];
-        let cax = &a[0] - &c[0];
-        let cay = &a[1] - &c[1];
-
-        let apx = &p[0] - &a[0];
-        let apy = &p[1] - &a[1];
-        let bpx = &p[0] - &b[0];
-        let bpy = &p[1] - &b[1];
-        let cpx = &p[0] - &c[0];
-        let cpy = &p[1] - &c[1];
-
-        let e0 = &(&abx * &apy) - &(&aby * &apx);
-        let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
-        let e2 = &(&cax * &cpy) - &(&cay * &cpx);
-
-        return classify_from_edges(&e0, &e1, &e2);
-    } else if N == 3 {
-        // normal and degeneracy
-        let ab = (b - a).as_vector_3();
-        let ac = (c - a).as_vector_3();
-        let n = ab.cross(&ac);
-        if n[0].is_zero() && n[1].is_zero() && n[2].is_zero() {
-            return TrianglePoint::Off;
-        }
-
-        // edge functions projected on n
-        let ap = (p - a).as_vector_3();
-        let bp = (p - b).as_vector_3();
-        let cp = (p - c).as_vector_3();
-        let bc = (c - b).as_vector_3();
-        let ca = (a - c).as_vector_3();
-
-        let e0 = ab.cross(&ap).dot(&n);
-        let e1 = bc.cross(&bp).dot(&n);
-        let e2 = ca.cross(&cp).dot(&n);
-
-        return classify_from_edges(&e0, &e1, &e2);
-    } else {
-        panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-    }
-}
-
-#[inline]
-pub fn orient2d<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>) -> T
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let det = (&b[0] - &a[0]) * (&c[1] - &a[1]) - (&b[1] - &a[1]) * (&c[0] - &a[0]);
-
-    // Snapping near-degenerate values to zero is for inexact scalars only
-    if T::tolerance().is_zero() {
-        return det;
-    }
-
-    let scale_approx = if let (Some(a0), Some(a1), Some(b0), Some(b1), Some(c0), Some(c1)) = (
-        a[0].as_f64_fast(),
-        a[1].as_f64_fast(),
-        b[0].as_f64_fast(),
-        b[1].as_f64_fast(),
-        c[0].as_f64_fast(),
-        c[1].as_f64_fast(),
-    ) {
-        (a0.abs() + a1.abs() + b0.abs() + b1.abs() + c0.abs() + c1.abs()) * EPS
-    } else {
-        EPS // Conservative fallback without exact computation
-    };
-
-    if let Some(det_approx) = det.as_f64_fast() {
-        if det_approx.abs() <= scale_approx {
-            T::zero()
-        } else {
-            det
-        }
-    } else {
-        det // Can't determine with approximation, return raw determinant
-    }
-}
-
-#[inline]
-pub fn incircle<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>, d: &Point2<T>) -> T
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // Compute with standard determinant expansion; apply light scaling guard.
-    // (Assumes abc CCW. If not, caller should flip sign or reorder.)
-    let ax = &a[0] - &d[0];
-    let ay = &a[1] - &d[1];
-    let a2 = &ax * &ax + &ay * &ay;
-    let bx = &b[0] - &d[0];
-    let by = &b[1] - &d[1];
-    let b2 = &bx * &bx + &by * &by;
-    let cx = &c[0] - &d[0];
-    let cy = &c[1] - &d[1];
-    let c2 = &cx * &cx + &cy * &cy;
-
-    let det = &ax * &(&(&by * &c2) - &(&b2 * &cy)) - &ay * &(&(&bx * &c2) - &(&b2 * &cx))
-        + &a2 * &(&(&bx * &cy) - &(&by * &cx));
-
-    // Snapping near-degenerate values to zero is for inexact scalars only
-    if T::tolerance().is_zero() {
-        return det;
-    }
-
-    let scale =
-        (&ax.abs() + &ay.abs() + bx.abs() + by.abs() + cx.abs() + cy.abs()).max(T::from(1.0));
-    let eps = &scale * &scale * T::from(EPS);
-    if (&det.abs() - &eps).is_negative_or_zero() {
-        T::zero()
-    } else {
-        det
-    }
-}
-
-#[inline]
-pub fn bbox2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>)
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let mut minx = &pts[0][0];
-    let mut miny = &pts[0][1];
-    let mut maxx = &pts[0][0];
-    let mut maxy = &pts[0][1];
-    for p in &pts[1..] {
-        if (&p[0] - &minx).is_negative() {
-            minx = &p[0];
-        }
-        if (&p[1] - &miny).is_negative() {
-            miny = &p[1];
-        }
-        if (&p[0] - &maxx).is_positive() {
-            maxx = &p[0];
-        }
-        if (&p[1] - maxy).is_positive() {
-            maxy = &p[1];
-        }
-    }
-    (
-        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
-        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
-    )
-}
-
-#[inline]
-pub fn bbox_approx2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>) {
-    let mut minx = pts[0][0].ball_center_f64();
-    let mut miny = pts[0][1].ball_center_f64();
-    let mut maxx = minx;
-    let mut maxy = miny;
-
-    for p in &pts[1..] {
-        let px = p[0].ball_center_f64();
-        let py = p[1].ball_center_f64();
-
-        if px < minx {
-            minx = px;
-        }
-        if py < miny {
-            miny = py;
-        }
-        if px > maxx {
-            maxx = px;
-        }
-        if py > maxy {
-            maxy = py;
-        }
-    }
-
-    (
-        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
-        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
-    )
-}
-
-#[inline]
-pub fn bbox3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>)
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let mut minx = &pts[0][0];
-    let mut miny = &pts[0][1];
-    let mut minz = &pts[0][2];
-    let mut maxx = &pts[0][0];
-    let mut maxy = &pts[0][1];
-    let mut maxz = &pts[0][2];
-    for p in &pts[1..] {
-        if (&p[0] - &minx).is_negative() {
-            minx = &p[0];
-        }
-        if (&p[1] - &miny).is_negative() {
-            miny = &p[1];
-        }
-        if (&p[2] - &minz).is_negative() {
-            minz = &p[2];
-        }
-        if (&p[0] - &maxx).is_positive() {
-            maxx = &p[0];
-        }
-        if (&p[1] - maxy).is_positive() {
-            maxy = &p[1];
-        }
-        if (&p[2] - &maxz).is_positive() {
-            maxz = &p[2];
-        }
-    }
-    (
-        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
-        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
-    )
-}
-
-#[inline]
-pub fn bbox_approx3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>) {
-    let mut minx = pts[0][0].ball_center_f64();
-    let mut miny = pts[0][1].ball_center_f64();
-    let mut minz = pts[0][2].ball_center_f64();
-    let mut maxx = minx;
-    let mut maxy = miny;
-    let mut maxz = minz;
-
-    for p in &pts[1..] {
-        let px = p[0].ball_center_f64();
-        let py = p[1].ball_center_f64();
-        let pz = p[2].ball_center_f64();
-        if px < minx {
-            minx = px;
-        }
-        if py < miny {
-            miny = py;
-        }
-        if pz < minz {
-            minz = pz;
-        }
-        if px > maxx {
-            maxx = px;
-        }
-        if py > maxy {
-            maxy = py;
-        }
-        if pz > maxz {
-            maxz = pz;
-        }
-    }
-
-    (
-        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
-        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
-    )
-}
-
-#[inline]
-pub fn centroid2<T: Scalar>(a: &Point2<T>, b: &Point2<T>) -> Point2<T>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    Point::<T, 2>::from_vals([
-        T::from_num_den(1, 2) * (&a[0] + &b[0]),
-        T::from_num_den(1, 2) * (&a[1] + &b[1]),
-    ])
-}
+// SPDX-License-Identifier: MIT
+//
+// Copyright (c) 2025 Alexandre Severino
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in
+// all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+use crate::geometry::point::PointOps;
+use crate::geometry::segment::Segment;
+use crate::geometry::spatial_element::SpatialElement;
+use crate::geometry::util::EPS;
+use crate::geometry::vector::{Cross3, VectorOps};
+use crate::geometry::{Point2, Point3};
+use crate::geometry::{point::Point, vector::Vector};
+use crate::numeric::scalar::Scalar;
+use std::ops::{Add, Div, Mul, Sub};
+
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+pub enum TrianglePoint {
+    Off,
+    OnEdge,
+    OnVertex,
+    In,
+}
+
+pub fn are_equal<T: Scalar, const N: usize>(p1: &Point<T, N>, p2: &Point<T, N>) -> bool
+where
+    for<'a> &'a T: Sub<&'a T, Output = T> + Mul<&'a T, Output = T>,
+{
+    for i in 0..N {
+        if !(&p1.coords[i] - &p2.coords[i]).is_zero() {
+            return false;
+        }
+    }
+
+    return true;
+}
+
+pub fn are_approximately_equal<T: Scalar, const N: usize>(
+    p1: &Point<T, N>,
+    p2: &Point<T, N>,
+) -> bool
+where
+    for<'a> &'a T: Sub<&'a T, Output = T>,
+{
+    for i in 0..N {
+        let diff = &p1.coords[i] - &p2.coords[i];
+
+        // Fast path: try approximation first
+        if let Some(diff_f64) = diff.as_f64_fast() {
+            if diff_f64.abs() > T::point_merge_threshold().as_f64_fast().unwrap_or(EPS) {
+                return false;
+            }
+        } else {
+            // Fallback: use exact comparison only if approximation unavailable
+            if !diff.is_zero() {
+                return false;
+            }
+        }
+    }
+    true
+}
+
+pub fn are_collinear<T, const N: usize>(a: &Point<T, N>, b: &Point<T, N>, c: &Point<T, N>) -> bool
+where
+    T: Scalar,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    for i in 0..N {
+        let ui = &b.coords[i] - &a.coords[i];
+        let vi = &c.coords[i] - &a.coords[i];
+
+        if ui.abs().is_positive() {
+            // first non-zero component gives the candidate scale factor
+            let r = &vi / &ui;
+
+            // every remaining coordinate must satisfy vj = r * uj
+            for j in (i + 1)..N {
+                let uj = &b.coords[j] - &a.coords[j];
+                let vj = &c.coords[j] - &a.coords[j];
+                if (&vj - &(&uj * &r)).abs().is_positive() {
+                    return false; // breaks proportionality
+                }
+            }
+            return true; // all coordinates match
+        } else if vi.abs().is_positive() {
+            return false; // ui ≈ 0 but vi isn’t ⇒ not collinear
+        }
+    }
+    // all ui ≈ 0  ⇒  A and B coincide; collinear iff C coincides too
+    true
+}
+
+pub fn triangle_is_degenerate<T: Scalar, const N: usize>(
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    c: &Point<T, N>,
+) -> bool
+where
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    // Coincidence or collinearity → zero area
+    are_equal(a, b) || are_equal(a, c) || are_equal(b, c) || are_collinear(a, b, c)
+}
+
+pub fn is_point_on_segment<T, const N: usize>(p: &Point<T, N>, seg: &Segment<T, N>) -> bool
+where
+    T: Scalar,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+    T: PartialOrd, // needed for comparisons inside the loop
+{
+    // 1.  If P, A, B are not collinear, P cannot lie on AB
+    if !are_collinear(&seg.a, &seg.b, p) {
+        return false;
+    }
+
+    // 2.  For every coordinate axis, P must lie between A and B
+    for i in 0..N {
+        let ai = &seg.a.coords[i];
+        let bi = &seg.b.coords[i];
+
+        // min_i, max_i bounds
+        let (min_i, max_i) = if ai <= bi { (ai, bi) } else { (bi, ai) };
+
+        let pi = &p.coords[i];
+        if pi < min_i || pi > max_i {
+            return false; // outside on some axis ⇒ not on segment
+        }
+    }
+
+    true
+}
+
+pub fn point_u_on_segment<T: Scalar + PartialOrd, const N: usize>(
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    p: &Point<T, N>,
+) -> Option<T>
+where
+    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
+    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    // Direction and offset
+    let ab = (b - a).as_vector();
+    let ap = (p - a).as_vector();
+
+    // Degenerate segment?
+    let ab2 = ab.dot(&ab);
+    if ab2.is_zero() {
+        return if are_equal(a, p) {
+            Some(T::zero())
+        } else if are_equal(b, p) {
+            Some(T::one())
+        } else {
+            None
+        };
+    }
+
+    // Must be collinear with AB
+    if !are_collinear(a, b, p) {
+        return None;
+    }
+
+    // Parametric coordinate along AB
+    let u = ap.dot(&ab) / ab2;
+    if u < T::zero() || u > T::one() {
+        None
+    } else {
+        Some(u)
+    }
+}
+
+pub fn point_u_on_segment_with_tolerance<T: Scalar + PartialOrd, const N: usize>(
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    p: &Point<T, N>,
+    tolerance: &T,
+) -> Option<T>
+where
+    Point<T, N>: PointOps<T, N, Vector = crate::geometry::vector::Vector<T, N>>,
+    crate::geometry::vector::Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    fn are_approx<TT: Scalar, const NN: usize>(
+        p1: &Point<TT, NN>,
+        p2: &Point<TT, NN>,
+        tolerance: &TT,
+    ) -> bool
+    where
+        for<'a> &'a TT:
+            Add<&'a TT, Output = TT> + Sub<&'a TT, Output = TT> + Mul<&'a TT, Output = TT>,
+    {
+        let tolerance_sq = tolerance * tolerance;
+        let mut distance_sq = TT::zero();
+
+        for i in 0..NN {
+            let diff = &p1.coords[i] - &p2.coords[i];
+            distance_sq = &distance_sq + &(&diff * &diff);
+        }
+
+        (distance_sq - tolerance_sq).is_negative_or_zero()
+    }
+
+    // Direction and offset
+    let ab = (b - a).as_vector();
+    let ap = (p - a).as_vector();
+
+    // Degenerate segment?
+    let ab2 = ab.dot(&ab);
+    if ab2.is_zero() {
+        return if are_approx(a, p, tolerance) {
+            Some(T::zero())
+        } else if are_approx(b, p, tolerance) {
+            Some(T::one())
+        } else {
+            None
+        };
+    }
+
+    // Parametric coordinate along AB
+    let u = ap.dot(&ab) / ab2;
+
+    // Clamp u to [0, 1] range for distance calculation
+    let u_clamped = if u < T::zero() {
+        T::zero()
+    } else if u > T::one() {
+        T::one()
+    } else {
+        u.clone()
+    };
+
+    // Calculate closest point on segment
+    let closest_point_vector = ab.scale(&u_clamped);
+    let closest_point = a + &closest_point_vector.0;
+
+    // Calculate distance from p to closest point on segment
+    let distance_vector = (p - &closest_point).as_vector();
+    let distance_sq = distance_vector.dot(&distance_vector);
+    let tolerance_sq = tolerance * tolerance;
+
+    // Check if point is within tolerance of the segment
+    if distance_sq <= tolerance_sq {
+        // Return the original u parameter (not clamped) if within tolerance
+        Some(u)
+    } else {
+        None
+    }
+}
+
+pub fn point_in_or_on_triangle_old<T: Scalar, const N: usize>(
+    p: &Point<T, N>,
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    c: &Point<T, N>,
+) -> TrianglePoint
+where
+    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
+    Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    // Barycentric setup
+    let v0 = (c - a).as_vector();
+    let v1 = (b - a).as_vector();
+    let v2 = (p - a).as_vector();
+
+    let dot00 = v0.dot(&v0);
+    let dot01 = v0.dot(&v1);
+    let dot02 = v0.dot(&v2);
+    let dot11 = v1.dot(&v1);
+    let dot12 = v1.dot(&v2);
+
+    let denom = &dot00 * &dot11 - &dot01 * &dot01;
+
+    // Degenerate triangle (zero/near-zero area)
+    if denom.abs() < T::tolerance() {
+        return TrianglePoint::Off;
+    }
+
+    let inv = T::one() / denom;
+    let u = &(&dot11 * &dot02 - &dot01 * &dot12) * &inv;
+    let v = &(&dot00 * &dot12 - &dot01 * &dot02) * &inv;
+    let sum_uv = &u + &v;
+    let w = &T::one() - &sum_uv;
+
+    // Classification with tolerance
+    let e = T::tolerance();
+    let neg_e = e.clone().neg();
+
+    // Outside if any barycentric is below -eps or u+v exceeds 1+eps
+    if u < neg_e || v < neg_e || sum_uv > &T::one() + &e {
+        return TrianglePoint::Off;
+    }
+
+    // On if any barycentric is within eps of the boundary
+    // Check if on vertex (distance to vertex is zero)
+    if are_equal(p, a) || are_equal(p, b) || are_equal(p, c) {
+        return TrianglePoint::OnVertex;
+    }
+
+    // Check if on edge (one barycentric coordinate is zero)
+    if u.is_zero() || v.is_zero() || w.is_zero() {
+        return TrianglePoint::OnEdge;
+    }
+
+    TrianglePoint::In
+}
+
+#[inline(always)]
+pub fn point_in_or_on_triangle<T: Scalar + PartialOrd, const N: usize>(
+    p: &Point<T, N>,
+    a: &Point<T, N>,
+    b: &Point<T, N>,
+    c: &Point<T, N>,
+) -> TrianglePoint
+where
+    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
+    Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    #[inline(always)]
+    fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
+        let zero = TS::zero();
+
+        // exact zero flags
+        let z0 = e0.is_zero();
+        let z1 = e1.is_zero();
+        let z2 = e2.is_zero();
+        let zc = (z0 as u8) + (z1 as u8) + (z2 as u8);
+
+        // mixed signs => strictly outside
+        let has_neg = (!z0 && *e0 < zero) || (!z1 && *e1 < zero) || (!z2 && *e2 < zero);
+        let has_pos = (!z0 && *e0 > zero) || (!z1 && *e1 > zero) || (!z2 && *e2 > zero);
+        if has_neg && has_pos {
+            return TrianglePoint::Off;
+        }
+
+        // boundary cases
+        if zc >= 2 {
+            return TrianglePoint::OnVertex; // exactly at a vertex
+        }
+        if zc == 1 {
+            return TrianglePoint::OnEdge; // exactly on a unique edge
+        }
+
+        // inside (all nonzero and same sign)
+        TrianglePoint::In
+    }
+
+    if N == 2 {
+        // degenerate?
+        let abx = &b[0] - &a[0];
+        let aby = &b[1] - &a[1];
+        let acx = &c[0] - &a[0];
+        let acy = &c[1] - &a[1];
+        let area2 = &(&abx * &acy) - &(&aby * &acx);
+        if area2.is_zero() {
+            return TrianglePoint::Off;
+        }
+
+        // edge functions
+        let bcx = &c[0] - &b[0];
+        let bcy = &c[1] - &b[1];
+        let cax = &a[0] - &c[0];
+        let cay = &a[1] - &c[1];
+
+        let apx = &p[0] - &a[0];
+        let apy = &p[1] - &a[1];
+        let bpx = &p[0] - &b[0];
+        let bpy = &p[1] - &b[1];
+        let cpx = &p[0] - &c[0];
+        let cpy = &p[1] - &c[1];
+
+        let e0 = &(&abx * &apy) - &(&aby * &apx);
+        let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
+        let e2 = &(&cax * &cpy) - &(&cay * &cpx);
+
+        return classify_from_edges(&e0, &e1, &e2);
+    } else if N == 3 {
+        // normal and degeneracy
+        let ab = (b - a).as_vector_3();
+        let ac = (c - a).as_vector_3();
+        let n = ab.cross(&ac);
+        if n[0].is_zero() && n[1].is_zero() && n[2].is_zero() {
+            return TrianglePoint::Off;
+        }
+
+        // edge functions projected on n
+        let ap = (p - a).as_vector_3();
+        let bp = (p - b).as_vector_3();
+        let cp = (p - c).as_vector_3();
+        let bc = (c - b).as_vector_3();
+        let ca = (a - c).as_vector_3();
+
+        let e0 = ab.cross(&ap).dot(&n);
+        let e1 = bc.cross(&bp).dot(&n);
+        let e2 = ca.cross(&cp).dot(&n);
+
+        return classify_from_edges(&e0, &e1, &e2);
+    } else {
+        panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
+    }
+}
+
+#[inline]
+pub fn orient2d<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>) -> T
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    let det = (&b[0] - &a[0]) * (&c[1] - &a[1]) - (&b[1] - &a[1]) * (&c[0] - &a[0]);
+
+    // Snapping near-degenerate values to zero is for inexact scalars only
+    if T::tolerance().is_zero() {
+        return det;
+    }
+
+    let scale_approx = if let (Some(a0), Some(a1), Some(b0), Some(b1), Some(c0), Some(c1)) = (
+        a[0].as_f64_fast(),
+        a[1].as_f64_fast(),
+        b[0].as_f64_fast(),
+        b[1].as_f64_fast(),
+        c[0].as_f64_fast(),
+        c[1].as_f64_fast(),
+    ) {
+        (a0.abs() + a1.abs() + b0.abs() + b1.abs() + c0.abs() + c1.abs()) * EPS
+    } else {
+        EPS // Conservative fallback without exact computation
+    };
+
+    if let Some(det_approx) = det.as_f64_fast() {
+        if det_approx.abs() <= scale_approx {
+            T::zero()
+        } else {
+            det
+        }
+    } else {
+        det // Can't determine with approximation, return raw determinant
+    }
+}
+
+#[inline]
+pub fn incircle<T: Scalar>(a: &Point2<T>, b: &Point2<T>, c: &Point2<T>, d: &Point2<T>) -> T
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    // Compute with standard determinant expansion; apply light scaling guard.
+    // (Assumes abc CCW. If not, caller should flip sign or reorder.)
+    let ax = &a[0] - &d[0];
+    let ay = &a[1] - &d[1];
+    let a2 = &ax * &ax + &ay * &ay;
+    let bx = &b[0] - &d[0];
+    let by = &b[1] - &d[1];
+    let b2 = &bx * &bx + &by * &by;
+    let cx = &c[0] - &d[0];
+    let cy = &c[1] - &d[1];
+    let c2 = &cx * &cx + &cy * &cy;
+
+    let det = &ax * &(&(&by * &c2) - &(&b2 * &cy)) - &ay * &(&(&bx * &c2) - &(&b2 * &cx))
+        + &a2 * &(&(&bx * &cy) - &(&by * &cx));
+
+    // Snapping near-degenerate values to zero is for inexact scalars only
+    if T::tolerance().is_zero() {
+        return det;
+    }
+
+    let scale =
+        (&ax.abs() + &ay.abs() + bx.abs() + by.abs() + cx.abs() + cy.abs()).max(T::from(1.0));
+    let eps = &scale * &scale * T::from(EPS);
+    if (&det.abs() - &eps).is_negative_or_zero() {
+        T::zero()
+    } else {
+        det
+    }
+}
+
+#[inline]
+pub fn bbox2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>)
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    let mut minx = &pts[0][0];
+    let mut miny = &pts[0][1];
+    let mut maxx = &pts[0][0];
+    let mut maxy = &pts[0][1];
+    for p in &pts[1..] {
+        if (&p[0] - &minx).is_negative() {
+            minx = &p[0];
+        }
+        if (&p[1] - &miny).is_negative() {
+            miny = &p[1];
+        }
+        if (&p[0] - &maxx).is_positive() {
+            maxx = &p[0];
+        }
+        if (&p[1] - maxy).is_positive() {
+            maxy = &p[1];
+        }
+    }
+    (
+        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
+        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
+    )
+}
+
+#[inline]
+pub fn bbox_approx2d<T: Scalar>(pts: &[Point2<T>]) -> (Point2<T>, Point2<T>) {
+    let mut minx = pts[0][0].ball_center_f64();
+    let mut miny = pts[0][1].ball_center_f64();
+    let mut maxx = minx;
+    let mut maxy = miny;
+
+    for p in &pts[1..] {
+        let px = p[0].ball_center_f64();
+        let py = p[1].ball_center_f64();
+
+        if px < minx {
+            minx = px;
+        }
+        if py < miny {
+            miny = py;
+        }
+        if px > maxx {
+            maxx = px;
+        }
+        if py > maxy {
+            maxy = py;
+        }
+    }
+
+    (
+        Point2::<T>::from_vals([minx.clone(), miny.clone()]),
+        Point2::<T>::from_vals([maxx.clone(), maxy.clone()]),
+    )
+}
+
+#[inline]
+pub fn bbox3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>)
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    let mut minx = &pts[0][0];
+    let mut miny = &pts[0][1];
+    let mut minz = &pts[0][2];
+    let mut maxx = &pts[0][0];
+    let mut maxy = &pts[0][1];
+    let mut maxz = &pts[0][2];
+    for p in &pts[1..] {
+        if (&p[0] - &minx).is_negative() {
+            minx = &p[0];
+        }
+        if (&p[1] - &miny).is_negative() {
+            miny = &p[1];
+        }
+        if (&p[2] - &minz).is_negative() {
+            minz = &p[2];
+        }
+        if (&p[0] - &maxx).is_positive() {
+            maxx = &p[0];
+        }
+        if (&p[1] - maxy).is_positive() {
+            maxy = &p[1];
+        }
+        if (&p[2] - &maxz).is_positive() {
+            maxz = &p[2];
+        }
+    }
+    (
+        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
+        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
+    )
+}
+
+#[inline]
+pub fn bbox_approx3d<T: Scalar>(pts: &[Point3<T>]) -> (Point3<T>, Point3<T>) {
+    let mut minx = pts[0][0].ball_center_f64();
+    let mut miny = pts[0][1].ball_center_f64();
+    let mut minz = pts[0][2].ball_center_f64();
+    let mut maxx = minx;
+    let mut maxy = miny;
+    let mut maxz = minz;
+
+    for p in &pts[1..] {
+        let px = p[0].ball_center_f64();
+        let py = p[1].ball_center_f64();
+        let pz = p[2].ball_center_f64();
+        if px < minx {
+            minx = px;
+        }
+        if py < miny {
+            miny = py;
+        }
+        if pz < minz {
+            minz = pz;
+        }
+        if px > maxx {
+            maxx = px;
+        }
+        if py > maxy {
+            maxy = py;
+        }
+        if pz > maxz {
+            maxz = pz;
+        }
+    }
+
+    (
+        Point3::<T>::from_vals([minx.clone(), miny.clone(), minz.clone()]),
+        Point3::<T>::from_vals([maxx.clone(), maxy.clone(), maxz.clone()]),
+    )
+}
+
+#[inline]
+pub fn centroid2<T: Scalar>(a: &Point2<T>, b: &Point2<T>) -> Point2<T>
+where
+    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
+        + std::ops::Mul<&'a T, Output = T>
+        + std::ops::Add<&'a T, Output = T>
+        + std::ops::Div<&'a T, Output = T>
+        + std::ops::Neg<Output = T>,
+{
+    Point::<T, 2>::from_vals([
+        T::from_num_den(1, 2) * (&a[0] + &b[0]),
+        T::from_num_den(1, 2) * (&a[1] + &b[1]),
+    ])
+}
-- 
2.43.0

