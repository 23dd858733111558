From 8543e2cdb1989b754c935500a8f5a7871539fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 01/34] hooks: expose internals to the verification harness
 behind cfg(rerecast_verif)

---
 crates/rerecast/src/contours.rs               | 22 +++++++
 crates/rerecast/src/heightfield.rs            | 23 ++++++++
 crates/rerecast/src/lib.rs                    | 12 ++++
 crates/rerecast/src/math.rs                   | 21 +++++++
 crates/rerecast/src/poly_mesh.rs              | 56 ++++++++++++++++++
 crates/rerecast/src/rasterize.rs              | 28 +++++++++
 .../rerecast/src/watershed_build_regions.rs   | 57 +++++++++++++++++++
 7 files changed, 219 insertions(+)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd24f47..a6db652 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -661,3 +661,25 @@ impl Default for BuildContoursFlags {
         Self::DEFAULT
     }
 }
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn simplify(
+        points: &[(U16Vec3, RegionVertexId)],
+        max_error: f32,
+        max_edge_len: u16,
+        flags: BuildContoursFlags,
+    ) -> Vec<(U16Vec3, u32)> {
+        let mut simplified = Vec::new();
+        simplify_contour(points, &mut simplified, max_error, max_edge_len, flags);
+        simplified
+    }
+    pub fn remove_degenerate(simplified: &mut Vec<(U16Vec3, u32)>) {
+        remove_degenerate_segments(simplified)
+    }
+}
diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..245c492 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -530,3 +530,26 @@ mod tests {
         assert_eq!(span.area, expected_span.area, "area is not equal");
     }
 }
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn add_span(
+        heightfield: &mut Heightfield,
+        x: u16,
+        z: u16,
+        flag_merge_threshold: u16,
+        span: Span,
+    ) -> Result<(), SpanInsertionError> {
+        heightfield.add_span(SpanInsertion {
+            x,
+            z,
+            flag_merge_threshold,
+            span,
+        })
+    }
+}
diff --git a/crates/rerecast/src/lib.rs b/crates/rerecast/src/lib.rs
index 48bcbd4..e7ecfc4 100644
--- a/crates/rerecast/src/lib.rs
+++ b/crates/rerecast/src/lib.rs
@@ -32,3 +32,15 @@ pub use poly_mesh::PolygonNavmesh;
 pub use region::RegionId;
 pub use span::{AreaType, Span, SpanKey, Spans};
 pub use trimesh::TriMesh;
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::contours::verif_hooks as contours;
+    pub use crate::heightfield::verif_hooks as heightfield;
+    pub use crate::math::verif_hooks as math;
+    pub use crate::poly_mesh::verif_hooks as poly_mesh;
+    pub use crate::rasterize::verif_hooks as rasterize;
+    pub use crate::watershed_build_regions::verif_hooks as regions;
+}
diff --git a/crates/rerecast/src/math.rs b/crates/rerecast/src/math.rs
index 4084b90..3f498ba 100644
--- a/crates/rerecast/src/math.rs
+++ b/crates/rerecast/src/math.rs
@@ -236,3 +236,24 @@ mod tests {
         assert_eq!(next(3, 4), 0);
     }
 }
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn dir_offsets(direction: u8) -> (i8, i8) {
+        (dir_offset_x(direction), dir_offset_z(direction))
+    }
+    pub fn dir_of(offset_x: i32, offset_z: i32) -> i8 {
+        dir_offset(offset_x, offset_z)
+    }
+    pub fn prev_index(i: usize, n: usize) -> usize {
+        prev(i, n)
+    }
+    pub fn next_index(i: usize, n: usize) -> usize {
+        next(i, n)
+    }
+}
diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..9242158 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1342,3 +1342,59 @@ pub enum PolygonNavmeshError {
     )]
     InvalidContour,
 }
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn triangulate_contour(
+        n: usize,
+        verts: &[(U16Vec3, u32)],
+        indices: &mut [usize],
+        tris: &mut [U16Vec3],
+    ) -> Option<usize> {
+        triangulate(n, verts, indices, tris).ok()
+    }
+    /// (area2, left, left_on, collinear) of a, b, c
+    pub fn orient(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> (i32, bool, bool, bool) {
+        (area2(a, b, c), left(a, b, c), left_on(a, b, c), collinear(a, b, c))
+    }
+    pub fn segment_between(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
+        between(a, b, c)
+    }
+    pub fn segments_intersect(a: U16Vec3, b: U16Vec3, c: U16Vec3, d: U16Vec3) -> (bool, bool) {
+        (intersect(a, b, c, d), intersect_prop(a, b, c, d))
+    }
+    pub fn merge_value(
+        pa: &[u16],
+        pb: &[u16],
+        verts: &[U16Vec3],
+        nvp: usize,
+    ) -> Option<(u32, usize, usize)> {
+        get_poly_merge_value(pa, pb, verts, nvp).map(|v| (v.length_squared, v.edge_a, v.edge_b))
+    }
+    pub fn merge_polys(
+        polys: &mut [u16],
+        pa: usize,
+        pb: usize,
+        ea: usize,
+        eb: usize,
+        tmp: usize,
+        nvp: usize,
+    ) {
+        merge_poly_verts(polys, pa, pb, ea, eb, tmp, nvp)
+    }
+    pub const BUCKETS: usize = VERTEX_BUCKET_COUNT;
+    pub fn add_mesh_vertex(
+        vertex: U16Vec3,
+        verts: &mut [U16Vec3],
+        first_vert: &mut [Option<u16>],
+        next_vert: &mut [Option<u16>],
+        nverts: &mut u16,
+    ) -> u16 {
+        add_vertex(vertex, verts, first_vert, next_vert, nverts)
+    }
+}
diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..d6786ff 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -289,3 +289,31 @@ impl Display for DivisionAxis {
         write!(f, "{self:?}")
     }
 }
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// Splits a polygon at `offset` along x (axis 0) or z (axis 2).
+    pub fn split(verts: &[Vec3A], offset: f32, axis: usize) -> Option<(Vec<Vec3A>, Vec<Vec3A>)> {
+        let mut a = vec![Vec3A::ZERO; 12];
+        let mut b = vec![Vec3A::ZERO; 12];
+        let (mut na, mut nb) = (0, 0);
+        let axis = if axis == 0 {
+            DivisionAxis::X
+        } else {
+            DivisionAxis::Z
+        };
+        let count = verts.len() as u8;
+        divide_poly(
+            verts, count, &mut a, &mut na, &mut b, &mut nb, offset, axis,
+        )
+        .ok()?;
+        a.truncate(na as usize);
+        b.truncate(nb as usize);
+        Some((a, b))
+    }
+}
diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 3bedbe0..8ed496e 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -989,3 +989,60 @@ pub enum BuildRegionsError {
     #[error("Region ID overflow")]
     RegionIdOverflow,
 }
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// The record kept per region while regions are merged.
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct Record {
+        pub id: u16,
+        pub area: u8,
+        pub span_count: usize,
+        pub connections: Vec<u16>,
+        pub floors: Vec<u16>,
+    }
+    fn region(r: &Record) -> Region {
+        let mut out = Region::new(RegionId::from(r.id));
+        out.area = AreaType(r.area);
+        out.span_count = r.span_count;
+        out.connections = r.connections.iter().map(|c| RegionId::from(*c)).collect();
+        out.floors = r.floors.iter().map(|c| RegionId::from(*c)).collect();
+        out
+    }
+    fn record(r: &Region) -> Record {
+        Record {
+            id: r.id.bits(),
+            area: r.area.0,
+            span_count: r.span_count,
+            connections: r.connections.iter().map(|c| c.bits()).collect(),
+            floors: r.floors.iter().map(|c| c.bits()).collect(),
+        }
+    }
+    pub fn can_merge(a: &Record, b: &Record) -> bool {
+        region(a).can_merge_with(&region(b))
+    }
+    pub fn merge(a: &mut Record, b: &Record) -> bool {
+        let mut ra = region(a);
+        let ok = ra.merge_regions(&region(b));
+        *a = record(&ra);
+        ok
+    }
+    pub fn replace(a: &mut Record, old_id: u16, new_id: u16) {
+        let mut ra = region(a);
+        ra.replace_neighbour(RegionId::from(old_id), RegionId::from(new_id));
+        *a = record(&ra);
+    }
+    pub fn add_floor(a: &mut Record, floor: u16) {
+        let mut ra = region(a);
+        ra.add_unique_floor_region(RegionId::from(floor));
+        *a = record(&ra);
+    }
+    pub fn touches_border(a: &Record) -> bool {
+        region(a).is_region_connected_to_border()
+    }
+}
-- 
2.43.0


From 7e889622d98d8a9c42805e90a1f307904b930718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 02/34] fix: reject columns with more than 255 open spans

The span count of a compact cell is a u8: the 256th walkable span of a
column overflowed it (a panic in debug builds, a wrapped count and lost
spans in release builds). Report TooManyLayers instead.
---
 crates/rerecast/src/compact_heightfield.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..1e3b3a8 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -125,6 +125,8 @@ impl Heightfield {
         walkable_height: u16,
         walkable_climb: u16,
     ) -> Result<CompactHeightfield, CompactHeightfieldError> {
+        const MAX_LAYERS: u8 = CompactSpan::NOT_CONNECTED - 1;
+
         let walkable_span_count = self
             .allocated_spans
             .values()
@@ -170,6 +172,13 @@ impl Heightfield {
                     if !span.area.is_walkable() {
                         continue;
                     }
+                    if cell.count() == u8::MAX {
+                        // The column has more layers than a cell can count.
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: MAX_LAYERS,
+                            layer_index: u8::MAX as u32,
+                        });
+                    }
                     let bot = span.max;
                     let top = span
                         .next
@@ -186,7 +195,6 @@ impl Heightfield {
         }
 
         // Find neighbour connections
-        const MAX_LAYERS: u8 = CompactSpan::NOT_CONNECTED - 1;
         let mut max_layer_index = 0_u32;
         for z in 0..self.height {
             for x in 0..self.width {
-- 
2.43.0


From db0280717c3e02701e2d09da0c1caa18d953deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 03/34] fix: link to the neighbour layer with index 62

MAX_LAYERS is the largest storable layer index and the error check allows
it, but the link itself was skipped for layer_index == MAX_LAYERS, silently
leaving the spans unconnected.
---
 crates/rerecast/src/compact_heightfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 1e3b3a8..1dab337 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -236,7 +236,7 @@ impl Heightfield {
                             }
                             // Mark direction as walkable.
                             let layer_index = k as i32 - neighbor_cell.index() as i32;
-                            if layer_index < 0 || layer_index >= MAX_LAYERS as i32 {
+                            if layer_index < 0 || layer_index > MAX_LAYERS as i32 {
                                 max_layer_index = max_layer_index.max(layer_index as u32);
                                 continue;
                             }
-- 
2.43.0


From 771a47e17503dd8486820956503fc0c1fe8d3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 04/34] fix: reject heightfields wider than u16 cells instead
 of saturating their size

---
 crates/rerecast/src/heightfield.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 245c492..381fb82 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -261,7 +261,10 @@ impl HeightfieldBuilder {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
         let column_count = width as u128 * height as u128;
-        if column_count > usize::MAX as u128 {
+        if column_count > usize::MAX as u128
+            || width as u128 > u16::MAX as u128
+            || height as u128 > u16::MAX as u128
+        {
             return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
         }
         let column_count = column_count as usize;
-- 
2.43.0


From f6ad2d354b54f5c45edcbacb2c64c4f243f14555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 05/34] hooks: build configuration constructor for the
 verification harness

---
 crates/rerecast/src/config.rs | 37 +++++++++++++++++++++++++++++++++++
 crates/rerecast/src/lib.rs    |  1 +
 2 files changed, 38 insertions(+)

diff --git a/crates/rerecast/src/config.rs b/crates/rerecast/src/config.rs
index cf600f2..8a60069 100644
--- a/crates/rerecast/src/config.rs
+++ b/crates/rerecast/src/config.rs
@@ -315,3 +315,40 @@ impl NavmeshConfigBuilder {
         }
     }
 }
+
+/// Access for the verification harness; not part of the public API.
+#[cfg(rerecast_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// `f`: the float fields in declaration order.
+    pub fn builder(
+        f: [f32; 13],
+        tile_size: u16,
+        aabb: Aabb3d,
+        contour_flags: BuildContoursFlags,
+        tiling: bool,
+    ) -> NavmeshConfigBuilder {
+        NavmeshConfigBuilder {
+            cell_size: f[0],
+            cell_height: f[1],
+            agent_height: f[2],
+            agent_radius: f[3],
+            agent_max_climb: f[4],
+            agent_max_slope: f[5],
+            region_min_size: f[6],
+            region_merge_size: f[7],
+            edge_max_len: f[8],
+            edge_max_error: f[9],
+            verts_per_poly: f[10],
+            detail_sample_dist: f[11],
+            detail_sample_max_error: f[12],
+            tile_size,
+            aabb,
+            contour_flags,
+            tiling,
+        }
+    }
+}
diff --git a/crates/rerecast/src/lib.rs b/crates/rerecast/src/lib.rs
index e7ecfc4..262e5b6 100644
--- a/crates/rerecast/src/lib.rs
+++ b/crates/rerecast/src/lib.rs
@@ -37,6 +37,7 @@ pub use trimesh::TriMesh;
 #[cfg(rerecast_verif)]
 #[doc(hidden)]
 pub mod verif {
+    pub use crate::config::verif_hooks as config;
     pub use crate::contours::verif_hooks as contours;
     pub use crate::heightfield::verif_hooks as heightfield;
     pub use crate::math::verif_hooks as math;
-- 
2.43.0


From f19e5e087d42f2135f2bb6d85d12a61618e2b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 06/34] fix: do not overflow when multiplying an extreme
 heightfield size

---
 crates/rerecast/src/heightfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 381fb82..d3c496c 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -260,7 +260,7 @@ impl HeightfieldBuilder {
     pub fn build(self) -> Result<Heightfield, HeightfieldBuilderError> {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
-        let column_count = width as u128 * height as u128;
+        let column_count = (width as u128).saturating_mul(height as u128);
         if column_count > usize::MAX as u128
             || width as u128 > u16::MAX as u128
             || height as u128 > u16::MAX as u128
-- 
2.43.0


From 457b7b942162da4a6fb321ee3a29a223dc714e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 07/34] fix: a degenerate segment does not contain other points
 with its z coordinate

---
 crates/rerecast/src/poly_mesh.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9242158..b4da434 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -1268,7 +1268,8 @@ fn between(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
     if a.x != b.x {
         (a.x <= c.x && c.x <= b.x) || (a.x >= c.x && c.x >= b.x)
     } else {
-        (a.z <= c.z && c.z <= b.z) || (a.z >= c.z && c.z >= b.z)
+        // Compare x as well: a and b may be the same point.
+        a.x == c.x && ((a.z <= c.z && c.z <= b.z) || (a.z >= c.z && c.z >= b.z))
     }
 }
 
-- 
2.43.0


From 63a588e74f9ea612282ffd88bfc9e6c2cdfb1653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 08/34] fix: move each child mesh of a compound collider by its
 own transform only

---
 crates/avian_rerecast/src/collider_to_trimesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/avian_rerecast/src/collider_to_trimesh.rs b/crates/avian_rerecast/src/collider_to_trimesh.rs
index d8c84e2..6c6e662 100644
--- a/crates/avian_rerecast/src/collider_to_trimesh.rs
+++ b/crates/avian_rerecast/src/collider_to_trimesh.rs
@@ -93,7 +93,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
     compound.shapes().iter().fold(
         TriMesh::default(),
         |mut compound_trimesh, (isometry, shape)| {
-            let Some(trimesh) =
+            let Some(mut trimesh) =
                 // No need to track recursive compounds because parry panics on nested compounds anyways lol
                 shape_to_trimesh(&shape.as_typed_shape(), subdivisions)
             else {
@@ -105,7 +105,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
                 rotation: Quat::from(isometry.rotation),
             };
 
-            apply_isometry(&mut compound_trimesh, isometry);
+            apply_isometry(&mut trimesh, isometry);
             compound_trimesh.extend(trimesh);
             compound_trimesh
         },
-- 
2.43.0


From 2ca869869467df0cc5b55358435ea7b194b10752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 09/34] fix: measure erosion distances in 16 bits so that large
 radii do not wrap

---
 crates/rerecast/src/erosion.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..b96cfe0 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -6,7 +6,7 @@ use crate::{
 impl CompactHeightfield {
     /// Erode the walkable area by agent radius.
     pub fn erode_walkable_area(&mut self, erosion_radius: u16) {
-        let mut distance_to_boundary = vec![u8::MAX; self.spans.len()];
+        let mut distance_to_boundary = vec![u16::MAX; self.spans.len()];
 
         // Mark boundary cells.
         for z in 0..self.height {
@@ -49,7 +49,7 @@ impl CompactHeightfield {
             }
         }
 
-        let mut new_distance: u8;
+        let mut new_distance: u16;
 
         // Pass 1
         for z in 0..self.height {
@@ -163,8 +163,7 @@ impl CompactHeightfield {
             }
         }
 
-        // Jan: This just wraps on overflow. Is that intentional???
-        let min_boundary_distance = (erosion_radius * 2) as u8;
+        let min_boundary_distance = erosion_radius.saturating_mul(2);
         #[expect(
             clippy::needless_range_loop,
             reason = "lol the alternative suggestion is really unreadable"
-- 
2.43.0


From 2a76d63970d3a57b02c7485396cdfd93464318cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 10/34] fix: build the distance field of a heightfield without
 open spans

---
 crates/rerecast/src/watershed_distance_field.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index 1bbf117..c356d1c 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -17,8 +17,7 @@ impl CompactHeightfield {
     /// Prepare for region partitioning, by calculating distance field along the walkable surface.
     pub fn build_distance_field(&mut self) {
         let distance_field = self.calculate_distance_field();
-        // Safety: Unwrap is fine as long as `spans` is not empty, as `distance_field` has the same length
-        self.max_distance = *distance_field.iter().max().unwrap();
+        self.max_distance = distance_field.iter().copied().max().unwrap_or(0);
         let distance_field = self.box_blur(1, &distance_field);
         self.dist = distance_field;
     }
-- 
2.43.0


From 4f828b8293c1a09d738c1c00425ca13ee3191be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 11/34] fix: a convex volume just below the heightfield must
 not mark its lowest cells

Casting the vertical cell coordinate to an integer rounds towards zero, so a
volume ending less than one cell below the field's bottom was taken to reach
cell 0. Round down instead.
---
 crates/rerecast/src/mark_convex_poly_area.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/mark_convex_poly_area.rs b/crates/rerecast/src/mark_convex_poly_area.rs
index b53d925..0018d4f 100644
--- a/crates/rerecast/src/mark_convex_poly_area.rs
+++ b/crates/rerecast/src/mark_convex_poly_area.rs
@@ -21,8 +21,8 @@ impl CompactHeightfield {
         max.x /= self.cell_size;
         max.y /= self.cell_height;
         max.z /= self.cell_size;
-        let mut min = IVec3::new(min.x as i32, min.y as i32, min.z as i32);
-        let mut max = IVec3::new(max.x as i32, max.y as i32, max.z as i32);
+        let mut min = IVec3::new(min.x as i32, min.y.floor() as i32, min.z as i32);
+        let mut max = IVec3::new(max.x as i32, max.y.floor() as i32, max.z as i32);
 
         // Early-out if the polygon lies entirely outside the grid.
         if max.x < 0 || min.x >= self.width as i32 || max.z < 0 || min.z >= self.height as i32 {
-- 
2.43.0


From ffc1fe1921f3cf89e79866ce763e1a3d3eb194b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 12/34] fix: distance of a region expanded along more than
 32767 spans overflowed

---
 crates/rerecast/src/watershed_build_regions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 8ed496e..93b33e4 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -757,7 +757,7 @@ impl CompactHeightfield {
                         continue;
                     }
                     let a_region = src_reg[a_index];
-                    let a_dist = src_dist[a_index] + 2;
+                    let a_dist = src_dist[a_index].saturating_add(2);
                     if a_region != RegionId::NONE
                         && !a_region.intersects(RegionId::BORDER_REGION)
                         && a_dist < d2
-- 
2.43.0


From f9ae5a124f57777e46a2c9527714a0ee0117cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 13/34] fix: region ids reached the border flag instead of
 being reported as an overflow

---
 crates/rerecast/src/watershed_build_regions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 93b33e4..6c011ca 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -129,7 +129,8 @@ impl CompactHeightfield {
                         &mut stack,
                     )
                 {
-                    if region_id == RegionId::MAX {
+                    // IDs from here on would be taken for border regions.
+                    if (region_id + 1).intersects(RegionId::BORDER_REGION) {
                         return Err(BuildRegionsError::RegionIdOverflow);
                     }
                     region_id += 1;
-- 
2.43.0


From 1bc9e81c6607195a909bc0b40bdcf46d31adb2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 14/34] fix: keep one region per polygon in the polygon mesh

---
 crates/rerecast/src/poly_mesh.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index b4da434..89dd2d5 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -177,6 +177,7 @@ impl From<InternalPolygonNavmesh> for PolygonNavmesh {
         }
         value.vertices.truncate(value.nvertices as usize);
         value.areas.truncate(value.npolys);
+        value.regions.truncate(value.npolys);
         PolygonNavmesh {
             vertices: value.vertices,
             polygons,
-- 
2.43.0


From 6f00bf7b25eb500470531b46532003c36a4db880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 15/34] fix: pair every corner with its predecessor when
 removing a vertex

---
 crates/rerecast/src/poly_mesh.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 89dd2d5..052cd80 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -560,7 +560,8 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for j in 0..nv {
+                    let k = prev(j, nv);
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -823,7 +824,8 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for j in 0..nv {
+                let k = prev(j, nv);
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
-- 
2.43.0


From 2c5d65c41fc71dd6b64d217eca3734b0339822a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 16/34] fix: count only collected edges as open when removing a
 vertex

---
 crates/rerecast/src/poly_mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 052cd80..38f3290 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -857,7 +857,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges.iter().take(nedges).filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From 0c99ac2091bd428eb052e443d0381ffa460de457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 17/34] fix: remove the matched edge while assembling a hole
 and go on after others

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 38f3290..9dca1b8 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -635,20 +635,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
-- 
2.43.0


From b71c41fc464954603ad8403eade24372022e7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 18/34] fix: do not step below the first vertex when it is
 removed

---
 crates/rerecast/src/poly_mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9dca1b8..5cdca20 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -378,7 +378,7 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+                continue;
             }
 
             i += 1;
-- 
2.43.0


From 762dbc765d8ac92c6500f3fc5a05d149301c7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 19/34] fix: keep room for the polygons that fill a removed
 vertex's hole

---
 crates/rerecast/src/poly_mesh.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 5cdca20..c5c3b16 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -364,7 +364,6 @@ impl ContourSet {
             }
         }
 
-        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
-- 
2.43.0


From 5e59864e1ff86f838354b7da80fa0e937b57898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 20/34] fix: index mesh edges beyond 65535 when linking
 polygons

---
 crates/rerecast/src/poly_mesh.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index c5c3b16..acb84ca 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -440,8 +440,9 @@ impl InternalPolygonNavmesh {
         // Based on code by Eric Lengyel from:
         // https://web.archive.org/web/20080704083314/http://www.terathon.com/code/edges.php
         let max_edge_count = self.npolys * nvp;
-        let mut first_edge =
-            vec![PolygonNavmesh::NO_CONNECTION; self.nvertices as usize + max_edge_count];
+        // A mesh can have more edges than a `u16` can index.
+        const NO_EDGE: u32 = u32::MAX;
+        let mut first_edge = vec![NO_EDGE; self.nvertices as usize + max_edge_count];
         let next_edge_index = self.nvertices as usize;
         let mut edge_count = 0;
         let mut edges = vec![Edge::default(); max_edge_count];
@@ -467,7 +468,7 @@ impl InternalPolygonNavmesh {
                     edge.poly_edge.y = 0;
                     // Insert edge
                     first_edge[next_edge_index + edge_count] = first_edge[v0 as usize];
-                    first_edge[v0 as usize] = edge_count as u16;
+                    first_edge[v0 as usize] = edge_count as u32;
                     edge_count += 1;
                 }
             }
@@ -487,7 +488,7 @@ impl InternalPolygonNavmesh {
                 };
                 if v0 > v1 {
                     let mut e = first_edge[v1 as usize];
-                    while e != PolygonNavmesh::NO_CONNECTION {
+                    while e != NO_EDGE {
                         let edge = &mut edges[e as usize];
                         if edge.vert.y == v0 && edge.poly.x == edge.poly.y {
                             edge.poly.y = i as u16;
-- 
2.43.0


From 03c20a25f05f0a94c531f14e0423970b94ba334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 21/34] fix: compare edge lengths with limits of 256 and more
 without overflow

---
 crates/rerecast/src/contours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index a6db652..34b7e3f 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -445,7 +445,7 @@ fn simplify_contour(
             let should_tesselate = is_wall_edge || is_edge_between_areas;
             if should_tesselate {
                 let d = b.xz().as_ivec2() - a.xz().as_ivec2();
-                if d.length_squared() > (max_edge_len * max_edge_len) as i32 {
+                if d.length_squared() as u32 > max_edge_len as u32 * max_edge_len as u32 {
                     // Round based on the segments in lexilogical order so that the
                     // max tesselation is consistent regardless in which direction
                     // segments are traversed.
-- 
2.43.0


From 23729d833f50b6462af9b2b728aff036b6dff507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 22/34] fix: remove every degenerate contour segment of a run
 of equal vertices

---
 crates/rerecast/src/contours.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 34b7e3f..250c3ea 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -505,8 +505,9 @@ fn remove_degenerate_segments(simplified: &mut Vec<(U16Vec3, u32)>) {
                 simplified[j] = simplified[j + 1];
             }
             simplified.pop();
+        } else {
+            i += 1;
         }
-        i += 1;
     }
 }
 
-- 
2.43.0


From 63ccd8ff50ac0d31858210f8ce39d058a862e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 23/34] fix: grow the contour set when regions have holes

---
 crates/rerecast/src/contours.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 250c3ea..51ee179 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -38,9 +38,9 @@ impl CompactHeightfield {
             cset.aabb.max.z -= pad;
         }
 
-        let mut max_contours = self.max_region.bits().max(8);
+        let mut max_contours = self.max_region.bits().max(8) as usize;
 
-        cset.contours = vec![Contour::default(); max_contours as usize];
+        cset.contours = vec![Contour::default(); max_contours];
         // We will shrink contours to this value later
         let mut contour_count = 0;
         let mut flags = vec![0_u8; self.spans.len()];
@@ -111,12 +111,12 @@ impl CompactHeightfield {
                     // Store region->contour remap info.
                     // Create contour.
                     if simplified.len() >= 3 {
-                        if contour_count >= max_contours as usize {
+                        if contour_count >= max_contours {
                             // Allocate more contours.
                             // This happens when a region has holes.
                             let old_max = max_contours;
                             max_contours *= 2;
-                            cset.contours.truncate(max_contours as usize);
+                            cset.contours.resize_with(max_contours, Contour::default);
 
                             tracing::warn!(
                                 "Region has holes. Expanding contour set from max {old_max} to max {max_contours}"
-- 
2.43.0


From aeb7e6cbac9e435537eed26754c6e7261646716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 24/34] fix: round triangle footprints down to a cell instead
 of towards zero

---
 crates/rerecast/src/rasterize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index d6786ff..ca9dbec 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -54,8 +54,8 @@ impl Heightfield {
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +106,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From fc867bf41f54521b590b89fe93d8bcec9ef4abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 25/34] fix: leave nothing over when dividing an empty polygon

---
 crates/rerecast/src/rasterize.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ca9dbec..a120d71 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -207,6 +207,8 @@ fn divide_poly(
     if in_vert_count > 12 {
         return Err(PolygonDivisionError::TooManyVertices(in_vert_count));
     } else if in_vert_count == 0 {
+        *out_vert_count_1 = 0;
+        *out_vert_count_2 = 0;
         return Ok(());
     }
     let in_vert_count = in_vert_count as usize;
-- 
2.43.0


From c076f1a67ed078c0fbe9875d4e6ce6f73c101174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 26/34] fix: rasterize into heightfields of more than 32767 or
 no cells a side

---
 crates/rerecast/src/rasterize.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index a120d71..e2594a2 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -46,16 +46,19 @@ impl Heightfield {
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
 
-        let w = self.width as i16;
-        let h = self.height as i16;
+        if self.width == 0 || self.height == 0 {
+            return Ok(());
+        }
+        let w = self.width as i32;
+        let h = self.height as i32;
         // The height of the heightfield AABB
         let by = self.aabb.max[1] - self.aabb.min[1];
 
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size).floor() as i32;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +109,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size).floor() as i32;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From f7435cf3dbf7e220127f771cffe0a792b00aa8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 27/34] fix: rasterize surfaces at the top of the height range

---
 crates/rerecast/src/rasterize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index e2594a2..6b5cd7b 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -159,7 +159,7 @@ impl Heightfield {
 
                 // Snap the span to the heightfield height grid.
                 let span_min_cell_index = ((span_min * inverse_cell_height).floor() as i32)
-                    .clamp(0, Span::MAX_HEIGHT as i32)
+                    .clamp(0, Span::MAX_HEIGHT as i32 - 1)
                     as u16;
                 let span_max_cell_index = ((span_max * inverse_cell_height).ceil() as i32)
                     .clamp(span_min_cell_index as i32 + 1, Span::MAX_HEIGHT as i32)
-- 
2.43.0


From 25f2da9c38cad840615e81f24bd9ee3c6cf34d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 28/34] fix: build the detail mesh of a polygon without samples
 from its own outline

With detail_sample_dist == 0 the hull stayed empty and triangulate_hull
underflowed on nhull - 1.
---
 crates/rerecast/src/detail_mesh.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b780369..c49ed13 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -438,6 +438,12 @@ fn build_poly_detail(
             }
             j = i;
         }
+    } else {
+        // Without samples, the outline is the polygon itself.
+        for (i, hull) in hull[..nin].iter_mut().enumerate() {
+            *hull = i;
+        }
+        nhull = nin;
     }
 
     // If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From 3b8d5cb6c4678291f5a2eed977fa98e324f1acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 29/34] fix: read the polygon's own vertices when sampling its
 heights

get_height_data was handed the scratch buffer of the previous polygon's detail
vertices instead of the vertices of the mesh.
---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index c49ed13..b3c69e2 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -241,7 +241,7 @@ impl DetailNavmesh {
                 chf,
                 p,
                 npoly,
-                &verts,
+                &mesh.vertices,
                 border_size,
                 &mut arr,
                 mesh.regions[i],
@@ -1243,7 +1243,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         queue: &mut Vec<(i32, i32, usize)>,
         region: RegionId,
@@ -1352,7 +1352,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         array: &mut Vec<(i32, i32, usize)>,
     ) {
-- 
2.43.0


From a5c7d395e01ec5550440981a3f810050b1d7e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 30/34] fix: reserve detail vertices and triangles relative to
 the length

Vec::reserve takes the additional elements past the length, and the capacity
may exceed the wanted one, which underflowed.
---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b3c69e2..34366e2 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -288,7 +288,7 @@ impl DetailNavmesh {
                 while dmesh.vertices.len() + nverts > vcap {
                     vcap += 256;
                 }
-                dmesh.vertices.reserve(vcap - dmesh.vertices.capacity());
+                dmesh.vertices.reserve(vcap - dmesh.vertices.len());
             }
             for vert in &verts[..nverts] {
                 dmesh.vertices.push(Vec3::from(*vert));
@@ -299,7 +299,7 @@ impl DetailNavmesh {
                 while dmesh.triangles.len() + tris.len() > tcap {
                     tcap += 256;
                 }
-                dmesh.triangles.reserve(tcap - dmesh.triangles.capacity());
+                dmesh.triangles.reserve(tcap - dmesh.triangles.len());
             }
             for tri in &tris {
                 dmesh.triangles.push([tri[0], tri[1], tri[2]]);
-- 
2.43.0


From 6d7bc59971307bfa803575994a93f8d03957a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 31/34] fix: do not overflow the bounds of a polygon at the
 last grid line

---
 crates/rerecast/src/detail_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 34366e2..429f4f8 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -198,9 +198,9 @@ impl DetailNavmesh {
                 poly_vert_count += 1;
             }
             *xmin = xmin.saturating_sub(1);
-            *xmax = chf.width.min(*xmax + 1);
+            *xmax = chf.width.min(xmax.saturating_add(1));
             *zmin = zmin.saturating_sub(1);
-            *zmax = chf.height.min(*zmax + 1);
+            *zmax = chf.height.min(zmax.saturating_add(1));
             if xmin >= xmax || zmin >= zmax {
                 continue;
             }
-- 
2.43.0


From 57feb918cf552246e9601c9b88f27745c30a4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 32/34] fix: keep overlapping triangles out of the detail
 triangulation

The nearest candidate was taken without looking at the edges it needs, so the
facets could overlap each other or reuse a side that already has a face.
---
 crates/rerecast/src/detail_mesh.rs | 46 +++++++++++++-----------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 429f4f8..15a7721 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -717,35 +717,19 @@ fn complete_facet(
             continue;
         }
         if cross2(pts[s].xz(), pts[t].xz(), pts[u].xz()) > EPS {
-            let Some(r_squared) = r_squared.as_mut() else {
-                // The circle is not updated yet, do it now.
-                pt = u;
-                r_squared = Some(circum_circle_squared(pts[s], pts[t], pts[u], &mut c));
-                continue;
-            };
-            let d_squared = c.xz().distance_squared(pts[u].xz());
-            let tol = 1.0e-3;
-            let threshold_out = *r_squared * (1.0 + tol) * (1.0 + tol);
-            let threshold_in = *r_squared * (1.0 - tol) * (1.0 - tol);
-            if d_squared > threshold_out {
+            if let Some(r_squared) = r_squared
+                && c.xz().distance_squared(pts[u].xz()) >= r_squared
+            {
                 // Outside current circumcircle, skip.
                 continue;
-            } else if d_squared < threshold_in {
-                // Inside safe circumcircle, update circle.
-                pt = u;
-                *r_squared = circum_circle_squared(pts[s], pts[t], pts[u], &mut c);
-            } else {
-                // Inside epsilon circum circle, do extra tests to make sure the edge is valid.
-                // s-u and t-u cannot overlap with s-pt nor t-pt if they exists.
-                if overlap_edges(pts, edges, *nedges, s, u)
-                    || overlap_edges(pts, edges, *nedges, t, u)
-                {
-                    continue;
-                }
-                // Edge is valid.
-                pt = u;
-                *r_squared = circum_circle_squared(pts[s], pts[t], pts[u], &mut c);
             }
+            // u-s and t-u must be free on the side of the new face.
+            if !is_free(pts, edges, *nedges, u, s) || !is_free(pts, edges, *nedges, t, u) {
+                continue;
+            }
+            // Edge is valid.
+            pt = u;
+            r_squared = Some(circum_circle_squared(pts[s], pts[t], pts[u], &mut c));
         }
     }
 
@@ -786,6 +770,16 @@ fn update_left_face(e: &mut Edges, s: impl Into<Edge>, t: impl Into<Edge>, f: im
     }
 }
 
+/// Whether the left of s-t can get a face: an existing edge must not have one there,
+/// a new one must not overlap existing edges.
+fn is_free(pts: &[Vec3A], edges: &[Edges], nedges: usize, s: usize, t: usize) -> bool {
+    match find_edge(edges, nedges, s, t) {
+        Edge::Regular(e) if edges[e][0] == s.into() => edges[e][2].is_undefined(),
+        Edge::Regular(e) => edges[e][3].is_undefined(),
+        _ => !overlap_edges(pts, edges, nedges, s, t),
+    }
+}
+
 fn overlap_edges(pts: &[Vec3A], edges: &[Edges], nedges: usize, s1: usize, t1: usize) -> bool {
     for edges in edges[..nedges].iter() {
         let s0 = edges[0];
-- 
2.43.0


From d18d3bade0bca0f9599d75e14c0cc28bc1646e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 33/34] fix: terminate the detail height sampling on spans at
 the top of the field

A span whose floor is at 65535 was stored as the marker for an unset height, so
the flood fill visited it again and again.
---
 crates/rerecast/src/detail_mesh.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 15a7721..212ef58 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -1266,7 +1266,7 @@ impl HeightPatch {
                         let s = &chf.spans[i];
                         if s.region == region {
                             // Store height
-                            *self.data_at_mut(hx as i32, hz as i32) = s.y;
+                            *self.data_at_mut(hx as i32, hz as i32) = set_height(s.y);
                             empty = false;
 
                             // If any of the neighbours is not in same region,
@@ -1335,7 +1335,7 @@ impl HeightPatch {
                     + con as usize;
                 let as_ = &chf.spans[ai];
 
-                *self.data_at_mut(hx, hz) = as_.y;
+                *self.data_at_mut(hx, hz) = set_height(as_.y);
                 queue.push((ax, az, ai));
             }
         }
@@ -1486,7 +1486,7 @@ impl HeightPatch {
         self.data[..data_len].fill(0xffff);
         let cs = &chf.spans[ci];
         self.data[(cx - self.xmin as i32 + (cz - self.zmin as i32) * self.width as i32) as usize] =
-            cs.y;
+            set_height(cs.y);
     }
 
     #[inline]
@@ -1507,6 +1507,13 @@ impl HeightPatch {
 
 const RC_UNSET_HEIGHT: u16 = 0xffff;
 
+/// The height to store for a span. A span at the very top must not pass for an unset height,
+/// the flood fill would visit it over and over.
+#[inline]
+fn set_height(y: u16) -> u16 {
+    y.min(RC_UNSET_HEIGHT - 1)
+}
+
 #[derive(Debug, Default, Clone, PartialEq, Eq)]
 struct Bounds {
     xmin: u16,
-- 
2.43.0


From 8d1ed358e761ab3c4cd6ce5ca5a36133b5681e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:54 +0000
Subject: [PATCH 34/34] fix: keep detail samples without a known height on the
 polygon

---
 crates/rerecast/src/detail_mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index 212ef58..17e4af7 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -378,8 +378,11 @@ fn build_poly_detail(
             for (k, pos) in edge.iter_mut().enumerate().take(nn + 1) {
                 let u = k as f32 / nn as f32;
                 *pos = vj + dij * u;
-                pos.y = get_height(*pos, ics, chf.cell_height, height_search_radius, hp) as f32
-                    * chf.cell_height;
+                let y = get_height(*pos, ics, chf.cell_height, height_search_radius, hp);
+                // Where no height is known nearby, the sample stays on the edge.
+                if y != RC_UNSET_HEIGHT {
+                    pos.y = y as f32 * chf.cell_height;
+                }
             }
             // Simplify samples.
             let mut idx = [0; DetailNavmesh::MAX_VERTS_PER_EDGE];
@@ -493,6 +496,10 @@ fn build_poly_detail(
                     continue;
                 }
                 let y = get_height(pt, ics, chf.cell_height, height_search_radius, hp);
+                if y == RC_UNSET_HEIGHT {
+                    // No height is known nearby.
+                    continue;
+                }
                 samples.push((u16vec3(x as u16, y, z as u16), false));
             }
         }
-- 
2.43.0

