R = "crates/rerecast/src/"
SEEDS = {}
def seed(id, prop, edits, needs, breaks, main, **k):
    SEEDS[id] = dict(prop=prop, edits=[(R + f if not f.startswith("crates") else f, o, n) for f, o, n in edits], needs=needs, breaks=breaks, main=main, **k)

seed("c02-promotion-chains", "C02",
  [("pre_filter.rs", """                    previous_was_walkable = walkable;
                    previous_area_id = current_span.area;
""", """                    previous_area_id = current_span.area;
                    previous_was_walkable = previous_area_id.is_walkable();
""")],
  "three stacked spans, the lowest walkable, the other two not, each within the climb limit of the one below",
  "a span promoted by the filter promotes the next one, although only spans walkable before the filter may",
  """fn main() {
    let mut f = field(1, 1, &[vec![(0, 1, 7), (3, 4, 0), (6, 7, 0)]]);
    f.filter_low_hanging_walkable_obstacles(3);
    expect(column(&f, 0, 0) == vec![(0, 1, 7), (3, 4, 7), (6, 7, 0)], &format!("{:?}", column(&f, 0, 0)));
}
""")
seed("c04-topmost-unlimited", "C04",
  [("pre_filter.rs", """                        let floor = span.max as i32;
                        let ceiling = span
                            .next
                            .map(|key| self.span(key).min as i32)
                            .unwrap_or(Self::MAX_HEIGHTFIELD_HEIGHT as i32);
                        ceiling - floor < walkable_height as i32
""", """                        span.next.is_some_and(|key| {
                            self.span(key).min.saturating_sub(span.max) < walkable_height
                        })
""")],
  "a topmost span whose top is within the agent height of the maximum field height",
  "the topmost span of a column is never unwalkable for lack of headroom",
  """fn main() {
    let mut f = field(2, 1, &[vec![(0, 65530, 1)], vec![(0, 65000, 1)]]);
    f.filter_walkable_low_height_spans(10);
    expect(column(&f, 0, 0) == vec![(0, 65530, 0)], "no headroom under the maximum height");
    expect(column(&f, 1, 0) == vec![(0, 65000, 1)], "headroom");
}
""")
seed("c05-height-wraps", "C05",
  [("compact_heightfield.rs", "let height = (top.saturating_sub(bot)).min(u8::MAX.into()) as u8;", "let height = top.saturating_sub(bot).min(0x1ff) as u8;")],
  "an open gap of 256 to 510 cells between two solid spans",
  "the height of such an open span wraps around instead of being capped at 255",
  """fn main() {
    let f = field(1, 1, &[vec![(0, 10, 1), (310, 312, 1)]]);
    let c = f.into_compact(2, 1).unwrap();
    expect(c.spans[0].height() == 255, &format!("height {}", c.spans[0].height()));
    expect(c.spans[1].height() == 255, &format!("height {}", c.spans[1].height()));
}
""")
seed("c06-last-reachable", "C06",
  [("compact_heightfield.rs", """                            compact_heightfield.spans[i].set_con(dir, Some(layer_index));
                            break;
""", """                            compact_heightfield.spans[i].set_con(dir, Some(layer_index));
                            if neighbor_span_y >= span_clone.y {
                                break;
                            }
"""), ("compact_heightfield.rs", """                            let bot = span_clone.y.max(neighbor_span.y);
""", """                            let neighbor_span_y = neighbor_span.y;
                            let bot = span_clone.y.max(neighbor_span.y);
""")],
  "a neighbouring column with two open spans both reachable, the lower of them below the span's own floor",
  "the link names a higher reachable span instead of the lowest",
  """fn main() {
    // agent height 1, so that two floors of the neighbour are reachable
    let f = field(2, 1, &[vec![(0, 10, 1)], vec![(0, 8, 1), (12, 12, 1)]]);
    let c = f.into_compact(1, 4).unwrap();
    expect(c.spans[0].con(2) == Some(0), &format!("link {:?}", c.spans[0].con(2)));
}
""")
seed("c15-touching-end-missed", "C15",
  [("poly_mesh.rs", "    between(a, b, c) || between(a, b, d) || between(c, d, a) || between(c, d, b)\n", "    between(a, b, c) || between(a, b, d) || between(c, d, a)\n")],
  "two segments of which the first one's second end lies in the interior of the second",
  "such segments are reported as not intersecting",
  """use glam::U16Vec3;
fn main() {
    let p = |x, z| U16Vec3::new(x, 0, z);
    let (i, _) = rerecast::verif::poly_mesh::segments_intersect(p(5, 9), p(5, 5), p(0, 5), p(10, 5));
    expect(i, "T junction at the first segment's second end");
}
""")
seed("c20-merge-area-order", "C20",
  [("config.rs", "min_region_area: (self.region_min_size * self.region_min_size) as u16,", "min_region_area: (self.region_min_size as u16).saturating_pow(2),")],
  "a minimum region size that is not a whole number",
  "the size is truncated before it is squared",
  """fn main() {
    let mut f = [0.3, 0.2, 2.0, 0.6, 0.9, 0.7, 8.0, 20.0, 12.0, 1.3, 6.0, 6.0, 1.0];
    f[6] = 2.5;
    let c = rerecast::verif::config::builder(f, 32, Aabb3d::default(), BuildContoursFlags::default(), false).build();
    expect(c.min_region_area == 6, &format!("{}", c.min_region_area));
}
""")

seed("c01-last-column-plus-one", "C01",
  [("heightfield.rs", "        if column_index >= self.spans.len() {\n            return Err(SpanInsertionError", "        if column_index > self.spans.len() {\n            return Err(SpanInsertionError")],
  "an insertion exactly one column beyond the last",
  "it panics instead of being rejected",
  """fn main() {
    let mut f = field(3, 2, &vec![vec![(1, 2, 3)]; 6]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        rerecast::verif::heightfield::add_span(&mut f, 0, 2, 1, Span { min: 3, max: 8, area: AreaType(2), next: None }).is_err()
    }));
    expect(matches!(r, Ok(true)), &format!("rejected: {r:?}"));
}
""")
seed("c03-drop-capped", "C03",
  [("pre_filter.rs", """                                lowest_neighbor_floor_difference =
                                    lowest_neighbor_floor_difference.min(neighbor_floor_difference);
""", """                                lowest_neighbor_floor_difference =
                                    lowest_neighbor_floor_difference.min(
                                        neighbor_floor_difference.max(-(walkable_height as i32)),
                                    );
""")],
  "a climb limit of at least the agent height and a reachable floor lower by more than the climb limit",
  "drops are capped at the agent height, so a ledge is not recognised when the climb limit exceeds it",
  """fn main() {
    let mut cols = vec![vec![(0, 30, 1)]; 9];
    cols[3] = vec![(0, 1, 1)];
    let mut f = field(3, 3, &cols);
    f.filter_ledge_spans(12, 20);
    expect(column(&f, 1, 1)[0].2 == 0, "ledge of 29 with a climb limit of 20");
}
""")
seed("c07-height-accumulates", "C07",
  [("compact_span.rs", "self.data = (self.data & 0x00FF_FFFF) | ((height as u32) << 24);", "self.data |= (height as u32) << 24;")],
  "setting the height of an open span twice",
  "bits of the earlier height survive",
  """fn main() {
    let mut s = CompactSpan::default();
    s.set_height(200);
    s.set_con(1, Some(5));
    s.set_height(7);
    expect(s.height() == 7, &format!("height {}", s.height()));
    expect(s.con(1) == Some(5), "link");
}
""")
seed("c08-area-change-is-boundary", "C08",
  [("erosion.rs", "                        if !self.areas[neighbor_span_index].is_walkable() {", "                        if self.areas[neighbor_span_index] != self.areas[span_index] {")],
  "two walkable area types next to each other",
  "the line between two walkable areas counts as boundary and is eroded",
  """fn main() {
    let w = 7u16;
    let f = field(w, w, &(0..49).map(|i| vec![(0, 1, if i % 7 < 3 { 1 } else { 2 })]).collect::<Vec<_>>());
    let mut c = f.into_compact(2, 1).unwrap();
    c.erode_walkable_area(1);
    for z in 0..7usize {
        for x in 0..7usize {
            let edge = x == 0 || z == 0 || x == 6 || z == 6;
            let want = if edge { 0 } else if x < 3 { 1 } else { 2 };
            expect(c.areas[z * 7 + x].0 == want, &format!("{x} {z}"));
        }
    }
}
""")
seed("c09-byte-distances", "C09",
  [("watershed_distance_field.rs", """                        // (-1,0)
                        let a_x = (x as i32 + dir_offset_x(0) as i32) as u16;
                        let a_z = (z as i32 + dir_offset_z(0) as i32) as u16;
                        let a_index = self.cell_at(a_x, a_z).index() as usize + con as usize;
                        let a_span = &self.spans[a_index];
                        distance_field[i] = distance_field[i].min(distance_field[a_index] + 2);
""", """                        // (-1,0)
                        let a_x = (x as i32 + dir_offset_x(0) as i32) as u16;
                        let a_z = (z as i32 + dir_offset_z(0) as i32) as u16;
                        let a_index = self.cell_at(a_x, a_z).index() as usize + con as usize;
                        let a_span = &self.spans[a_index];
                        distance_field[i] =
                            distance_field[i].min((distance_field[a_index] + 2).min(u8::MAX.into()));
""")],
  "an open area more than 250 cells across",
  "distances are capped at 255",
  """fn main() {
    let w = 291u16;
    let f = field(w, w, &vec![vec![(0, 1, 1)]; 291 * 291]);
    let mut c = f.into_compact(2, 1).unwrap();
    c.build_distance_field();
    expect(c.max_distance == 290, &format!("{}", c.max_distance));
}
""")
seed("c17-offset-by-used-vertices", "C17",
  [("trimesh.rs", "        let next_vertex_index = self.vertices.len() as u32;", "        let next_vertex_index = self.indices.iter().map(|i| i.max_element() + 1).max().unwrap_or(0);")],
  "a first mesh whose last vertices no triangle uses",
  "the appended triangles name the wrong vertices",
  """use glam::{UVec3, Vec3A};
fn main() {
    let t = |n: usize, x: f32| TriMesh { vertices: (0..n).map(|i| Vec3A::new(x, i as f32, 0.0)).collect(), indices: vec![UVec3::new(0, 1, 2)], area_types: vec![AreaType(3)] };
    let mut a = t(5, 1.0);
    a.extend(t(3, 2.0));
    expect(a.indices == vec![UVec3::new(0, 1, 2), UVec3::new(5, 6, 7)], &format!("{:?}", a.indices));
    expect(a.vertices[a.indices[1].y as usize] == Vec3A::new(2.0, 1.0, 0.0), "own vertices");
}
""")
seed("c17-slope-inclusive", "C17",
  [("trimesh.rs", "            if normal.y > threshold_cos {", "            if normal.y >= threshold_cos {")],
  "a triangle exactly at the threshold",
  "it is marked walkable although its normal does not exceed the threshold",
  """use glam::{UVec3, Vec3A};
fn main() {
    let mut m = TriMesh { vertices: vec![Vec3A::new(0.0, 0.0, 0.0), Vec3A::new(0.0, 0.0, 1.0), Vec3A::new(1.0, 0.0, 0.0)], indices: vec![UVec3::new(0, 1, 2)], area_types: vec![AreaType(7)] };
    m.mark_walkable_triangles(0.0);
    expect(m.area_types[0] == AreaType(7), "flat triangle with a threshold of 0");
    m.mark_walkable_triangles(0.1);
    expect(m.area_types[0] == AreaType::DEFAULT_WALKABLE, "flat triangle");
}
""")
seed("c22-translate-before-rotating", "C22",
  [("crates/avian_rerecast/src/collider_to_trimesh.rs", "        *v = isometry * *v;", "        *v = isometry.rotation * (*v + Vec3A::from(isometry.translation));")],
  "a child shape with both a translation and a rotation",
  "the child is moved before it is rotated about the origin",
  """fn main() {
    let t = |x: f32, r: f32| Isometry::new(Vector3::new(x, 2.0, 0.5), Vector3::new(0.0, r, 0.0));
    let child = SharedShape::cuboid(1.0, 2.0, 3.0);
    let c = Compound::new(vec![(t(5.0, 0.7), child.clone()), (t(-3.0, -1.1), child.clone())]);
    let m = collider_to_trimesh::ToTriMesh::to_trimesh(&Collider(SharedShape::new(c.clone())), 4).unwrap();
    let (v, i) = child.as_cuboid().unwrap().to_trimesh();
    expect(m.vertices.len() == 2 * v.len() && m.indices.len() == 2 * i.len(), "sizes");
    for (k, (iso, _)) in c.shapes().iter().enumerate() {
        for (j, p) in v.iter().enumerate() {
            let q = iso * p;
            let g = m.vertices[k * v.len() + j];
            expect((g.x - q.x).abs() + (g.y - q.y).abs() + (g.z - q.z).abs() < 1e-3, &format!("child {k} vertex {j}: {g:?} {q:?}"));
        }
    }
}
""", kind="avian")
seed("c10-border-of-wide-fields", "C10",
  [("watershed_build_regions.rs", """                0,
                self.width,
                0,
                border_height,
""", """                0,
                self.width.min(self.height),
                0,
                border_height,
""")],
  "a border and a field that is wider than deep",
  "walkable spans in the border rows beyond the depth are put into ordinary regions",
  """fn main() {
    for (w, h) in [(12u16, 12u16), (9, 14), (17, 9)] {
        let f = field(w, h, &(0..w * h).map(|_| vec![(0, 10, 1)]).collect::<Vec<_>>());
        let mut c = f.into_compact(2, 1).unwrap();
        c.build_distance_field();
        c.build_regions(2, 0, 0).unwrap();
        for i in 0..w * h {
            let (x, z) = (i % w, i / w);
            let edge = x < 2 || z < 2 || x + 2 >= w || z + 2 >= h;
            let r = c.spans[i as usize].region;
            if r.intersects(RegionId::BORDER_REGION) != edge {
                expect(false, &format!("{w}x{h}: span at {x} {z} is in {r:?}"));
            }
        }
    }
    expect(true, "borders");
}
""")
seed("c11-floor-kept-when-no-neighbour", "C11",
  [("watershed_build_regions.rs", """        for floor in self.floors.iter_mut() {
            if *floor == old_id {
                *floor = new_id;
            }
        }
        if nei_changed {
""", """        if nei_changed {
            for floor in self.floors.iter_mut() {
                if *floor == old_id {
                    *floor = new_id;
                }
            }
""")],
  "a region that lies above another one without being its neighbour, when the other one is merged away",
  "the floor list keeps the id that no longer exists",
  """fn main() {
    let mut r = rerecast::verif::regions::Record { id: 1, area: 1, span_count: 4, connections: vec![0, 2], floors: vec![3, 2] };
    rerecast::verif::regions::replace(&mut r, 3, 4);
    expect(r.floors == vec![4, 2], &format!("floors {:?}", r.floors));
    expect(r.connections == vec![0, 2], &format!("ring {:?}", r.connections));
}
""")
seed("c11-ring-not-closed", "C11",
  [("watershed_build_regions.rs", """        while i < self.connections.len() && self.connections.len() > 1 {
            let ni = (i + 1) % self.connections.len();
""", """        while i + 1 < self.connections.len() {
            let ni = i + 1;
""")],
  "a merge or rename that makes the last and the first entry of the ring equal",
  "a neighbour is listed twice in a row around the end of the ring",
  """fn main() {
    let mut r = rerecast::verif::regions::Record { id: 1, area: 1, span_count: 4, connections: vec![2, 0, 3], floors: vec![] };
    rerecast::verif::regions::replace(&mut r, 3, 2);
    expect(r.connections.len() == 2 && r.connections[0] != r.connections[1], &format!("ring {:?}", r.connections));
}
""")
seed("c12-area-border-corner-dropped", "C12",
  [("contours.rs", "            if different_regs || area_borders {\n", "            if different_regs || area_borders && region.intersects(RegionVertexId::REGION_MASK) && !region.intersects(RegionVertexId::AREA_BORDER) {\n")],
  "a boundary that goes from a neighbouring region of another area type to one of the same area without the region id changing",
  "the vertex where the area border ends may be simplified away",
  """use glam::U16Vec3;
fn main() {
    let ab = RegionVertexId::AREA_BORDER;
    let r = RegionVertexId::from_bits_retain(2);
    let p = |x: u16, z: u16, c: RegionVertexId| (U16Vec3::new(x, 0, z), c);
    // along x the neighbour is region 2, of another area up to x = 3
    let pts = vec![
        p(0, 0, RegionVertexId::NONE), p(1, 0, r | ab), p(2, 0, r | ab), p(3, 0, r | ab), p(4, 0, r), p(5, 0, r), p(6, 0, r),
        p(6, 3, RegionVertexId::NONE), p(3, 3, RegionVertexId::NONE), p(0, 3, RegionVertexId::NONE),
    ];
    let s = rerecast::verif::contours::simplify(&pts, 5.0, 0, BuildContoursFlags::empty());
    for i in 0..pts.len() {
        let (c, n) = (pts[i].1, pts[(i + 1) % pts.len()].1);
        if (c ^ n).intersects(ab) {
            expect(s.iter().any(|v| v.0 == pts[i].0), &format!("vertex {i} at an end of the area border"));
        }
    }
}
""")
seed("c12-last-run-not-closed", "C12",
  [("contours.rs", """        let ni = (i + 1) % simplified.len();
        if simplified[i].0.xz() == simplified[ni].0.xz() {
            // Degenerate segment, remove.
""", """        if i + 1 == simplified.len() {
            break;
        }
        let ni = i + 1;
        if simplified[i].0.xz() == simplified[ni].0.xz() {
            // Degenerate segment, remove.
""")],
  "a contour whose last and first vertex are at the same place",
  "both of them stay",
  """use glam::U16Vec3;
fn main() {
    let p = |x: u16, y: u16, z: u16| (U16Vec3::new(x, y, z), 0);
    let mut s = vec![p(0, 0, 0), p(0, 0, 4), p(4, 0, 4), p(4, 0, 0), p(0, 7, 0)];
    rerecast::verif::contours::remove_degenerate(&mut s);
    expect(s.len() == 4, &format!("{s:?}"));
}
""")
seed("c13-closing-edge-unseen", "C13",
  [("poly_mesh.rs", """    // For each edge (k,k+1) of P
    for k in 0..n {
        let k1 = next(k, n);
        // Skip edges incident to i or j
        if !((k == i) || (k1 == i) || (k == j) || (k1 == j)) {
            let p0 = verts[indices[k] & INDEX_MASK].0;
            let p1 = verts[indices[k1] & INDEX_MASK].0;
            if vequal(d0, p0) || vequal(d1, p0) || vequal(d0, p1) || vequal(d1, p1) {
                continue;
            }
            if intersect(d0, d1, p0, p1) {
                return false;
            }
        }
    }
    true
}

const INDEX_MASK""", """    // For each edge (k,k+1) of P
    for k1 in 1..n {
        let k = k1 - 1;
        // Skip edges incident to i or j
        if !((k == i) || (k1 == i) || (k == j) || (k1 == j)) {
            let p0 = verts[indices[k] & INDEX_MASK].0;
            let p1 = verts[indices[k1] & INDEX_MASK].0;
            if vequal(d0, p0) || vequal(d1, p0) || vequal(d0, p1) || vequal(d1, p1) {
                continue;
            }
            if intersect(d0, d1, p0, p1) {
                return false;
            }
        }
    }
    true
}

const INDEX_MASK""")],
  "a contour in which only the edge from the last to the first vertex lies across the shortest diagonal",
  "a triangle reaches outside the polygon and overlaps others",
  """use glam::U16Vec3;
fn main() {
    let base = [(0u16, 0u16), (0, 20), (8, 20), (8, 2), (9, 2), (9, 20), (20, 20), (20, 0)];
    let spike = [(0u16, 0u16), (0, 10), (3, 30), (10, 11), (17, 30), (20, 10), (20, 0), (11, 9), (10, 1), (9, 9)];
    let comb = [(0u16, 10u16), (10, 12), (20, 10), (14, 5), (11, 11), (10, 0), (9, 11), (6, 5)];
    for shape in [&base[..], &spike[..], &comb[..]] {
        let n = shape.len();
        let cross = |a: (u16, u16), b: (u16, u16), c: (u16, u16)| {
            let f = |p: (u16, u16)| (p.0 as i64, p.1 as i64);
            let (a, b, c) = (f(a), f(b), f(c));
            (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
        };
        for turn in 0..n {
            for mirror in [false, true] {
                let mut p: Vec<(u16, u16)> = (0..n).map(|k| shape[(k + turn) % n]).collect();
                if mirror {
                    p.reverse();
                }
                let area: i64 = (1..n - 1).map(|k| cross(p[0], p[k], p[k + 1])).sum();
                if area > 0 {
                    continue;
                }
                let v: Vec<(U16Vec3, u32)> = p.iter().map(|q| (U16Vec3::new(q.0, 0, q.1), 0)).collect();
                let mut idx: Vec<usize> = (0..n).collect();
                let mut tris = vec![U16Vec3::ZERO; n];
                let Some(m) = rerecast::verif::poly_mesh::triangulate_contour(n, &v, &mut idx, &mut tris) else { continue };
                let sum: i64 = tris[..m].iter().map(|t| cross(p[t.x as usize], p[t.y as usize], p[t.z as usize]).abs()).sum();
                expect(sum == area.abs(), &format!("{p:?}: the triangles cover {sum} of {}", area.abs()));
            }
        }
    }
}
""")
seed("c14-last-mark-lost", "C14",
  [("poly_mesh.rs", "                vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);", "                vflags.copy_within((i + 1)..mesh.nvertices as usize, i);")],
  "two border vertices to remove, one of them the last vertex of the mesh",
  "the last one stays in the mesh",
  """use glam::U16Vec3;
fn main() {
    let b = RegionVertexId::BORDER_VERTEX.bits();
    let p = |x: u16, z: u16, c: u32| (U16Vec3::new(x, 0, z), c);
    let mut cs = ContourSet::default();
    (cs.width, cs.height) = (8, 8);
    (cs.cell_size, cs.cell_height) = (1.0, 1.0);
    let v = vec![p(2, 0, b), p(0, 0, 0), p(0, 4, 0), p(8, 4, 0), p(8, 0, 0), p(5, 0, b)];
    cs.contours = vec![Contour { vertices: v.clone(), raw_vertices: vec![], region: RegionId::from(1), area: AreaType(1) }];
    let m = cs.into_polygon_mesh(6).unwrap();
    expect(m.vertices.len() == 4, &format!("{:?}", m.vertices));
}
""")
seed("c14-two-cells-apart", "C14",
  [("poly_mesh.rs", "(v.y as i32 - vertex.y as i32).abs() <= 2 &&", "(v.y as i32 - vertex.y as i32).abs() < 2 &&")],
  "two contours that share a corner and give it heights exactly two cells apart",
  "the corner becomes two vertices and the polygons are not linked",
  """use glam::U16Vec3;
fn main() {
    let p = |x: u16, y: u16, z: u16| (U16Vec3::new(x, y, z), 0u32);
    let mut cs = ContourSet::default();
    (cs.width, cs.height) = (8, 8);
    (cs.cell_size, cs.cell_height) = (1.0, 1.0);
    let c = |v: Vec<(U16Vec3, u32)>, r: u16| Contour { vertices: v, raw_vertices: vec![], region: RegionId::from(r), area: AreaType(1) };
    cs.contours = vec![c(vec![p(0, 5, 0), p(0, 5, 4), p(4, 5, 4), p(4, 5, 0)], 1), c(vec![p(4, 7, 0), p(4, 6, 4), p(8, 7, 4), p(8, 7, 0)], 2)];
    let m = cs.into_polygon_mesh(6).unwrap();
    expect(m.vertices.len() == 6, &format!("{:?}", m.vertices));
}
""")
seed("c16-samples-unlimited", "C16",
  [("detail_mesh.rs", """            if *nverts >= DetailNavmesh::MAX_VERTICES_PER_SUBMESH {
                break;""", """            if *nverts >= verts.len() {
                break;""")],
  "a polygon whose surface needs more than 127 detail vertices",
  "it gets more triangles than can be stored, and the rest of it is left uncovered",
  """fn main() {
    let n = 41u16;
    let f = field(n, n, &(0..n * n).map(|i| vec![(0, 100 + ((i as u32).wrapping_mul(2654435761u32) >> 28) as u16, 1)]).collect::<Vec<_>>());
    let mut f = f;
    f.aabb.max = glam::Vec3::new(n as f32, 200.0, n as f32);
    let mut c = f.into_compact(2, 20).unwrap();
    c.build_distance_field();
    c.build_regions(0, 0, 10000).unwrap();
    let m = c.build_contours(1.0, 0, BuildContoursFlags::empty()).into_polygon_mesh(6).unwrap();
    let d = DetailNavmesh::new(&m, &c, 1.0, 0.1).unwrap();
    for s in &d.meshes {
        let v = &d.vertices[s.base_vertex_index as usize..][..s.vertex_count as usize];
        let t = &d.triangles[s.base_triangle_index as usize..][..s.triangle_count as usize];
        expect(v.len() <= DetailNavmesh::MAX_VERTICES_PER_SUBMESH, &format!("{} vertices", v.len()));
        let area: f32 = t.iter().map(|t| { let p = t.map(|k| v[k as usize]); ((p[1].x - p[0].x) * (p[2].z - p[0].z) - (p[1].z - p[0].z) * (p[2].x - p[0].x)).abs() / 2.0 }).sum();
        expect(d.meshes.len() > 1 || (area - (n as f32) * (n as f32)).abs() < 1.0, &format!("covered area {area}"));
    }
}
""")
seed("c16-edge-order", "C16",
  [("detail_mesh.rs", """                if vj.z > vi.z {
                    std::mem::swap(&mut vj, &mut vi);
                    swapped = true;
                }
""", """                if vj.z > vi.z {
                    std::mem::swap(&mut vj, &mut vi);
                    swapped = nn_of(vi, vj, sample_dist) < 3;
                }
"""), ("detail_mesh.rs", "fn delaunay_hull(\n", "fn nn_of(a: Vec3A, b: Vec3A, d: f32) -> usize {\n    ((a - b).xz().length() / d) as usize\n}\n\nfn delaunay_hull(\n")],
  "a polygon edge along z, walked downwards, that gets at least two detail vertices",
  "the detail vertices of that edge are in the wrong order and the outline crosses itself",
  """fn main() {
    let n = 21u16;
    let f = field(n, n, &(0..n * n).map(|i| vec![(0, 100 + 10 * ((i / n % 8) as i32 - 4).unsigned_abs() as u16, 1)]).collect::<Vec<_>>());
    let mut f = f;
    f.aabb.max = glam::Vec3::new(n as f32, 200.0, n as f32);
    let mut c = f.into_compact(2, 40).unwrap();
    c.build_distance_field();
    c.build_regions(0, 0, 10000).unwrap();
    let m = c.build_contours(1.0, 0, BuildContoursFlags::empty()).into_polygon_mesh(6).unwrap();
    let d = DetailNavmesh::new(&m, &c, 2.0, 1.0).unwrap();
    let s = &d.meshes[0];
    let v = &d.vertices[s.base_vertex_index as usize..][..s.vertex_count as usize];
    let t = &d.triangles[s.base_triangle_index as usize..][..s.triangle_count as usize];
    let cross = |t: &[u8; 3]| { let p = t.map(|k| v[k as usize]); (p[1].x - p[0].x) * (p[2].z - p[0].z) - (p[1].z - p[0].z) * (p[2].x - p[0].x) };
    let (sum, whole): (f32, f32) = (t.iter().map(cross).sum(), t.iter().map(|t| cross(t).abs()).sum());
    expect((sum.abs() - whole).abs() < 0.5 && (whole - 882.0).abs() < 0.5, &format!("triangles cover {whole}, their outline {sum}"));
}
""")
seed("c18-clamped-by-depth", "C18",
  [("mark_convex_poly_area.rs", "        max.x = max.x.min(self.width as i32 - 1);\n", "        max.x = max.x.min(self.width.min(self.height) as i32 - 1);\n")],
  "a volume over columns further along x than the field is deep",
  "spans there keep their area type",
  """use glam::Vec2;
fn main() {
    for (w, h) in [(3u16, 3u16), (2, 5), (5, 2)] {
        let mut f = field(w, h, &(0..w * h).map(|_| vec![(0, 10, 1)]).collect::<Vec<_>>());
        f.aabb.max = glam::Vec3::new(w as f32, 100.0, h as f32);
        let mut c = f.into_compact(2, 1).unwrap();
        c.mark_convex_poly_area(ConvexVolume { vertices: vec![Vec2::new(-1.0, -1.0), Vec2::new(20.0, -1.0), Vec2::new(20.0, 20.0), Vec2::new(-1.0, 20.0)], min_y: 0.0, max_y: 90.0, area: AreaType(9) });
        expect(c.areas.iter().all(|a| a.0 == 9), &format!("{w}x{h}: {:?}", c.areas));
    }
}
""")
seed("c19-not-cut-at-the-side", "C19",
  [("rasterize.rs", "            let x0 = x0.clamp(-1, w - 1);\n", "            let x0 = x0.clamp(0, w - 1);\n")],
  "a sloping triangle that begins before the field's low x side",
  "the first column gets the heights of the part outside the field",
  """use glam::Vec3A;
fn main() {
    let mut f = field(4, 1, &[vec![], vec![], vec![], vec![]]);
    f.aabb.max = glam::Vec3::new(4.0, 100.0, 1.0);
    let v = [Vec3A::new(-10.0, 60.0, -20.0), Vec3A::new(-10.0, 60.0, 20.0), Vec3A::new(10.0, 20.0, 0.0)];
    f.rasterize_triangle(v, AreaType(1), 1).unwrap();
    let c = column(&f, 0, 0);
    expect(c.len() == 1 && c[0].1 <= 41, &format!("{c:?}"));
}
""")
seed("c19-top-unclamped", "C19",
  [("rasterize.rs", "                span_max = span_max.min(by);\n", "                span_max = span_max.min(span_min.max(by) + self.cell_size);\n")],
  "a triangle that rises above the field's top",
  "the span reaches beyond the field's bounds",
  """use glam::Vec3A;
fn main() {
    let mut f = field(1, 1, &[vec![]]);
    f.aabb.max = glam::Vec3::new(1.0, 20.0, 1.0);
    f.cell_size = 1.0;
    let v = [Vec3A::new(-1.0, 10.0, -1.0), Vec3A::new(3.0, 40.0, -1.0), Vec3A::new(-1.0, 10.0, 3.0)];
    f.rasterize_triangle(v, AreaType(1), 1).unwrap();
    let c = column(&f, 0, 0);
    expect(c.len() == 1 && c[0].1 <= 20, &format!("{c:?}"));
}
""")

SEEDS["c12-diagonal-floor-from-one-side"] = dict(prop="C12",
  edits=[("crates/rerecast/src/contours.rs", """            if let Some(con) = a_s.con(dir) {
                let (_b_x, _b_z, b_i) = self.con_indices(a_x, a_z, dir, con);
                let b_s = &self.spans[b_i];
                ch = ch.max(b_s.y);
                regs[2] = get_reg(b_i);
            }
""", """            if let Some(con) = a_s.con(dir)
                && s.con(dir).is_some()
            {
                let (_b_x, _b_z, b_i) = self.con_indices(a_x, a_z, dir, con);
                let b_s = &self.spans[b_i];
                ch = ch.max(b_s.y);
                regs[2] = get_reg(b_i);
            }
""")],
  needs="a corner whose diagonal floor is higher and reached only around the far side, because the near side is a hole",
  breaks="the corner is placed below the highest floor around it",
  main="""
fn main() {
    // a floor at 3 with one column missing at (1, 0) and a floor of 6 behind it at (1, 1)
    let f = field(3, 3, &(0..9).map(|i| match i { 1 => vec![], 4 => vec![(0, 6, 1)], _ => vec![(0, 3, 1)] }).collect::<Vec<_>>());
    let mut c = f.into_compact(2, 5).unwrap();
    for s in &mut c.spans { s.region = RegionId::from(1); }
    c.max_region = RegionId::from(1);
    let cs = c.build_contours(0.0, 0, BuildContoursFlags::empty());
    let mut seen = 0;
    for v in cs.contours.iter().flat_map(|c| c.raw_vertices.iter()).filter(|v| v.0.z == 1 && (v.0.x == 1 || v.0.x == 2)) {
        expect(v.0.y == 6, &format!("corner {:?} is next to the floor at 6", v.0));
        seen += 1;
    }
    expect(seen >= 2, "both corners of the gap are on the boundary");
}
""")
SEEDS["c12-ninth-contour"] = dict(prop="C12",
  edits=[("crates/rerecast/src/contours.rs", "                        if contour_count >= max_contours {\n", "                        if contour_count > max_contours {\n")],
  needs="a region with so many holes that there are more contours than regions and more than eight",
  breaks="the contour that does not fit any more panics instead of extending the list",
  main="""
fn main() {
    let (w, h) = (19u16, 7u16);
    let f = field(w, h, &(0..w * h).map(|i| if i % w % 3 == 1 && i / w % 3 == 1 && i % w < 17 && i / w < 5 { vec![] } else { vec![(0, 3, 1)] }).collect::<Vec<_>>());
    let holes = (0..w * h).filter(|i| i % w % 3 == 1 && i / w % 3 == 1 && i % w < 17 && i / w < 5).count();
    let mut c = f.into_compact(2, 5).unwrap();
    for s in &mut c.spans { s.region = RegionId::from(1); }
    c.max_region = RegionId::from(1);
    let n = std::panic::catch_unwind(|| c.build_contours(0.0, 0, BuildContoursFlags::empty()).contours.len());
    expect(matches!(n, Ok(n) if n == holes + 1), &format!("{n:?} contours for {holes} holes"));
}
""")
SEEDS["c14-area-left-behind"] = dict(prop="C14",
  edits=[("crates/rerecast/src/poly_mesh.rs", "            self.areas[i] = self.areas[self.npolys - 1];\n            self.npolys -= 1;\n", "            self.npolys -= 1;\n")],
  needs="a removable border vertex and, last in the list, a polygon of another area type that moves into the gap",
  breaks="the moved polygon takes over the area type of the polygon removed before it",
  main="""
use glam::U16Vec3;
fn main() {
    let p = |x: u16, z: u16, b: bool| (U16Vec3::new(x, 0, z), if b { RegionVertexId::BORDER_VERTEX.bits() } else { 0 });
    let c = |v: Vec<(U16Vec3, u32)>, r: u16, a: u8| Contour { vertices: v, raw_vertices: vec![], region: RegionId::from(r), area: AreaType(a) };
    let mut cs = ContourSet::default();
    (cs.width, cs.height) = (20, 8);
    (cs.cell_size, cs.cell_height) = (1.0, 1.0);
    cs.border_size = 1;
    cs.contours = vec![
        c(vec![p(0, 0, false), p(0, 4, false), p(4, 4, false), p(4, 0, true)], 1, 1),
        c(vec![p(4, 0, true), p(4, 4, false), p(8, 4, false), p(8, 0, false)], 2, 1),
        c(vec![p(12, 0, false), p(12, 4, false), p(16, 4, false), p(16, 0, false)], 3, 7),
    ];
    let m = cs.into_polygon_mesh(6).unwrap();
    expect(m.vertices.len() == 9, &format!("the border vertex is gone: {:?}", m.vertices));
    for i in 0..m.regions.len() {
        let far = m.polygons[i * 6..][..3].iter().all(|v| m.vertices[*v as usize].x >= 12);
        expect(m.areas[i].0 == if far { 7 } else { 1 }, &format!("polygon {i}: region {:?}, area type {}", m.regions[i], m.areas[i].0));
    }
}
""")
