"""Writes properties.jsonl (kept as code so that ids, statements and anchors stay in one place)."""
import json, os
S = "crates/rerecast/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [f if f.startswith("crates/") else S + f for f in files],
        "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b if b.startswith("crates/") else S + b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Span insertion keeps heightfield columns sorted, disjoint and complete",
  "Inserting a solid span into a heightfield column replaces exactly the spans of that column that overlap or touch it by one span covering their union, so that the column stays sorted bottom to top, pairwise disjoint, and solid exactly where it was solid before or the new span is. The merged span takes the highest area type among the new span and those absorbed spans whose top lies within the merge threshold of the merged top reached so far. Every other span and column is left untouched, and an insertion beyond the last column is rejected without any change.",
  ["inputs", "histories"], "every reachable heightfield (any columns, any spans), every inserted span with min <= max, every merge threshold, and every sequence of insertions",
  "Unit tests insert two or three spans into single columns; the invariant must survive every order of overlapping insertions, with every relation between the new span and an arbitrary column.",
  ["heightfield.rs", "span.rs"], [("Heightfield::add_span", "heightfield.rs"), ("span accessors", "heightfield.rs")],
  [("Heightfield::spans / allocated_spans", "per-column linked list of spans in a slot map", "heightfield.rs")],
  ["Heightfield::spans, Heightfield::allocated_spans after rasterization"], "cfg(rerecast_verif): insertion entry point")

p("C02", "Low-obstacle filter promotes exactly the climbable obstacles",
  "The low-hanging-obstacle filter makes a non-walkable span walkable exactly when the span directly below it in its column was walkable before the filter ran and its top is at most the climb limit above that span's top, giving it that span's area type. It changes no other area type, no span height and no column structure.",
  ["inputs"], "every heightfield, every climb limit",
  "Tests compare one mesh; the 'was walkable before' rule only matters for stacks of obstacles and the threshold only at equality.",
  ["pre_filter.rs"], [("Heightfield::filter_low_hanging_walkable_obstacles", "pre_filter.rs")])

p("C03", "Ledge filter removes exactly the spans at a ledge or steep slope",
  "The ledge filter makes a walkable span unwalkable exactly when an agent could step off it: a side of the column lies outside the field, a neighbouring column leaves the agent's height free at the span's own floor or offers a reachable floor lower by more than the climb limit, or the reachable neighbour floors within the climb limit (and the span itself) differ by more than the climb limit. A neighbouring floor is reachable when the vertical gap shared by the two open spaces is at least the agent height. Nothing else changes: no span becomes walkable and no height or column structure is altered.",
  ["inputs"], "every heightfield, every agent height and climb limit",
  "The decision depends on all spans of four neighbouring columns; the regression mesh samples a few configurations at one pair of limits.",
  ["pre_filter.rs", "math.rs"], [("Heightfield::filter_ledge_spans", "pre_filter.rs"), ("Heightfield::contains", "heightfield.rs"), ("dir_offset_x / dir_offset_z", "math.rs")])

p("C04", "Headroom filter removes exactly the spans an agent cannot stand on",
  "The low-height filter makes a span unwalkable exactly when the gap between its top and the bottom of the next span above it (or the maximum field height for the topmost span) is smaller than the agent height. All other area types, all heights and all column structure stay as they were.",
  ["inputs"], "every heightfield, every agent height",
  "Must hold for each span of each column and at the exact threshold; the tests exercise one scene.",
  ["pre_filter.rs"], [("Heightfield::filter_walkable_low_height_spans", "pre_filter.rs")])

p("C05", "Compact heightfield holds exactly the open space above walkable spans",
  "Compacting a heightfield yields, for each column, one open span per walkable solid span in bottom-to-top order: its floor is the solid span's top, its height the gap to the next solid span (or the maximum height) capped at 255, and its area type is carried over. The column cells partition the open spans: consecutive, non-overlapping index ranges in column order that together cover every open span.",
  ["inputs"], "every well-formed heightfield with at most 255 walkable spans per column",
  "Needs arbitrary column contents (gaps, unwalkable spans in between, heights beyond 255, empty columns), which the single regression scene does not contain.",
  ["compact_heightfield.rs", "compact_cell.rs", "compact_span.rs"], [("Heightfield::into_compact (fill)", "compact_heightfield.rs"), ("CompactCell", "compact_cell.rs")],
  [("CompactHeightfield::cells / spans / areas", "cell index ranges over the open spans", "compact_heightfield.rs")], ["CompactHeightfield fields"])

p("C06", "Neighbour links lead to the lowest open span an agent can step to",
  "In a compact heightfield each open span is linked in each of the four directions to the lowest open span of the adjacent column that shares at least the agent height of vertical space with it and whose floor differs by at most the climb limit, and to nothing if there is none or the adjacent column is outside the field. Every stored link therefore resolves to an open span of the adjacent column.",
  ["inputs"], "every well-formed heightfield with fewer than 63 walkable spans per column, every agent height and climb limit",
  "The link of every span depends on every span of four columns; all later stages index through these links unchecked.",
  ["compact_heightfield.rs", "compact_span.rs"], [("Heightfield::into_compact (neighbour connections)", "compact_heightfield.rs"), ("CompactSpan::set_con / con", "compact_span.rs"), ("CompactHeightfield::con_indices", "compact_heightfield.rs")])

p("C07", "Packed span records store each field independently",
  "Reading a neighbour link or the height of an open span returns the value last written to it, and writing one direction's link or the height changes no other direction, nor the height, floor or region. A link is absent exactly when absence (or the reserved value 63) was last written, and a column cell reports exactly the index and count last set, its index range having exactly that many entries starting at that index.",
  ["inputs", "histories"], "every 32-bit record, every direction 0..3, every link value and height, every sequence of writes",
  "Tests write three small values; field independence is a statement about all bit patterns.",
  ["compact_span.rs", "compact_cell.rs"], [("CompactSpan::{set_con,con,set_height,height}", "compact_span.rs"), ("CompactCell", "compact_cell.rs")])

p("C08", "Erosion removes exactly the walkable spans near a boundary",
  "Eroding by a radius makes a walkable span unwalkable only when its distance to the nearest boundary span is below twice the radius, and, when links are mutual and agree around corners, whenever it is; a step to a side neighbour costs 2 and a diagonal step 3, and boundary spans are those that are unwalkable or lack a walkable neighbour in some direction. Spans further away keep their area type. In particular radius 0 changes nothing, no span ever becomes walkable, and with a radius of at least 1 every surviving span had walkable linked neighbours on all four sides. Only area types change.",
  ["inputs"], "every compact heightfield with valid links and a width below 32768, every radius",
  "Depends on distances across the whole field; tests use one radius on one scene.",
  ["erosion.rs"], [("CompactHeightfield::erode_walkable_area", "erosion.rs")])

p("C09", "Distance field measures distance to the nearest area boundary",
  "Before smoothing, a span's distance is 0 exactly when some side has no linked neighbour of the same area type, and otherwise the cost of some way to such a span (2 per side step, 3 per diagonal step). When links are mutual and agree around corners it is the cheapest way: at most 2 more than each linked side neighbour's distance and at most 3 more than each linked diagonal neighbour's, and attained by one of them. The reported maximum distance is the largest of these values, 0 for a field without spans. Smoothing leaves values of at most 2 as they are and replaces every other value by the rounded average over the 3x3 neighbourhood, with missing neighbours counted as the span's own value; one value is produced per open span and nothing else changes.",
  ["inputs"], "every compact heightfield with valid links and a width below 32768",
  "A statement about a two-pass fixpoint over arbitrary link graphs; tests compare one field.",
  ["watershed_distance_field.rs"], [("CompactHeightfield::build_distance_field", "watershed_distance_field.rs"), ("calculate_distance_field", "watershed_distance_field.rs"), ("box_blur", "watershed_distance_field.rs")],
  [("CompactHeightfield::dist / max_distance", "distance per open span and its maximum before smoothing", "compact_heightfield.rs")])

p("C10", "Region building labels only walkable spans, consistently",
  "After successful region building every unwalkable span is in no region, every walkable span in a column within the border size of the field's edge is in a border region and no other span is, and every other region id lies between 1 and the reported maximum. All spans of a non-border region have the same area type and form one piece linked through neighbour links. No isolated piece of ground is left labelled when it is smaller than the minimum region size, and with no minimum every walkable span outside the border is in a region whenever some span has a positive distance. Only region labels, the border size and the maximum region id change, and running out of region ids is reported as an error.",
  ["inputs"], "every compact heightfield with a distance field, every border size, minimum and merge region size",
  "Flooding, expansion, merging and relabelling interact; tests compare one scene with one parameter set.",
  ["watershed_build_regions.rs"], [("CompactHeightfield::build_regions", "watershed_build_regions.rs"), ("flood_region / expand_regions / paint_rect_region", "watershed_build_regions.rs"), ("merge_and_filter_regions", "watershed_build_regions.rs")])

p("C11", "Region adjacency records merge without losing neighbours",
  "A region may be merged with another exactly when both have the same area type, the other occurs at most once in its neighbour ring and the other is not among the floors stacked with it. Merging two records succeeds exactly when each is in the other's ring and otherwise changes nothing; it adds the span counts, joins the two rings at their common border, keeping the order and every neighbour of either region other than each other, and unites the stacked-floor lists without duplicates. Replacing a neighbour id renames it everywhere in the neighbour ring and the floor list and in nothing else. After either operation no two cyclically adjacent ring entries are equal unless only one entry is left.",
  ["inputs", "histories"], "every pair of region records with arbitrary neighbour rings and floor lists",
  "Ring surgery with wrap-around and duplicate removal; no unit test touches it directly.",
  ["watershed_build_regions.rs"], [("Region::{can_merge_with,merge_regions,replace_neighbour,remove_adjacent_neighbours,add_unique_floor_region}", "watershed_build_regions.rs")], hook="cfg(rerecast_verif): region record constructor and operations")

p("C12", "Contour simplification keeps a faithful subsequence of the boundary",
  "A simplified contour is a subsequence, in cyclic order, of the traced boundary vertices and, where the boundary touches another region at all, contains every boundary vertex at which the neighbouring region or an area border changes. Before long edges are split, every dropped boundary vertex on an outer wall or area border lies within the maximum error of the simplified edge that replaces it. Splitting only adds vertices, on edges of the enabled kinds, and leaves no such edge longer than the limit that spans more than one traced step. Each vertex carries the neighbour and area border code of the traced edge behind it and its own tile border mark. Simplification terminates on every input. Removing degenerate segments keeps one vertex of every cyclic run of vertices at the same place. A traced boundary runs along sides at which a span of the region has no neighbour of that region, every vertex one such side from the one before, no side twice, at the height of the highest floor around the corner and with the region or area border across the side. Contour building yields, with its region and area, one contour for every boundary of every region that keeps at least three vertices, in a set with the field's cell sizes and its box without the border.",
  ["inputs"], "every traced boundary ring with coordinates below 32768, every compact heightfield with valid links, every maximum error, edge length limit and edge flags",
  "The loop inserts vertices until a data-dependent criterion holds; tests see only the contours of one scene.",
  ["contours.rs"], [("simplify_contour", "contours.rs"), ("remove_degenerate_segments", "contours.rs"), ("CompactHeightfield::build_contours", "contours.rs")], hook="cfg(rerecast_verif): simplification entry point")

p("C13", "Triangulation of a contour yields valid triangles over its vertices",
  "Triangulating a polygon of n vertices terminates on every input. Success means exactly n-2 triangles, the corners of each being three different corners of that polygon, with signed areas that add up to the polygon's signed area; otherwise failure is reported. For a simple polygon in the orientation contours have, success is reported and no triangle overlaps another. Two corners are joined only if no edge of the remaining polygon away from them meets the line between them, or, where no such pair is left, crosses it.",
  ["inputs"], "every polygon of at least 3 vertices with coordinates below 32768",
  "Ear clipping with degenerate fallbacks; correctness over all polygon shapes cannot be sampled by the scene tests.",
  ["poly_mesh.rs"], [("triangulate", "poly_mesh.rs"), ("diagonal / diagonal_loose / in_cone", "poly_mesh.rs")], hook="cfg(rerecast_verif): triangulation entry point")

p("C14", "Polygon mesh is well formed",
  "Every polygon of a built polygon mesh is convex and has between 3 and the maximum number of vertices, listed first and followed only by empty slots, each naming an existing vertex and no vertex twice; every vertex is a contour vertex, and no two vertices are at the same horizontal place within two cells of height. The neighbour recorded for an edge is another polygon that has the same edge and records the first one back, two polygons that alone share an edge are recorded as neighbours there on both sides, and where there is a border an edge without neighbour on an edge of the tile is marked as a portal on that side. Regions, areas, flags and polygons correspond one to one. A polygon has the region and area type of a contour, or no region where removing a border vertex joined regions. Polygons do not overlap and cover together exactly the area of the contours; where no contour vertex is a border vertex, those of each region cover exactly that region's contour. A single border vertex is removed unless two edges or less would be left around it or it is shared by polygons that are not adjacent.",
  ["inputs"], "every contour set of simple contours, every maximum vertex count of at least 3",
  "Merging, welding and adjacency must be right for every contour set; tests compare a single mesh.",
  ["poly_mesh.rs"], [("ContourSet::into_polygon_mesh", "poly_mesh.rs"), ("add_vertex / merge_poly_verts / get_poly_merge_value / build_mesh_adjacency", "poly_mesh.rs")],
  [("PolygonNavmesh::polygons / polygon_neighbors / vertices", "flat polygon arrays with empty-slot marker", "poly_mesh.rs")], ["PolygonNavmesh fields"], "cfg(rerecast_verif): merge and vertex-welding entry points")

p("C15", "Integer geometry predicates are exact",
  "Orientation, betweenness and segment-intersection tests on integer points agree with exact planar geometry for every set of points with coordinates below 32768. Cyclic index stepping stays within the ring and forward and backward steps undo each other; the four direction offsets are the four unit steps, direction lookup inverts them, and opposite directions cancel.",
  ["inputs"], "every combination of points with coordinates in 0..32767, every ring size and index",
  "Exactness at collinear and touching configurations is a statement over all coordinates; tests check eight values of the ring stepping.",
  ["poly_mesh.rs", "math.rs"], [("area2 / left / left_on / collinear / intersect_prop / between / intersect", "poly_mesh.rs"), ("prev / next / dir_offset*", "math.rs")], hook="cfg(rerecast_verif): predicate entry points")

p("C16", "Detail mesh is well formed and contains the polygon it refines",
  "A detail mesh has one submesh per polygon; submeshes partition the vertex and triangle arrays, every triangle names three different vertices of its own submesh, and the first vertices of a submesh are the polygon's own corners at their horizontal positions. No triangle of a submesh is inside out or overlaps another, and together they cover the polygon. Every vertex is as high as some floor of the field at most two columns farther away than the mesh's edge error (taken as at least one column) or, where no floor's height is known, lies between the heights of its polygon's corners.",
  ["inputs"], "every polygon mesh of polygons with up to 126 corners over the compact heightfield it was made from, every sampling distance and error",
  "Delaunay hull code over floats with many degenerate cases; tests compare a single mesh.",
  ["detail_mesh.rs"], [("DetailNavmesh::new", "detail_mesh.rs"), ("build_poly_detail / triangulate_hull / delaunay_hull", "detail_mesh.rs")])

p("C17", "Combining triangle meshes preserves every triangle",
  "Appending one triangle mesh to another keeps all existing vertices, triangles and area types in place and appends the other's in order, with each appended triangle naming the appended copies of its own vertices. Marking walkable triangles gives exactly the triangles whose unit normal's vertical component exceeds the cosine of the threshold the default walkable area type and leaves every other area type, vertex and triangle as it was. The bounding box of a mesh is the smallest one that holds every vertex; a mesh without vertices has none.",
  ["inputs", "histories"], "every pair of meshes with fewer than 2^32 vertices in total, every sequence of appends, every threshold",
  "Index offsets are only wrong for the second and later mesh with particular sizes; there is no test of appending.",
  ["trimesh.rs"], [("TriMesh::extend", "trimesh.rs"), ("TriMesh::mark_walkable_triangles", "trimesh.rs")], observe=["TriMesh fields"])

p("C18", "Convex volumes relabel exactly the walkable spans inside them",
  "Marking a convex volume sets the volume's area type on exactly those walkable spans whose column centre lies inside the volume's outline and whose floor cell lies between the volume's lowest and highest cell, and changes nothing else. An empty outline, or one entirely outside the field, changes nothing.",
  ["inputs"], "every compact heightfield, every polygon outline, height range and area type",
  "Depends on clamping at all four sides and on inclusive height bounds; the test marks one volume.",
  ["mark_convex_poly_area.rs"], [("CompactHeightfield::mark_convex_poly_area", "mark_convex_poly_area.rs"), ("point_in_poly", "mark_convex_poly_area.rs")])

p("C19", "Rasterization is confined to the field and covers every triangle",
  "Rasterizing a triangle only adds solid material: every column that was solid at some height stays solid there, and new material appears only in columns whose cell the triangle touches and only between the lowest and highest cell its part over that cell reaches, clamped to the field. Every field column whose cell the triangle properly crosses receives such a span carrying the triangle's area type unless merged, and a triangle outside the field's bounds changes nothing. Splitting a polygon along an axis keeps all its vertices, each on its own side. Populating a field from a mesh rasterizes its triangles in order and then applies the low-obstacle, ledge and headroom filters with the given agent height and climb.",
  ["inputs"], "every triangle with finite coordinates and every field",
  "Clipping and clamping at every border combination; tests rasterize one mesh.",
  ["rasterize.rs"], [("Heightfield::rasterize_triangle", "rasterize.rs"), ("divide_poly", "rasterize.rs"), ("Heightfield::populate_from_trimesh", "heightfield.rs")], hook="cfg(rerecast_verif): polygon split")

p("C20", "Field and build parameters follow from the agent description",
  "A heightfield built for a bounding box has as many columns as its width times its height, each the box extent over the cell size rounded to nearest, or is rejected when that does not fit. Derived build parameters convert agent and region sizes to cells: agent height and radius rounded up, climb rounded down, edge length and vertex count truncated, region sizes squared, border the radius plus three cells, and the detail sampling distance scaled by the cell size or zero when below 0.9.",
  ["configurations"], "every bounding box, cell size and agent description",
  "A statement over all float configurations including those beyond 65535 cells; tests use the defaults.",
  ["config.rs", "heightfield.rs"], [("NavmeshConfigBuilder::build", "config.rs"), ("HeightfieldBuilder::build", "heightfield.rs")])

p("C21", "A mesh survives the editor transport unchanged",
  "Serializing a mesh for transport to the editor and deserializing it yields a mesh with the same topology, vertex attributes, indices and usage flags.",
  ["inputs"], "every mesh, attribute kind and index width",
  "One round-trip per attribute format; there is no test.",
  ["crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs"], [("SerializedMesh", "crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs")])

p("C22", "Compound colliders place every child shape by its own transform",
  "Converting a compound collider to a triangle mesh yields the child shapes' meshes in order, each moved by that child's own transform and by no other, with triangles naming their own child's vertices. Unsupported children are left out.",
  ["inputs"], "every list of child shapes and transforms",
  "A compound with one child or identity transforms cannot show it; the only test converts a cuboid.",
  ["crates/avian_rerecast/src/collider_to_trimesh.rs"], [("compound_trimesh", "crates/avian_rerecast/src/collider_to_trimesh.rs"), ("apply_isometry", "crates/avian_rerecast/src/collider_to_trimesh.rs"), ("TriMesh::extend", "trimesh.rs")])

p("C23", "The build pipeline runs to completion on every valid scene",
  "Building a navigation mesh from any finite triangle mesh with a valid configuration completes every stage without panicking or looping, returning either meshes or an error.",
  ["inputs", "configurations"], "every finite triangle mesh and every configuration within the documented limits",
  "The tests run three scenes with fixed configurations.",
  ["lib.rs", "rasterize.rs", "contours.rs", "poly_mesh.rs", "detail_mesh.rs"], [("all stages", "lib.rs")], observe=["public stage functions"])

p("C24", "Queued navmesh requests are generated in the order requested",
  "Each request for a navmesh returns its own handle and requests are worked off in the order they were made, each exactly once.",
  ["histories", "schedules"], "every sequence of requests and every interleaving of systems",
  "Requires all histories of a concurrent ECS world.",
  ["crates/bevy_rerecast_core/src/generator.rs"], [("NavmeshGenerator::generate", "crates/bevy_rerecast_core/src/generator.rs")])

with open(os.path.dirname(os.path.abspath(__file__)) + "/../properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
