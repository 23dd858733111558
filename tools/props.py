"""What decides each property. Read by check.py and gen_manifest.py."""
SLOT = "slotmap 1.0.7 insert/remove/index follow the map contract stated in units/hf_model.vt"
PROPS = {
    "C01": dict(
        units=["C01"], level="proof", exec_ms=8000,
        technique="contract-based deductive verification (Verus) of the extracted span-insertion code",
        note="Unbounded proof of the column invariant, the merge rule, the coverage union and the frame for one insertion into any well-formed heightfield. Trusts the SlotMap contract; capacity exhaustion of the slot map is not modelled.",
        assumptions=[SLOT, "input spans have min <= max (the rasterizer produces min < max)"],
        bounded="random heightfields up to 3x3 columns, 6 spans, 5 insertions",
    ),
    "C02": dict(
        units=["C02"], level="proof", exec_ms=6000,
        technique="contract-based deductive verification (Verus) of the extracted filter",
        note="Unbounded proof over every well-formed heightfield and every climb limit, including the frame.",
        assumptions=[SLOT, "the heightfield is well formed (C01)"],
        bounded="random heightfields up to 5x5 columns, 6 spans",
    ),
    "C03": dict(
        units=["C03"], level="proof", exec_ms=8000,
        technique="contract-based deductive verification (Verus) of the extracted filter",
        note="Unbounded proof over every well-formed heightfield, agent height and climb limit, including the frame.",
        assumptions=[SLOT, "the heightfield is well formed (C01)", "std i32::abs"],
        bounded="random heightfields up to 5x5 columns, 6 spans",
    ),
    "C04": dict(
        units=["C04"], level="proof", exec_ms=6000,
        technique="contract-based deductive verification (Verus) of the extracted filter",
        note="Unbounded proof over every well-formed heightfield and every agent height, including the frame.",
        assumptions=[SLOT, "the heightfield is well formed (C01)"],
        bounded="random heightfields up to 5x5 columns, 6 spans",
    ),
    "C05": dict(
        units=["C05"], level="proof", exec_ms=6000,
        technique="contract-based deductive verification (Verus) of the extracted compaction code",
        note="Unbounded proof for every well-formed heightfield: open spans, cell partition, areas and the only rejections. Counting the walkable spans through the slot map iterator and growing the float bounding box are trusted contracts.",
        assumptions=[SLOT, "the heightfield is well formed and has no unlinked spans (C01)", "fewer than 2^31 open spans"],
        bounded="random heightfields up to 5x5 columns, plus columns of 61..257 spans",
    ),
    "C06": dict(
        units=["C06"], level="proof", exec_ms=8000,
        technique="contract-based deductive verification (Verus) of the extracted compaction code",
        note="Unbounded proof for every well-formed heightfield, agent height and climb limit that every link names the lowest reachable span, and that it resolves.",
        assumptions=[SLOT, "the heightfield is well formed and has no unlinked spans (C01)", "fewer than 2^31 open spans", "con_indices: fewer than 2^31 columns"],
        bounded="random heightfields up to 5x5 columns, plus columns of 61..257 spans",
    ),
    "C07": dict(
        units=["C07"], level="proof", exec_ms=3000,
        technique="contract-based deductive verification (Verus, bit-vector obligations) of the extracted record accessors",
        note="Proof over every record content, direction below 4, link value and height, and every cell content.",
        assumptions=["direction < 4 (every caller in the crate passes 0..4)", "inc_count is called with count < 255 (proved for its only caller in C05)"],
        bounded="random operation sequences on one record",
    ),
    "C08": dict(
        units=["C08"], level="proof", exec_ms=10000,
        technique="contract-based deductive verification (Verus) of the extracted erosion code",
        note="Unbounded proof for every compact heightfield with valid links and every radius: only spans within the radius of the boundary change and become unwalkable, boundary spans always do, and where links are mutual and agree around corners all spans within the radius do (distance = cost of the cheapest way, proved exact). C06 proves that a freshly built compact heightfield is such a field.",
        assumptions=["fields narrower than 32768 columns", "columns hold consecutive spans and links name spans of the adjacent column (proved for fresh fields in C06)", "exactness of the distance: links mutual and agreeing around corners"],
        bounded="random fields up to 9x9 columns with up to 3 floors, flat fields up to 320x340",
    ),
    "C09": dict(
        units=["C09"], level="proof", exec_ms=10000,
        technique="contract-based deductive verification (Verus) of the extracted distance field code",
        note="Unbounded proof for every compact heightfield with valid links: zero exactly on the boundary, every distance is the cost of some way to the boundary; where links are mutual and agree around corners it is the cheapest, at most the step more than every neighbour and attained by one; maximum, smoothing formula and frame. No arithmetic overflow.",
        assumptions=["fields narrower than 32768 columns", "columns hold consecutive spans and links name spans of the adjacent column (proved for fresh fields in C06)", "exactness of the distance: links mutual and agreeing around corners", "Iterator::max of copied elements is the largest of them"],
        bounded="random fields up to 9x9 columns with up to 3 floors, flat fields up to 320x340",
    ),
    "C11": dict(
        units=["C11"], level="proof", exec_ms=5000,
        technique="contract-based deductive verification (Verus) of the extracted region record operations",
        note="Unbounded proof for every pair of records with arbitrary rings and floor lists: exact results, tidiness of the ring, no neighbour lost or invented, no floor duplicated, termination and no index out of range.",
        assumptions=["rings of two merged records hold fewer than 2^31 entries together", "span counts add up within usize", "Vec::contains compares with ==, Vec::clone copies"],
        bounded="random records with rings of up to 40 entries",
    ),
    "C15": dict(
        units=["C15"], level="proof", exec_ms=5000,
        technique="contract-based deductive verification (Verus, nonlinear integer lemmas) of the extracted predicates",
        note="Proof for all points with coordinates below 32768 that no predicate overflows and that betweenness and intersection agree with rational plane geometry (a common point of the closed segments exists), degenerate segments included; ring and direction functions over their whole domains.",
        assumptions=["glam as_ivec3 and xz convert and select components", "ring sizes up to usize::MAX/2, index within the ring", "dir_offset is called with a unit step"],
        bounded="random point quadruples on small and large grids",
    ),
    "C20": dict(
        units=["C20"], level="proof", exec_ms=5000,
        technique="contract-based deductive verification (Verus) of the extracted builders, f32 operations uninterpreted",
        note="Proof over every configuration that each parameter is the stated f32 expression of the inputs (same operations in the same order) and that the field size fits or is rejected. f32 operations are functions of their operands without numeric theory.",
        assumptions=["f32 operators, ceil, floor and casts are functions of their operands; float-to-int casts saturate", "agent radius below 65533 cells; tile size plus border fits u16", "Spans::with_min_capacity gives an empty map"],
        bounded="random configurations; fields around 65535 cells wide and beyond",
    ),
    "C17": dict(
        units=["C17"], level="proof", exec_ms=3000,
        technique="contract-based deductive verification (Verus) of the extracted mesh functions",
        note="Proof for all meshes of fewer than 2^32 vertices that appending keeps and offsets every triangle, and that marking relabels exactly the triangles whose unit normal's vertical component exceeds the cosine of the threshold, and that the bounding box holds every vertex and no smaller box does; vector and f32 operations are uninterpreted functions of their operands.",
        assumptions=["glam vector operations and f32 comparison and cosine are functions of their operands", "glam component-wise minimum and maximum pick the lesser or greater component; <= on finite numbers is transitive","both meshes name their own vertices and have one area type per triangle", "at most 2^32-1 vertices in total"],
        bounded="random meshes of up to 12 vertices, up to 4 appends",
    ),
    "C10": dict(
        units=["C10"], level="other", exec_ms=20000,
        technique="contract-based deductive verification (Verus) of the extracted region code: painting, flooding, expansion, contour walking, merging, id compression and the driver; bounded executable contract for the two completeness clauses",
        note="Proof for every compact heightfield with valid links and every border, minimum and merge size: build_regions ends, stays in range and, unless it reports that ids ran out, leaves every unwalkable span in no region, border labels on exactly the walkable spans of the border, every other id between 1 and the reported maximum, every region one piece of one area type, and nothing changed but labels, border size and maximum; with a minimum of 0 merging takes no label away. The walk of a region's contour records only neighbours of that region, and merging joins two regions only across a link between spans of one area. That small isolated pieces lose their label, and that with no minimum no ground is left over, is decided by the executable contract (bounded), not proved.",
        assumptions=["columns hold consecutive spans and links name spans of the adjacent column (proved for fresh fields in C06)", "fewer than 2^31 spans", "maximum distance below 65535", "bitflags operations on region ids (stand-ins with bodies)", "cloning a region record copies it, slice contains compares with =="],
        bounded="completeness clauses: random fields up to about 12x12 columns with up to 3 floors, corridors and dotted fields, random borders and region sizes",
    ),
    "C12": dict(
        units=["C12", "C12_trace"], level="proof", exec_ms=20000,
        technique="contract-based deductive verification (Verus) of the extracted boundary tracing, simplification, degenerate-segment removal and distance functions",
        note="Proof for every ring: the simplified contour is a cyclic subsequence, keeps every vertex where something changes, every dropped vertex on a wall or area border is within the limit of its edge (measured by the code's own f32 distance, stated as an expression over glam operations), splitting refines and leaves no long edge of an enabled kind, codes, termination, no overflow or out-of-range index; degenerate-segment removal keeps one of every run. Proof for every compact heightfield with valid links: build_contours marks exactly the sides where a span of a region of this tile has no neighbour of that region, visits the spans in order and follows the boundary from the first side left of each span that has one (spans with four such sides are passed over), each step along a side or across to the neighbour; the vertices are the ends of the sides passed, with the highest floor around the corner, the code of what lies across and the tile border mark, each one column side from the one before; a walk ends where it began, after 40000 steps or where a link is missing; no side is passed twice; one contour in order, with region and area, for every walk that keeps three vertices, moved by the border; bounds and sizes of the set. That every closed boundary is met by such a walk is only checked by the executable contract (bounded): it is a statement about plane curves.",
        assumptions=["IEEE 754 comparison is a strict weak order on numbers and squares are not negative", "glam f32 vector operations are functions of their operands; how far the f32 distance is from the exact one is only checked by the executable contract", "fields of at most 32767 columns a side, fewer than 2^31 columns and spans, the border at most half of it; columns hold consecutive spans and links name spans of the adjacent column (proved for fresh fields in C06)", "u32::div_ceil, Vec::resize, Vec::resize_with, vec![x; n], Vec::clone of plain values and core::mem::swap as documented", "bitflags types are one field with the declared constants"],
        bounded="that every boundary is walked: single-layer fields up to about 24x24 with holes, cut links, borders and areas, against a brute-force tracer; distances in f64 with 0.02 cells tolerance",
    ),
    "C13": dict(
        units=["C13"], level="proof", exec_ms=8000,
        technique="contract-based deductive verification (Verus) of the extracted triangulation and its orientation and diagonal tests",
        note="Proof for every list of n >= 3 vertices below 32768, simple or not: termination, no overflow or out-of-range index, success exactly with n-2 triangles, corners taken from the polygon and pairwise different, signed areas adding up to the polygon's (shoelace formula, induction over the corners cut off); the diagonal tests return exactly the stated cone and clearance conditions. That a simple polygon always succeeds without overlaps needs the two ears theorem and is a bounded stand-in.",
        assumptions=["fewer than 2^31 corners, vertices numbered below 65536", "glam integer vector operations are component-wise (stand-ins with bodies)"],
        bounded="success and non-overlap for simple polygons: random simple polygons (cell unions, stars, 2-opt tours) of up to about 40 vertices, coordinates up to 32767",
    ),
    "C14": dict(
        units=["C14", "C14_adj", "C14_can"], level="other", exec_ms=20000,
        technique="contract-based deductive verification (Verus) of the extracted welding, merging and adjacency code; bounded executable contract for the driver and vertex removal",
        note="Proof for every input: welding a vertex into the dictionary (the bucket chains stay complete, no two vertices near each other, the result is near the given vertex, earlier vertices stay), the merge value of two polygons (common edge, both corners strictly left, size limit, squared length, and no value only for one of these reasons), merging (the slot holds the two paths joined, nothing else but the scratch slot changes; lemmas: no vertex twice and areas add up when only the seam is shared), counting, ring pushes, and build_mesh_adjacency as a whole (neighbours are mutual, edges that two polygons alone share are recorded on both sides, vertices unchanged, termination, no overflow). can_remove_vertex is under contract too: it accepts a vertex exactly when at least three edges are left of the polygons around it and at most two vertices are joined to it by an edge of one polygon only (no overflow, the edge list never overflows). into_polygon_mesh and remove_vertex themselves are bounded stand-ins (executable contract), not counted as proved.",
        assumptions=["coordinates below 32768, at most 65535 polygons and vertices", "i32::abs and wrapping multiplication as documented", "glam integer vector operations are component-wise (stand-ins with bodies)", "fill, copy_within and copy_from_slice as documented (stand-ins with bodies)", "the polygons around a vertex to remove have at least three corners, none twice (executable contract), and at most 32767 slots each", "iter().take(n).filter(..).count() counts the entries it says"],
        bounded="into_polygon_mesh with vertex removal: random sets of simple contours of adjoining grid regions, subdivided edges, several floors, border vertices, 3 to 8 vertices per polygon; one mesh of 39321 triangles",
    ),
    "C16": dict(
        units=["C16"], level="other", exec_ms=12000,
        technique="contract-based deductive verification (Verus) of the extracted triangulation functions, build_poly_detail, the height patch's filling and the assembly of the sub-meshes, f32 operations uninterpreted; bounded executable contract for the geometry behind the f32 expressions",
        note="Proof for every outline and point set: triangulating an outline of n corners gives n-2 triangles of three different outline corners whose oriented edges add up to the outline's in every measure; the Delaunay refinement keeps its edge list free of repeated pairs and of edges that its own predicate finds crossing, fills every side at most once, and makes each triangle from one counter-clockwise face, so that, while the edge list has room, no directed edge is in two triangles and none is an outline edge walked backwards; the boundary flags are exactly the outline edges. build_poly_detail as a whole is under contract: the polygon's corners come first and unchanged, at most 127 vertices, every added vertex has the height of a cell of the height patch that has one or, on a side, where none is known nearby, the side's own height at that step, the outline is the polygon's with samples of each side at exact f32 steps counted from the side's lexicographically smaller end (so two polygons sample a shared side alike), the triangles are the outline's triangulation or a sound refinement (its first 255), one flag byte each. HeightPatch::get_height_data is under contract too: it ends, leaves no index out of range, gives every column that holds a span of the polygon's region that span's floor (the lowest such span), and any other column either no height or the floor of a span reached from those (or from the one seed near a corner) along links inside the box. DetailNavmesh::new is under contract as a whole: one sub-mesh per polygon, their vertex and triangle ranges follow each other and fill the arrays, and each is what build_poly_detail's contract says of that polygon's corners (grid coordinates times cell sizes) over a height patch filled for that polygon, region and box, moved to the origin and up by one cell; no overflow, no out-of-range index. That no triangle of a sub-mesh overlaps another in the plane is f32 geometry and only checked by the executable contract.",
        assumptions=["f32 operations and glam component-wise operations are functions of their operands", "Vec::resize and vec![x; n] give the stated length, clone_from_slice copies", "the newtype over four edges derefs to the array", "a polygon has at most 126 corners, its sides fewer than 2^32 sampling distances, a sampled cell lies within 2^30 of the origin, the height search radius is at most 16383", "the distance of a point to a segment returns an f32 for all operands", "a polygon mesh as C14 states it, over the field it was built from: corners inside the field and the vertex list, at most 65535 polygons, and a polygon whose box holds no span of its region has a span in a cell next to one of its corners"],
        bounded="random terrain up to 33x33 columns in one or two layers through regions, contours and polygons, and single polygons at the far end of fields; positions, partition, flags, orientation, area sums and heights against the floors nearby in f64",
    ),
    "C18": dict(
        units=["C18"], level="proof", exec_ms=6000,
        technique="contract-based deductive verification (Verus) of the extracted marking code, f32 operations uninterpreted",
        note="Proof for every compact heightfield, outline, height range and area type: exactly the walkable spans whose floor lies in the cell range, whose column lies in the outline's box of cells and whose centre the even-odd rule (stated as f32 expressions) puts inside are relabelled; frame, termination, no overflow. That the box of cells holds every column whose centre is inside is f32 arithmetic and only checked by the executable contract in exact rational arithmetic.",
        assumptions=["f32 operations and glam component-wise minimum, maximum and subtraction are functions of their operands", "columns hold consecutive spans (proved for fresh fields in C06)", "fewer than 2^31 columns"],
        bounded="random fields up to 9x9 columns, outlines of up to 6 dyadic points",
    ),
    "C19": dict(
        units=["C19", "C19_populate"], level="other", exec_ms=10000,
        technique="contract-based deductive verification (Verus) of the extracted rasterizer and polygon splitter, f32 operations uninterpreted; bounded executable contract for the geometry behind the f32 expressions",
        note="Proof for every field and triangle: each column receives at most the one span the code's own f32 cut, footprint and height expressions give for it, clamped to the field, inserted by C01's contract, so solid material is only added and every other column stays as it was; a triangle whose bounds miss the field's changes nothing; no overflow, out-of-range index or failed clamp; splitting keeps every vertex on its own side and adds the crossing points in order; a mesh is its triangles in order; populating is that followed by the three filters, whose contracts are proved. That the f32 cut polygons are the geometric intersection of the triangle with the cell is only checked by the executable contract in f64.",
        assumptions=["f32 operations and glam component-wise operations are functions of their operands", "a triangle cut by four lines has at most 7 corners (few_corners), so the splitter's limit of 12 is not reached", "triangle indices and area types lie inside the mesh's arrays", "f32::clamp, i32::clamp, floor, ceil and saturating casts as documented"],
        bounded="random fields up to a few dozen columns, triangles inside, across and outside, degenerate and far ones, heights up to 65535; comparison in f64 with a tolerance of the f32 resolution",
    ),
    "C22": dict(
        units=["C22"], level="proof", exec_ms=4000, harness="avian",
        technique="contract-based deductive verification (Verus) of the extracted conversion functions",
        note="Proof for every list of children that the result is the concatenation of the supported children's meshes, each moved by its own transform. The conversion of a single child is a trusted contract here (it calls into parry); the executable contract runs it against the real parry.",
        assumptions=["parry lists a compound's children and meshes single shapes with indices inside their own vertices", "Isometry3d * Vec3A is a function of its operands", "at most 2^32-1 vertices in total"],
        bounded="random compounds of up to 5 shapes, real parry3d and bevy_math; avian3d and bevy stand-ins that re-export them",
    ),
}
NOT_APPLICABLE = {
    "C21": "The round trip goes through serde derive output and a base64/JSON transport built on Bevy asset and remote types; the verifier cannot take those externals in, and with their behaviour assumed nothing of the property would be left to decide.",
    "C23": "Panic freedom and termination of the whole pipeline depends on floating-point rasterization and on the contour and detail stages together; Verus has no theory of f32 rounding, so no contract can express it. The stage contracts that are within reach include panic freedom and termination of the functions they cover.",
    "C24": "The queue lives in Bevy systems and asynchronous tasks (ECS resources, task pools); no contract on those externals exists and they are outside the verifier's language subset.",
}
