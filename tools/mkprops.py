#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))
M = lambda n, w: dict(name=n, where=w)

p("C01", "Ribs tile the tyre width and follow the profile law",
  "For every accepted tyre shape (Rx,Mx,Ry,My,Ly) and every rib count n>=1, at construction and after any later resize, the shell has exactly n ribs of equal width 2*Ly/n whose centres, in index order from -Ly to +Ly and on the hub axis, tile the width without gap or overlap, each with radius r(y)=Rx*(1-(|y|/Ry)^My)^(1/Mx) and slope angle atan(r'(y)). The profile functions are even (radius) and odd (derivative, angle) in y, the radius at y=0 is Rx, and any query with |y|>Ly or a rib count of 0 is refused with an exception.",
  ["inputs","histories"], "every shape, rib count, lateral coordinate and sequence of resizes",
  "Tests build two or three fixed shells (10 ribs, one shape) and only print them; nothing compares rib geometry with the law and no test resizes.",
  ["src/shape.cc","src/shell.cc","src/rib.cc"],
  [M("shell resize", "src/shell.cc: shell::resize"), M("profile law", "src/shape.cc: surfaceRadius/surfaceDerivative/surfaceAngle")],
  ["shell::size, ribRadius, ribCenter, ribWidth, ribAngle, surfaceRadius, surfaceDerivative, surfaceAngle; shape accessors"])

p("C02", "Geometric rib/mesh contact equals the exact disc-section geometry",
  "With the geometric method, each rib's contact on a mesh is determined by the segments in which the mesh triangles cut the rib's disc: area is the sum of segment lengths times rib width, volume the sum of the disc sectors cut off beyond the segments times rib width, point, normal and friction the volume-weighted means of the per-segment values, depth the radius minus the distance from rib centre to that point. The rib is in contact exactly when that section is non-empty, whatever the triangle order, winding, tyre pose or position along the rim. A mesh edge lying in a rib's plane counts once (for the triangle on the positive side of the plane); a triangle lying in that plane does not count.",
  ["inputs"], "every mesh, tyre shape, hub pose (camber, yaw, spin, height) and rib, up to floating-point rounding",
  "The tests run one pose on one or two sample meshes and print the outcome; no value is compared with an oracle.",
  ["src/rib.cc","src/shell.cc","toolbox/src/intersection.cc"],
  [M("section accumulation", "src/rib.cc: rib::envelopGeometric(mesh)"), M("triangle/disc cut", "toolbox/src/intersection.cc: Intersection(triangle,disk)")],
  ["shell::setup(mesh,...,\"geometric\") then contactPoint/Normal/Friction/Depth/Area/Volume(i)"])

p("C03", "A mesh box query returns exactly the triangles whose boxes meet it",
  "For every mesh and query box, the query returns each triangle whose axis-aligned bounding box touches or overlaps the query box exactly once and no other triangle, and its Boolean result says whether that list is non-empty. The answer does not depend on the order, number, size or clustering of the triangles, nor on what the caller's result list contained before.",
  ["inputs"], "every set of triangles (any layout, duplicates, degenerate extents) and every query box",
  "One test walks tyre-sized boxes over ten meshes but never compares the answer with a brute-force scan, so lost or duplicated triangles go unnoticed.",
  ["src/mesh.cc","toolbox/src/AABBtree.cc","toolbox/src/aabb.cc"],
  [M("AABB tree query", "src/mesh.cc: mesh::intersection, buildAABBtree, updateBBoxes"), M("tree build/traversal", "toolbox/src/AABBtree.cc")],
  ["ground::mesh::intersection(box, triangles)"])

p("C04", "Pruning never changes a contact result",
  "With the geometric method, shell results on a mesh equal those obtained when every rib is presented with every triangle of the mesh: the box query and the per-rib candidate selection may only discard triangles that contribute nothing. With both methods, adding triangles whose boxes do not meet the shell's box, permuting the triangle list or re-ordering the vertices of a triangle changes no result.",
  ["inputs","configurations"], "every mesh, permutation, added far-away triangles, rib count, pose and both methods",
  "Tests never run the same contact twice with different triangle orders or with and without pruning.",
  ["src/shell.cc","src/mesh.cc","src/rib.cc"],
  [M("candidate selection", "src/shell.cc: shell::refineIntersection, setup(mesh)"), M("broad phase", "src/mesh.cc: mesh::intersection")],
  ["shell::setup(mesh,...) compared with rib::envelop over all triangles"])

p("C05", "The shell's bounding box always encloses every rib",
  "At construction and after every setup, for every pose (translation, yaw, camber, spin), the shell's axis-aligned bounding box contains every point of every rib disc, including wide or strongly cambered tyres. No triangle that cuts a rib can therefore lie outside the box used to search the mesh.",
  ["inputs","histories"], "every shape, rib count and rigid pose, after any sequence of setups",
  "Tests use upright or mildly cambered wheels of one size and never inspect the box.",
  ["src/shell.cc"], [M("bounding box update", "src/shell.cc: shell::updateBBox, shell::setup")],
  ["shell::bbox, shell::setup(mesh) results near the box faces"])

p("C06", "setup returns true exactly when some rib touches the ground",
  "For both ground kinds and both methods, setup returns true if and only if at least one rib is in contact, regardless of which rib (first, middle or last) it is. A rib is in contact if and only if its reported volume or area is positive.",
  ["inputs"], "every ground, pose, rib count and method, in particular poses where only a strict subset of ribs touches",
  "Tests print the returned flag for poses where all or no ribs touch.",
  ["src/shell.cc","src/rib.cc"], [M("result accumulation", "src/shell.cc: shell::setup(mesh), shell::setup(flat)")],
  ["return value of shell::setup, per-rib outputs"])

p("C07", "A rib out of contact reports the canonical no-contact output",
  "After setup, every rib that does not touch the ground reports the point at its own bottom (hub pose applied to rib centre minus radius along the hub z axis), the hub z axis as normal, and exactly zero friction, depth, area and volume, whether the whole shell is off the ground, off the mesh, or only that rib is. No value of an earlier setup survives in it.",
  ["inputs","histories"], "every pose, ground and method, after any earlier setups with other results",
  "Tests print such outputs at most once; none follows a contact with a loss of contact and compares.",
  ["src/rib.cc","src/shell.cc"], [M("no-contact output", "src/rib.cc: rib::envelop(pose,out)"), M("callers", "src/shell.cc: shell::setup")],
  ["per-rib contact accessors after shell::setup"])

p("C08", "Geometric contact on flat ground is the exact chord geometry",
  "With the geometric method on flat ground, a rib whose disc crosses the plane with its centre above it reports: point at the midpoint of the chord, depth = radius minus centre-chord distance, area = chord length times rib width, volume = circular segment cut off by the chord times rib width, the ground's friction, and as normal the ground's unit normal. A rib whose disc does not reach the plane is out of contact.",
  ["inputs"], "every plane (height, inclination, friction), shape and pose",
  "The flat test prints values for one pose.",
  ["src/rib.cc","toolbox/src/intersection.cc","src/flat.cc"],
  [M("flat envelop", "src/rib.cc: rib::envelopGeometric(flat)"), M("plane/disc cut", "toolbox/src/intersection.cc: Intersection(plane,disk)")],
  ["shell::setup(flat,...,\"geometric\") then per-rib accessors"])

p("C09", "Sampling contact uses four vertical probes on the highest ground",
  "With the sampling method each rib probes the ground along four vertical lines through its centre shifted by +-0.1 radius along the hub x axis and +-0.3 rib width along the hub y axis, taking on each line the highest point of the ground (of a mesh: of its triangles whose boxes meet the shell's box) and that triangle's friction; it is in contact exactly when all four probes hit and the resulting depth is positive. Point and friction are then the means over the probes, the normal is the unit vector along (hub-x probe diagonal) x (hub-y probe diagonal), and depth, area and volume follow from that point and normal by the circular-segment formulas.",
  ["inputs"], "every mesh (multi-layer, partial coverage, steps) or plane, shape and pose",
  "Tests run sampling once over sample terrain and print the outcome.",
  ["src/rib.cc","toolbox/src/intersection.cc"],
  [M("sampling", "src/rib.cc: rib::envelopSampling, samplingLine"), M("line/triangle cut", "toolbox/src/intersection.cc: Intersection(line,triangle)")],
  ["shell::setup(...,\"sampling\") then per-rib accessors"])

p("C10", "Shell-level contact values aggregate the ribs' values",
  "After any setup the shell's contact volume and area are the sums over its ribs, and point, normal (normalised), friction and depth are the volume-weighted means over its ribs. When the total volume vanishes (is below the library's EPSILON_ENVE), point, normal and friction are the plain means and depth is zero.",
  ["inputs","histories"], "every rib count and every contact situation, including no contact",
  "Tests print the aggregates; no test recomputes one from the ribs.",
  ["src/shell.cc"], [M("aggregation", "src/shell.cc: contactPoint/Normal/Friction/Depth/Area/Volume")],
  ["shell::contact*(value) against shell::contact*(i,value)"])

p("C11", "Indexed, vector and whole-shell queries agree and are pure",
  "For every contact quantity the vector form returns exactly one entry per rib, equal to the indexed form for that rib, whatever the size or content of the caller's vector beforehand. Queries never change the shell: repeating or re-ordering them gives the same values.",
  ["inputs","histories"], "every quantity, rib count, caller vector size and order of queries",
  "Tests call each form once with well-sized vectors.",
  ["src/shell.cc"], [M("accessors", "src/shell.cc: contact*(...), contactPointAffine(...), relativeAngles(...)")],
  ["all contact accessors"])

p("C12", "Contact frames are right-handed orthonormal and match point and normal",
  "Each contact frame (per rib and for the shell) has the corresponding contact point as origin and contact normal as z axis, an x axis orthogonal to both the normal and the hub y axis and pointing forward (hub y cross normal), y = z cross x, and last row (0,0,0,1). The relative angles are the z-x-y Euler angles of the hub orientation seen from that frame, less the rib's own profile slope angle for the per-rib form.",
  ["inputs"], "every contact situation in which the normal is not parallel to the hub y axis",
  "Tests print frames and angles without checking any relation.",
  ["src/shell.cc"], [M("frames and angles", "src/shell.cc: contactPointAffine, relativeAngles, eulerAngles")],
  ["contactPointAffine, relativeAngles, eulerAngles"])

p("C13", "A setup's result depends only on its arguments, not on history",
  "The outputs after a setup are a function of the tyre shape, rib count, ground, pose and method alone: the same call made on a freshly built shell gives the same outputs, whatever setups (other grounds, poses, methods, refused methods), resizes, pose changes and queries came before. Several shells and grounds used in turn do not influence each other.",
  ["histories"], "every interleaving of setup, resize, translate/rotate/transform and queries on several shells and grounds",
  "Every test performs a single setup per shell or prints a loop without comparing; no test resizes or mixes grounds and methods.",
  ["src/shell.cc","src/rib.cc","src/mesh.cc"],
  [M("per-setup state reset", "src/shell.cc: setup, refineIntersection (m_candidates), resize (m_out)")],
  ["all accessors after each setup"], [dict(name="per-rib outputs and candidates", meaning="must be overwritten by each setup", where="src/enve/shell.hxx: m_out, m_candidates")])

p("C14", "Contact is equivariant under rigid motion of tyre and ground",
  "Moving ground and hub together by the same translation and rotation about the vertical moves the contact points, normals and frames by it and leaves depth, area, volume, friction and the contact flag unchanged, for both methods and both ground kinds; with the geometric method so does every other rigid motion that leaves the normals of the ground pointing upwards. With that method, spinning the hub about its own axis changes nothing. (Sampling on meshes: for ground without overhanging layers beyond the shell's reach.)",
  ["inputs"], "every ground, pose and rigid motion",
  "Tests evaluate isolated configurations; no two related runs are compared.",
  ["src/rib.cc","src/shell.cc","src/mesh.cc","toolbox/src/intersection.cc"],
  [M("contact in world/hub frames", "src/rib.cc: envelopGeometric/envelopSampling"), M("mesh pose", "src/mesh.cc: load(..., pose)")],
  ["shell::setup results of related runs"])

p("C15", "Splitting triangles or meshing a plane does not change area or volume",
  "With the geometric method, replacing mesh triangles by any subdivision of them (and, for a planar mesh covering the contact, by the flat ground with the same plane) leaves the contact flag and every rib's contact area and volume unchanged up to rounding, as well as its friction when friction is uniform. With the sampling method, all outputs are unchanged as long as the probed ground points lie within the shell's box.",
  ["inputs"], "every mesh and subdivision, every plane and its tessellations, every pose",
  "No test compares a mesh with a refined or flat equivalent.",
  ["src/rib.cc","toolbox/src/intersection.cc"],
  [M("additive sections", "src/rib.cc: envelopGeometric(mesh)"), M("cuts", "toolbox/src/intersection.cc: Intersection(triangle,disk), (plane,disk), (line,triangle)")],
  ["shell::setup results of related runs"])

p("C16", "Loading an RDF file reproduces exactly its triangles",
  "Loading a well-formed .rdf file yields one triangle per element, in file order, with the listed nodes (in order of appearance, counted from 0) moved by the given pose and the listed friction; section markers with or without brackets, comment lines ('{', '%', '#'), blank lines, leading, repeated and trailing blanks, LF or CRLF endings and a missing final newline make no difference. Every loaded triangle is found by box queries.",
  ["inputs"], "every well-formed file and every pose",
  "Tests load one well-behaved sample and look at none of its contents.",
  ["src/mesh.cc"], [M("rdf parser", "src/mesh.cc: mesh::load(path, pose), split, tail, firstToken")],
  ["mesh::size, mesh::operator[], triangleground vertices/friction, mesh::intersection"])

p("C17", "Loading an OBJ file reproduces exactly its triangles",
  "Loading a well-formed triangulated .obj file yields one triangle per face, in file order, with the listed vertices (counted from 1) moved by the given pose and the friction passed by the caller; lines of other kinds, comments, blank lines, extra blanks, LF or CRLF endings and a missing final newline make no difference. Every loaded triangle is found by box queries.",
  ["inputs"], "every well-formed file and every pose",
  "Tests load well-behaved samples and look at none of their contents.",
  ["src/mesh.cc"], [M("obj parser", "src/mesh.cc: mesh::load(path, friction, pose), split, tail, firstToken")],
  ["mesh::size, mesh::operator[], triangleground vertices/friction, mesh::intersection"])

p("C18", "Malformed mesh files are refused and leave the mesh usable",
  "Loading a file that cannot be opened, has the wrong extension, contains no triangle, a line with the wrong number of fields, a negative or undefined node index, or a negative friction throws an exception; it never crashes, never reads undefined nodes and never reports success. After such a refusal the mesh object still answers every query consistently and can load a good file correctly.",
  ["inputs","fault_sequences"], "every malformed file (each kind of defect at each position), followed by any further use of the mesh",
  "Tests load only good files.",
  ["src/mesh.cc"], [M("parser assertions", "src/mesh.cc: mesh::load(...)")],
  ["exceptions from mesh::load and mesh constructors; later mesh queries"])

p("C19", "A mesh always answers for its current contents",
  "After any sequence of construction (from files or triangle lists), load, reload, copy and clear over several mesh objects, each mesh's size, indexed triangles and box queries all refer to the same current contents: a load or copy replaces the previous contents, clear empties the mesh, a copy is equal to its source and independent of it afterwards. Queries on an empty mesh, including a tyre setup on it, report no intersection.",
  ["histories"], "every sequence of construct/load/copy/clear/query over several meshes and files, including failed loads",
  "Tests construct each mesh once from one file and never copy, clear or reload it.",
  ["src/mesh.cc","toolbox/src/AABBtree.cc"],
  [M("triangle list and tree kept in step", "src/mesh.cc: copy, clear, load, buildAABBtree")],
  ["mesh::size, operator[], intersection, shell::setup"],
  [dict(name="triangle list / box list / AABB tree", meaning="must describe the same mesh", where="src/enve/mesh.hxx")])

p("C20", "Ground elements are valid: upward unit normals, tight boxes, friction>=0",
  "Every ground triangle that is constructed has a unit normal orthogonal to its edges with non-negative z component whatever the vertex order, and a bounding box whose corners are the coordinate-wise extrema of its vertices and which carries the triangle's identifier; flat ground has a unit normal with positive z. Construction with a negative (or undefined) friction, or of flat ground whose normal does not point upward, is refused with an exception, and valid values are stored unchanged.",
  ["inputs"], "every triangle, plane, friction and identifier, through every constructor",
  "Tests construct a handful of valid elements and check nothing about them.",
  ["src/triangleground.cc","src/flat.cc","toolbox/src/aabb.cc","toolbox/src/triangle.cc"],
  [M("normal/box update", "src/triangleground.cc: updateNormal, updateBBox"), M("constructor assertions", "src/triangleground.cc, src/flat.cc")],
  ["triangleground::normal, bbox, friction, id, vertex; flat::normal, origin, friction"])

p("C21", "The S-function output bus carries exactly the shell's contact data",
  "For every hub frame, method and ground selector, the output bus holds the shell's contact frame, depth and friction and, for each rib i below the rib count (at most 20), that rib's frame, depth and friction, all 4x4 frames in column-major order like the input frame; every entry of the unused rib slots is NaN. The values equal those obtained with the C++ library for the same ground, tyre, pose and method.",
  ["inputs"], "every hub frame, tyre, rib count (1 to beyond 20), ground, method and selector",
  "The S-function test makes one call and prints the bus.",
  ["sfun/src_sfun/enve_sfun_interface.cc"], [M("bus fill", "sfun/src_sfun/enve_sfun_interface.cc: enve_sfun_out")],
  ["EnveOutputBus after enve_sfun_out"])

p("C22", "S-function sessions select ground and method correctly at every step",
  "In any session (initialise, steps, terminate, re-initialise), a step with the mesh selector uses the mesh and reports InMesh=1 if the tyre touches it, and otherwise InMesh=0 with the data of the flat fallback at the configured height and friction; a step with the flat selector uses the flat ground and reports InMesh=1. Each step depends only on the latest initialisation and its own inputs; an unknown method or selector, a missing or unusable ground file throws and a later valid initialisation or step works normally.",
  ["histories","configurations"], "every sequence of init/step/end with any mix of selectors, methods, poses and ground files",
  "The only test runs a single init/out/end sequence with fixed selectors.",
  ["sfun/src_sfun/enve_sfun_interface.cc"], [M("session state", "sfun/src_sfun/enve_sfun_interface.cc: MeshPtr, FlatPtr, ShellPtr"), M("selectors and fallback", "enve_sfun_out")],
  ["EnveOutputBus, exceptions"])

p("C23", "AABB trees report exactly the intersecting pairs of boxes",
  "For any two collections of boxes (any number, duplicates, points, flat or far-apart boxes), intersecting their trees reports each pair of boxes, one from each collection in the order asked for, that touch or overlap exactly once, and no other pair. The collision test succeeds exactly when its function accepts one of these pairs, and asks about no other. Empty trees intersect nothing, and building again replaces the previous contents.",
  ["inputs","histories"], "every pair of box collections of any size and layout, both argument orders",
  "Tests print trees of a few boxes; none compares with the brute-force pairs.",
  ["toolbox/src/AABBtree.cc","toolbox/src/aabb.cc"], [M("tree build and traversal", "toolbox/src/AABBtree.cc"), M("box overlap", "toolbox/src/aabb.cc: intersects")],
  ["AABBtree::build, intersection, isEmpty"])

p("C24", "Geometric intersections report the true common set of two primitives",
  "For two non-degenerate primitives (points, lines, rays, planes, segments, triangles, discs, balls; every pair the generic query supports, that is all but: two triangles or discs in one plane, and a ball with a point, triangle, disc or ball), the generic query Intersection(entity, entity) returns their whole common set: nothing when they have no common point, otherwise the point, segment, ray, line, triangle, disc or plane they share. The answer does not depend on the order of the operands, on the order in which vertices are listed, on the length or (for lines, planes, discs) the sense of direction vectors, or on where the pair is placed. The typed overloads agree with it for the kind of result they are named after: a typed query succeeds exactly when the common set is of that kind (point results for crossing lines, rays and segments and for a line that is not parallel to a flat primitive; segment results for collinear or coplanar operands, for balls, and for two flat primitives), and the triangle-triangle test answers whether they have a common point. Three planes meet in a point exactly when their normals are independent, and in the right one. Tangencies, a ray starting on a flat primitive, and flat or coplanar operands that touch in a single point are outside the claim.",
  ["inputs"], "every pair of supported primitives, any vertex order, direction length and placement",
  "The geometry tests were not wired into the build; the enve tests print only tyre-level results.",
  ["toolbox/src/intersection.cc","toolbox/src/collinear.cc","toolbox/src/coplanar.cc","toolbox/src/parallel.cc","toolbox/src/entity.cc"],
  [M("pairwise intersections", "toolbox/src/intersection.cc"), M("generic dispatch", "toolbox/src/intersection.cc: Intersection(entity,entity)")],
  ["acme::Intersection(...)"])

p("C25", "Geometric primitives satisfy their measures and relations",
  "Primitives report correct derived data: kind, degeneracy, containment of a point, lengths, perimeters, areas, volumes, centroids, unit directions and normals, edges, laying planes, barycentric coordinates, (signed) distances to planes and boxes, and a bounding box that exists exactly for bounded primitives and bounds them (exactly, except for discs, where it may be as large as the ball's). The parallel, orthogonal, collinear and coplanar relations, generic or typed, hold exactly when the underlying vectors and points satisfy them, whatever the order of the operands, their vertex order or their placement. Translating, rotating or transforming a primitive gives the primitive of the mapped points; reversing, swapping or normalizing changes what it says and nothing else, and reversing twice changes nothing. Boxes overlap, merge, contain and translate as closed boxes of points do.",
  ["inputs"], "every primitive and every similarity",
  "No test of the geometry layer asserts a value.",
  ["toolbox/src/plane.cc","toolbox/src/disk.cc","toolbox/src/triangle.cc","toolbox/src/segment.cc","toolbox/src/line.cc","toolbox/src/ray.cc","toolbox/src/ball.cc","toolbox/src/aabb.cc","toolbox/src/parallel.cc","toolbox/src/orthogonal.cc","toolbox/src/collinear.cc","toolbox/src/coplanar.cc"],
  [M("measures", "toolbox/src/{plane,disk,triangle,segment,line,ray,ball,aabb}.cc"), M("relations", "toolbox/src/{parallel,orthogonal,collinear,coplanar}.cc")],
  ["acme primitive methods and relation predicates"])

p("C26", "Hub pose commands compose and are reported faithfully",
  "Starting from the identity, transform replaces the hub pose, translate and rotate compose on the right (in the hub's own axes), and setup replaces it by the pose given; translation, rotation, linear part, axes x, y, z, transformation and Euler angles always report that pose. No other call changes the pose.",
  ["histories"], "every sequence of transform/translate/rotate/setup/resize/query",
  "Tests set a pose once and print it.",
  ["src/shell.cc"], [M("pose", "src/shell.cc: translate, rotate, transform, setup, x, y, z, eulerAngles")],
  ["shell::transformation, translation, rotation, linear, x, y, z, eulerAngles"])

p("C27", "Reported contacts are physically admissible",
  "After every setup on valid input, every reported value is finite; normals are unit vectors, and each rib's friction lies between the least and greatest friction of the ground it was given (or is 0 out of contact). Area and volume are non-negative, volume is at most half the disc area times rib width for each ground element involved, a contact point lies within its rib's radius of the rib centre, and depth lies between 0 and the rib radius on flat ground with the hub above it.",
  ["inputs","histories"], "every mesh, plane, shape, rib count, pose and method",
  "No test asserts any bound on any output.",
  ["src/rib.cc","src/shell.cc"], [M("output computation", "src/rib.cc"), M("aggregation", "src/shell.cc")],
  ["all contact accessors after shell::setup"])

p("C28", "A collection reports, removes and searches exactly its members",
  "A collection of primitives contains exactly what was given to it, pushed and not removed, in order. Its size, its contain/are/is/count questions for every kind (points to balls, bounded, unbounded, degenerate) and its count table agree with those members; a remove call takes out exactly the members of that kind and keeps the others; clear empties it; translation moves every member. Building its tree succeeds exactly when all members are bounded, the boxes it reports bound the members, and a search of an up-to-date collection against a box, boxes, a tree or another collection returns exactly the members (or pairs) whose boxes meet; intersecting all members returns the common set of every pair.",
  ["inputs","histories"], "every sequence of construction, push, remove, clear, resize, translation, build and search",
  "No test uses a collection.",
  ["toolbox/src/collection.cc","toolbox/src/AABBtree.cc"],
  [M("collection queries and removal", "toolbox/src/collection.cc"), M("candidate search", "toolbox/src/collection.cc: intersection")],
  ["acme::collection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
