import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I=["inputs"]; IH=["inputs","histories"]; IC=["inputs","configurations"]
T="The tests print values for one fixed tyre, pose and ground and contain no assertion; "
p("P01","Local ground query returns exactly the overlapping triangles",
 "For every triangle mesh (built from triangles or loaded from a file, also an empty one) and every query box, the local-ground query returns exactly the mesh triangles whose axis-aligned bounding box overlaps the query box (touching counts as overlapping), each exactly once. It reports true exactly when at least one triangle is returned, and the answer does not depend on the ids given to the triangles.",
 IC,"every mesh of any size and layout, every query box",
 T+"the tree shape depends on the mesh, so a dropped or duplicated triangle shows only for particular layouts.",
 ["src/mesh.cc","toolbox/src/AABBtree.cc","toolbox/src/aabb.cc"],
 [("mesh::intersection, buildAABBtree, updateBBoxes","src/mesh.cc"),("AABBtree::build, AABBtree::intersection","toolbox/src/AABBtree.cc"),("aabb::intersects, aabb::merged","toolbox/src/aabb.cc")],
 ["ground::mesh::intersection"])
p("P02","Ground triangle: upward unit normal, tight box, non-negative friction",
 "A ground triangle built from three vertices carries a normal that is perpendicular to its plane, of unit length and never pointing downward whatever the vertex order, and a bounding box whose corners are exactly the componentwise minimum and maximum of its vertices. It keeps the given vertices, id and friction, and a negative or NaN friction coefficient is rejected with an exception.",
 I,"all vertex triples (non-degenerate for the normal), ids and friction values",
 T+"they build only a handful of triangles with one winding and positive friction.",
 ["src/triangleground.cc","toolbox/src/triangle.cc","toolbox/src/aabb.cc"],
 [("triangleground constructors, updateNormal, updateBBox","src/triangleground.cc"),("triangle::normal","toolbox/src/triangle.cc"),("aabb::clamp","toolbox/src/aabb.cc")],["ground::triangleground accessors"])
p("P03","Ribs tile the tyre width evenly and follow the profile",
 "A shell built or resized with n >= 1 ribs has exactly n ribs and n result slots; rib i is a disk in the x-z plane centred at (0, -L + (2i+1)L/n, 0) with width 2L/n, where L is the surface half width, radius and inclination angle equal to the profile radius and profile angle at that lateral position, and id i. Asking for zero ribs is rejected with an exception, and so is a profile that yields a non-positive or NaN rib radius.",
 ["inputs","configurations","histories"],"every rib count, every profile, any earlier history of the shell object",
 T+"one rib count and one profile per test; slot count and positions are not checked.",
 ["src/shell.cc","src/rib.cc"],[("shell constructor, resize","src/shell.cc"),("rib constructor","src/rib.cc")],["shell::size, ribRadius, ribCenter, ribWidth, ribAngle"])
p("P04","Profile radius, slope and angle follow the super-ellipse on its domain",
 "For a profile with parameters Rx, Mx, Ry, My, Ly the radius at lateral coordinate y is Rx*(1-(|y|/Ry)^My)^(1/Mx), the slope is the derivative of that function (zero within the tolerance of the centre line, odd in y) and the angle is the arctangent of the slope. A coordinate outside [-Ly, Ly] is rejected with an exception by all three, and the maximum radius and half width reported are Rx and Ly.",
 I,"all profile parameters and all coordinates",
 T+"the profile is only evaluated at the rib centres of one or two tyres.",
 ["src/shape.cc","src/shell.cc"],[("shape::surfaceRadius, surfaceDerivative, surfaceAngle, checkWidthBound","src/shape.cc"),("shell forwarding functions","src/shell.cc")],["shape and shell surface* functions"])
p("P05","No contact yields the neutral result and false",
 "Whenever a rib finds no contact with the ground - by either method, on flat ground or on a mesh - it returns false and its result is the neutral one: contact point at the lowest point of the rib (pose applied to rib centre minus radius along local z), normal equal to the pose's local z axis, and friction, depth, area and volume all zero. When a rib does report contact it returns true. A shell evaluated against a mesh with no triangle near it returns false and leaves that neutral result in the slot of every rib, whatever the slots held before.",
 I,"all poses, ribs, grounds and methods",
 T+"the airborne case is not exercised with checks.",
 ["src/rib.cc"],[("rib::envelop(pose), envelopGeometric, envelopSampling","src/rib.cc")],["rib::envelop"])
p("P06","Shell evaluation: pose adopted, every rib evaluated, true iff any contact",
 "Evaluating a shell against a mesh or a flat ground adopts the given pose, recentres the bounding cube on it, and stores for every rib the result of evaluating that rib at that pose with the requested method against the flat ground or against its own candidate triangles; if a mesh has no triangle near the shell every rib gets the no-contact result. The evaluation returns true exactly when at least one rib reports contact. A method name other than \"geometric\" or \"sampling\" is rejected with an exception whenever a rib has to be evaluated against a ground.",
 ["inputs","configurations","histories"],"all poses, rib counts, grounds, methods and earlier evaluations of the same shell",
 T+"they evaluate shells where the last rib and the others agree, so the combination over ribs is never observed.",
 ["src/shell.cc","src/rib.cc"],[("shell::setup (mesh, flat), transform, updateBBox","src/shell.cc"),("rib::envelop dispatch","src/rib.cc")],["shell::setup, shell::contact* accessors"])
p("P07","Candidate refinement never drops a triangle crossing a rib plane",
 "After the per-rib refinement, each rib's candidate list is, in the original order and without repetition, exactly the local triangles whose three vertices do not all lie strictly on the same side of that rib's mid plane (the plane orthogonal to the shell's lateral axis through the rib centre); with refinement switched off it is the whole local list. Nothing from an earlier evaluation remains in the lists.",
 ["inputs","configurations","histories"],"all local triangle lists, poses, rib layouts and earlier contents",
 T+"a wrongly dropped triangle needs a vertex exactly on, or a triangle straddling, one rib plane.",
 ["src/shell.cc","toolbox/src/plane.cc"],[("shell::refineIntersection","src/shell.cc"),("plane::signedDistance, normalize","toolbox/src/plane.cc")],["shell::setup"])
p("P08","Flat ground, geometric method: exact circular-segment contact",
 "On flat ground with the geometric method a rib reports contact exactly when its disk meets the ground plane in a chord longer than the tolerance; then the contact point is the chord midpoint, depth d is the radius minus the distance from rib centre to that point, area is 2*sqrt(d(2R-d)) times the rib width, volume is the circular segment of height d times the width, and friction is that of the ground. The contact normal is the unit vector along the ground normal with its component along the chord-to-rib tangent removed.",
 I,"all rib, pose and flat ground parameters",
 T+"one pose on one slope; the outputs are printed, not compared.",
 ["src/rib.cc","toolbox/src/intersection.cc"],[("rib::envelopGeometric(flat)","src/rib.cc"),("Intersection(plane, disk), Intersection(plane, plane)","toolbox/src/intersection.cc")],["rib::envelop, shell::contact*"])
p("P09","Sampling method: contact from the four vertical samples",
 "With the sampling method a rib is probed by four world-vertical lines through the rib centre offset by +-0.1 radius along local x and +-0.3 width along local y; it can report contact only if all four hit the ground. The contact point and friction are the means of the four hits, the normal is the unit cross product of the x and y sample differences, depth is radius*|normal . e_z| minus the distance from rib centre to contact point (e_z the third axis of the frame built from the normal and the rib's lateral axis), and contact is reported exactly when that depth is positive, with area and volume of the circular segment of that depth times the width.",
 I,"all rib, pose and ground parameters, flat and mesh",
 T+"samples at one pose; outputs printed only.",
 ["src/rib.cc"],[("rib::envelopSampling (mesh, flat)","src/rib.cc")],["rib::envelop, shell::contact*"])
p("P10","A sampling line picks the highest hit with that triangle's friction",
 "A vertical sample over a mesh succeeds exactly when the line meets at least one of the candidate triangles, and then yields the hit with the greatest height together with the friction of the very triangle that was hit. Over flat ground it yields the crossing point with the plane and the ground's friction.",
 I,"all candidate lists (any length and order) and lines",
 T+"stacked triangles and unequal frictions do not occur in the test meshes in a checked way.",
 ["src/rib.cc","toolbox/src/intersection.cc"],[("rib::samplingLine (mesh, flat)","src/rib.cc")],["rib::envelopSampling"])
p("P11","Mesh, geometric method: volume-weighted aggregate over all triangles",
 "With the geometric method on a mesh a rib reports contact exactly when the triangles whose cut with the rib disk is a non-degenerate chord have a positive total circular-section volume and a total area or volume above the tolerance; total area and volume are the sums over all those triangles (chord length, respectively section area, times rib width). Contact point, normal (then normalised) and friction are the volume-weighted means of the per-triangle values, depth is radius minus the distance of that point from the rib centre, and the result does not depend on the order in which triangles are listed.",
 I,"all candidate lists (any length and order), ribs and poses",
 T+"they never permute or split the triangle list and check no sum.",
 ["src/rib.cc"],[("rib::envelopGeometric(mesh)","src/rib.cc")],["rib::envelop, shell::contact*"])
p("P12","Shell totals are sums and volume-weighted means of its ribs' results",
 "The total contact area and volume of a shell are the sums of its ribs' areas and volumes. When the total volume reaches the tolerance, the total contact point, normal (then normalised), friction and depth are the volume-weighted means of the ribs' values; otherwise they are the plain means over all ribs.",
 IC,"all rib counts and rib results",
 T+"they print totals of a few shells and compare nothing.",
 ["src/shell.cc"],[("shell::contactPoint, contactNormal, contactFriction, contactDepth, contactArea, contactVolume (totals)","src/shell.cc")],["shell::contact*(total)"])
p("P13","Per-rib readings and the per-rib vectors agree slot by slot",
 "For every rib index the single-rib reading of contact point, normal, friction, depth, area, volume, contact frame and relative angles is that rib's own stored result, and the vector form of each reading has exactly one element per rib, element i being equal to the single-rib reading for i, whatever the vector held before. Reading never changes the shell.",
 ["inputs","configurations","histories"],"all rib counts, results and prior contents of the output vectors",
 T+"they only print vectors that were pre-sized by the caller.",
 ["src/shell.cc"],[("shell::contact*(i), contact*(vector), relativeAngles(vector), contactPointAffine(vector)","src/shell.cc")],["shell::contact*"])
p("P14","Contact frames and relative angles are consistent with the contact result",
 "The contact frame of a rib (and of the shell) has the contact point as origin, the contact normal as z axis, x axis the unit vector along (shell lateral axis x normal), y axis the unit vector along (normal x x axis), and last row (0,0,0,1). The relative angles are the Z-X-Y Euler angles of the shell's orientation expressed in that frame, with the rib's inclination subtracted from the first stored component for the per-rib form.",
 I,"all poses, contact points and normals",
 T+"printed for one pose.",
 ["src/shell.cc"],[("shell::contactPointAffine, relativeAngles, eulerAngles","src/shell.cc")],["shell::contactPointAffine, relativeAngles"])
p("P15","Mesh loading either reproduces the file's triangles or raises an error",
 "Loading a triangle file into an empty mesh (or constructing a mesh from it) gives one triangle per element line, in file order, with the element's nodes transformed by the given pose, the element's friction (or the friction argument), and ids counting up from zero. A path with the wrong extension, an unreadable file, a node or element line with the wrong number of fields, a negative or out-of-range node index, a negative friction, or an empty mesh is rejected with an exception and never read out of bounds.",
 ["inputs","fault_sequences"],"all file contents and poses",
 T+"they load well-formed files only.",
 ["src/mesh.cc"],[("mesh::load (rdf, obj), split, tail, firstToken","src/mesh.cc")],["ground::mesh constructors"])
p("P16","Simulink interface maps buses to shell calls and back",
 "Initialisation builds the mesh from the rdf or obj file named by ENVE_GROUND_PATH (anything else is rejected with an exception), the flat ground at the given height with the given friction, and the shell with the given rib count and profile. Each step reads the 4x4 hub pose column by column, evaluates the shell with the selected method and ground (mesh, falling back to flat ground when no mesh contact is reported, with the in-mesh flag telling which; or flat ground with the flag true), and writes the total depth, friction and contact frame and those of each rib column by column into its own slots. Slots of ribs that do not exist are NaN, nothing outside the bus arrays is written, and an unknown method or ground selector is rejected with an exception.",
 ["inputs","configurations","histories"],"all input buses, rib counts and selector values",
 T+"the S-function test runs one configuration and checks no output.",
 ["sfun/src_sfun/enve_sfun_interface.cc"],[("enve_sfun_out, enve_sfun_init","sfun/src_sfun/enve_sfun_interface.cc")],["enve_sfun_init, enve_sfun_out"])
p("P17","Ground-contact intersections are found exactly and lie on both entities",
 "For a line or ray or segment against a plane or a triangle, for two planes, and for a plane, or a triangle, against a disk - given by type or as entities of unknown type, in either order - the intersection reported lies on both entities, and it is reported exactly when it exists within the tolerance and the configuration is not parallel or coplanar. For a plane and a disk it is the full chord of the disk, and for a triangle and a disk the part of the triangle's plane section inside both.",
 I,"all entity positions and orientations",
 T+"they sample a few hand-picked configurations and print the outcome.",
 ["toolbox/src/intersection.cc"],[("Intersection overloads on lines, planes, triangles and disks","toolbox/src/intersection.cc")],["acme::Intersection"])
p("P18","Lengths, areas, centroids and distances match their geometric definition",
 "Segment length, triangle perimeter and area, disk perimeter and area, ball surface and volume, centroids of segments and triangles, barycentric coordinates, and the signed and unsigned distance of a point from a plane (for a unit normal) equal their geometric definitions; translating an entity by a vector leaves measures unchanged and moves every defining point by exactly that vector.",
 I,"all entity parameters",
 T+"not asserted anywhere.",
 ["toolbox/src/segment.cc","toolbox/src/triangle.cc","toolbox/src/disk.cc","toolbox/src/ball.cc","toolbox/src/plane.cc"],
 [("length, perimeter, area, volume, centroid, barycentric, distance, translate","toolbox/src/*.cc")],["acme entity member functions"])
p("P19","Parallel, orthogonal, collinear and coplanar tests mean what they say",
 "For entities with unit directions and normals and any non-negative tolerance: straight entities (lines, rays, segments, in any mix) are reported parallel exactly when the cross product of their directions vanishes within the tolerance and orthogonal exactly when their dot product does; planar entities (planes, triangles, disks) are compared in the same way through their normals; a straight entity is parallel to a planar one exactly when its direction is orthogonal to the normal, and orthogonal to it exactly when its direction is parallel to the normal. Straight entities are collinear exactly when they are parallel and the vector joining their defining points is parallel to them, and coplanar exactly when that vector is orthogonal to the cross product of their directions; a straight and a planar entity are coplanar exactly when parallel with a point of the straight one on the plane, and planar ones when parallel with the second's defining point on the first's plane. The parallel and orthogonal answers do not depend on the order of the two entities.",
 I,"all entity pairs and tolerances",
 T+"a few hand-picked pairs, not asserted.",
 ["toolbox/src/parallel.cc","toolbox/src/orthogonal.cc","toolbox/src/collinear.cc","toolbox/src/coplanar.cc"],
 [("IsParallel, IsOrthogonal, IsCollinear, IsCoplanar","toolbox/src/*.cc")],["acme predicates"])
p("P20","Flat ground accepts only upward normals and stores a unit normal",
 "A flat ground built from friction, origin and normal keeps the origin and friction and stores the normal scaled to unit length with its direction unchanged. Negative or NaN friction, or a normal whose vertical component is not positive, is rejected with an exception.",
 I,"all frictions, origins and normals",
 T+"built with valid parameters only.",
 ["src/flat.cc","toolbox/src/plane.cc"],[("flat constructors, copy","src/flat.cc"),("plane::normalize","toolbox/src/plane.cc")],["ground::flat constructors and accessors"])
p("P21","Copying preserves every attribute; approximate equality compares them all",
 "Copying a profile, rib, ground triangle, flat ground or geometric entity yields an object all of whose observable attributes equal those of the source, and leaves the source unchanged. Approximate equality of two such objects is true exactly when every compared attribute agrees within the tolerance passed by the caller.",
 I,"all objects and tolerances",
 T+"no test copies or compares them.",
 ["src/shape.cc","src/rib.cc","src/triangleground.cc","src/flat.cc"],[("copy, isApprox","src/*.cc")],["copy and isApprox member functions"])
p("P22","Membership of a point means what it says, with the given tolerance",
 "A point is inside a plane exactly when its distance from it is below the tolerance; inside a disk when moreover it is no farther from the centre than the radius; inside a ball when it is no farther from the centre than the radius; inside a segment exactly when its distances from the two ends add up to the length within the tolerance; inside a triangle exactly when its barycentric coordinates lie in [0,1] and it lies in the plane of the triangle, within the tolerance; inside a line when it is the origin or the unit vector towards it is parallel to the direction within the tolerance, and inside a ray when moreover it is not behind the origin. Intersecting a point with a line, ray, plane, segment, triangle or disk - by type or as entities, in either order - yields that point exactly when it is inside, and two points meet exactly when they agree within the tolerance relative to the smaller of the two.",
 I,"all points, entities and tolerances (unit normals and directions, non-degenerate triangles)",
 T+"a few hand-picked points, with the default tolerance.",
 ["toolbox/src/line.cc","toolbox/src/ray.cc","toolbox/src/segment.cc","toolbox/src/plane.cc","toolbox/src/disk.cc","toolbox/src/ball.cc","toolbox/src/triangle.cc","toolbox/src/intersection.cc"],
 [("isInside member functions","toolbox/src/*.cc"),("Intersection(point, *), Intersection(entity, entity)","toolbox/src/intersection.cc")],["isInside, acme::Intersection"])
p("P23","Axis-aligned boxes: overlap, union, containment and ordering are exact",
 "Two boxes overlap exactly when their closed intervals overlap on all three axes (a symmetric relation), and their common box is the componentwise max of minima and min of maxima; the union of a non-empty list of boxes is the smallest box containing all of them; the box of three points is their tight box. Containment of a point is closed on every face, reordering swaps exactly the components whose minimum exceeds the maximum, and translation moves both corners. The distance of a point is the distance to the closest point of the box (zero inside), the exterior distance that to the farthest corner; a box is degenerated when its corners coincide within the relative tolerance.",
 I,"all boxes, points and lists of boxes",
 T+"a few boxes printed.",
 ["toolbox/src/aabb.cc","toolbox/src/intersection.cc"],[("aabb::intersects, merged, clamp, isInside, updateMaxMin, translate","toolbox/src/aabb.cc"),("Intersection(aabb, aabb)","toolbox/src/intersection.cc")],["acme::aabb"])
p("P24","Shell pose accessors and bounding cube track the pose set",
 "After a pose is set, the shell reports exactly that pose: its translation, linear part, rotation (the linear part, for a rigid pose), axes (the columns of the linear part) and Z-X-Y Euler angles. The bounding box, once updated, is the axis-aligned cube centred on the shell origin with half side equal to the maximum profile radius, for every pose and every history of earlier poses.",
 IH,"all poses and histories of pose changes",
 T+"printed for one pose.",
 ["src/shell.cc"],[("shell::transform, translation, linear, rotation, x, y, z, eulerAngles, updateBBox","src/shell.cc")],["shell accessors"])
p("P25","Crossings, overlaps and sections of geometric entities are exact",
 "Two lines, rays or segments (in any mix) that are not parallel meet exactly when their distance is within the tolerance and their nearest points are on both of them, within the tolerance, and the result is that point of the first (the common point, when they cross); neither operand is changed. Collinear ones overlap in the common line, ray or segment: the same line, the ray or segment lying on the line, the ray with the farther origin, the segment between two facing rays (none when they face away), the part of the segment ahead of the ray, the common part of two segments. A line, ray, segment, plane, triangle or disk lying in a plane meets the plane in itself. A line, ray or segment meets a ball in its part inside the ball and a plane meets a ball in the section circle; it meets a disk it pierces in the crossing point when that is inside the disk. A ray or segment meets a coplanar triangle, and a ray a coplanar disk, in the part inside; two triangles, or two disks, in different planes meet in the common part of their sections; three planes with independent normals meet in their common point. The same results are obtained for entities of unknown type, in either order, and no result is reported otherwise. Two triangles are reported to meet, without a result, exactly when they have a common point, also when they lie in one plane. A pair of kinds with no supported result is rejected with an exception.",
 I,"all positions, orientations and sizes (unit directions)",
 T+"a few hand-picked configurations are printed.",
 ["toolbox/src/intersection.cc","toolbox/src/segment.cc"],[("Intersection overloads and Intersection(entity, entity)","toolbox/src/intersection.cc")],["acme::Intersection"])
p("P26","Moving, rotating and reversing entities and the shell is exact and rigid",
 "Transforming an entity by a pose maps its positions by the pose and its directions by the linear part only, and keeps its radius. Rotating an entity by an angle about a unit axis turns its positions and directions about the origin by that angle (right hand rule), so lengths are kept. Reversing negates the direction of a line, ray or plane and swaps the ends of a segment; normalising scales the direction to unit length; swapping two entities exchanges them; the vector of a segment goes from its first to its second vertex, and unit vectors and normals have length one. The angle between two vectors is the angle between 0 and pi whose cosine is their normalised scalar product. Rotating the shell composes its pose with the rotation in its own frame and keeps its position; translating it moves the position only. All of this holds from any earlier state of the object.",
 IH,"all entities, poses, axes, angles and histories",
 T+"no test moves or rotates an entity and checks the result.",
 ["toolbox/src/entity.cc","toolbox/src/point.cc","toolbox/src/line.cc","toolbox/src/ray.cc","toolbox/src/plane.cc","toolbox/src/segment.cc","toolbox/src/triangle.cc","toolbox/src/disk.cc","toolbox/src/ball.cc","toolbox/src/math.cc","src/shell.cc"],
 [("entity::rotate","toolbox/src/entity.cc"),("transform, reverse, normalize, swap, toVector, toUnitVector, unitNormal","toolbox/src/*.cc"),("Transform, Angle","toolbox/src/math.cc"),("shell::rotate, shell::translate","src/shell.cc")],["entity accessors after the call","shell::translation, linear"])
p("P27","Kinds, levels, enclosing boxes and degeneracy of entities are right",
 "Every entity reports its own kind, and only that one, by its kind tests, its name and its level (none, point, line, ray, plane, segment, triangle, disk, ball in increasing order). Exactly the bounded ones - points, segments, triangles, disks and balls - are clampable; their enclosing box is the tight box of the vertices (points, segments, triangles) or the centre plus and minus the radius on every axis (disks and balls) and so contains every point of the entity, and for the unbounded ones false is reported and nothing is written. An entity is degenerated exactly when its direction or normal is shorter than the tolerance, two of its vertices coincide within the tolerance, or its radius is below the tolerance.",
 I,"all entities and tolerances",
 T+"only one or two kinds are ever asked.",
 ["toolbox/src/entity.cc","toolbox/src/none.cc","toolbox/src/point.cc","toolbox/src/line.cc","toolbox/src/ray.cc","toolbox/src/plane.cc","toolbox/src/segment.cc","toolbox/src/triangle.cc","toolbox/src/disk.cc","toolbox/src/ball.cc"],
 [("is*, level, type, clamp, isClampable, isNonClampable, isDegenerated","toolbox/src/*.cc")],["acme entity member functions"])
p("P28","What is stored is what is read: constructors and accessors agree",
 "An entity, box, profile, rib, ground triangle or flat ground constructed from numbers or points holds exactly those numbers in the components its accessors name; writing through an accessor changes exactly that component and nothing else; reading changes nothing. A vertex index of three or more is rejected with an exception. A profile, ball, flat ground, rib or ground triangle constructed from nothing holds not-a-number in every coordinate and size. A cleared box holds no coordinates (all six are not-a-number). The width check of a shell accepts exactly the coordinates within its half width, and the triangles of a mesh are handed out by index in their stored order.",
 I,"all values, all components, all indices",
 T+"accessors are used, not checked.",
 ["toolbox/src/line.cc","toolbox/src/ray.cc","toolbox/src/plane.cc","toolbox/src/segment.cc","toolbox/src/triangle.cc","toolbox/src/disk.cc","toolbox/src/ball.cc","toolbox/src/aabb.cc","src/shape.cc","src/rib.cc","src/triangleground.cc","src/flat.cc","src/mesh.cc","src/shell.cc"],
 [("constructors and accessors","src/*.cc, toolbox/src/*.cc"),("shell::checkWidthBound","src/shell.cc"),("mesh::ptrTriangleGround, ptrTrianglesGround","src/mesh.cc")],["accessors"])
p("P29","A collection of entities answers, removes, moves and searches completely",
 "A collection is the ordered list of the entities put into it. For every kind (none, point, line, ray, plane, segment, triangle, disk, ball) and for degenerated, clampable and non-clampable, the collection contains such entities exactly when at least one is, consists of them exactly when all are, counts all of them (also by the name of the kind), and answers for entity i what that entity answers; removing a kind leaves exactly the others, in their order. Translating, rotating or transforming the collection does so to every entity once. Its boxes are one per entity, in order, with the bounds of the entity and its index as identifier, and an unbounded entity is rejected with an exception. Once its tree is built, a query with a box, a list of boxes, a tree or another collection returns exactly the entities (pairs of entities) whose boxes overlap, each as often as it overlaps, and true exactly when there is one; nothing is found in, or by, an empty list. Intersecting the pairs of its entities lists, for each entity in order, its intersection with itself and with each later one.",
 IH,"all lists of entities, kinds, tolerances, query boxes and earlier operations",
 T+"collections are not tested at all.",
 ["toolbox/src/collection.cc","toolbox/src/AABBtree.cc"],
 [("contain*, are*, is*, count*, remove*","toolbox/src/collection.cc"),("translate, rotate, transform","toolbox/src/collection.cc"),("clamp, buildAABBtree, intersection","toolbox/src/collection.cc")],["acme::collection"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
