#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
IV="src/datastructure/Interval.cpp"; FS="include/hrm/datastructure/FreeSpace-inl.h"
FS2="src/datastructure/FreeSpace2D.cpp"; FS3="src/datastructure/FreeSpace3D.cpp"
LI="src/geometry/LineIntersection.cpp"; SE="src/geometry/SuperEllipse.cpp"; SQ="src/geometry/SuperQuadrics.cpp"
EF="src/util/ExponentialFunction.cpp"; MG="src/geometry/MeshGenerator.cpp"; TF="src/geometry/TightFitEllipsoid.cpp"
M2="src/datastructure/MultiBodyTree2D.cpp"; M3="src/datastructure/MultiBodyTree3D.cpp"
IP="src/util/InterpolateSE3.cpp"; DM="src/util/DistanceMetric.cpp"; HI="include/hrm/planners/HighwayRoadMap-inl.h"
H2="src/planners/HRM2D.cpp"; H3="src/planners/HRM3D.cpp"; PH="src/planners/ProbHRM3D.cpp"; KC="src/planners/HRM2DKC.cpp"
AB="include/hrm/planners/HRM3DAblation-inl.h"; ES="src/util/EllipsoidSeparation.cpp"; PP="src/geometry/PointInPoly.cpp"
O2="src/planners/ompl_interface/OMPL2D.cpp"; O3="src/planners/ompl_interface/OMPL3D.cpp"; OA="src/planners/ompl_interface/OMPL3DArticulated.cpp"
OI="include/hrm/planners/ompl_interface/OMPLInterface-inl.h"; CO="src/util/EllipsoidSQCollisionFCL.cpp"

prop("P01","Interval operations are exact set algebra",
 "For every list of closed intervals, the union operation returns sorted, pairwise disjoint intervals covering exactly the points covered by the inputs, and the intersection operation returns exactly the common part (an empty list when there is none). The complement of a list of pairwise disjoint inner intervals in one outer interval returns exactly the points of the outer interval that lie in the interior of no inner interval (all of it when there are no inner intervals).",
 "all finite lists of closed intervals, any order, any overlaps, any length",
 "TestGeometry exercises the interval code only through a handful of planner runs; the claim is over every list length, ordering and overlap pattern.",
 [IV],[("sort then merge of overlapping neighbours",IV+" unions"),("max start / min end",IV+" intersects"),("gaps of sorted inner list clipped to outer",IV+" complements")],
 observe=["Interval::unions","Interval::intersects","Interval::complements"])
prop("P02","Free segments on a sweep line are arena minus obstacles",
 "For every table of recorded arena and obstacle intervals (with undefined entries ignored), every point of a free segment computed for a sweep line lies in all defined arena intervals and in the interior of no defined obstacle interval, every point common to all defined arena intervals (at least one) and in no defined obstacle interval lies in a free segment, and the three lists stored for each line hold each segment's lower end, upper end and midpoint in order.",
 "all interval tables: any number of lines, bodies, obstacles, any overlap, any undefined entries",
 "Existing tests run two fixed environments; the union/complement interaction with undefined entries and with nested, touching or identical obstacles is over all tables.",
 [FS,IV],[("filtering undefined entries, complement of union in intersection",FS+" computeSweepLineFreeSegment"),("per-line copy-out",FS+" computeFreeSegment")],
 observe=["FreeSpaceComputator::getFreeSegment"])
prop("P03","Segment enhancement keeps vertices in free space",
 "Refining the free segments with extra vertices keeps the lower, upper and middle coordinate lists of every sweep line the same length, keeps every lower <= middle <= upper, keeps every original middle coordinate, and every middle coordinate it stores lies inside one of the free segments computed for that same sweep line.",
 "all families of per-line sorted disjoint segments, any number of lines and segments",
 "Tests look only at the final path of fixed scenes; an extra vertex placed on the wrong line or outside a free segment needs a specific arrangement of neighbouring segments.",
 [FS],[("pairwise neighbour-line comparison and insertion",FS+" enhanceFreeSegment")],
 observe=["FreeSpaceComputator::getFreeSegment"])
prop("P04","Line and segment versus polygon intersection is exact",
 "For every closed polygon and horizontal line, the returned abscissae are exactly one point per non-horizontal edge whose closed vertical range contains the line, each lying on that edge at the line's height, in edge order. For every segment, the segment-polygon test answers yes whenever some polygon edge properly crosses the segment, and answers yes only if some edge properly crosses it or is parallel to it.",
 "all polygons with at least one vertex, all line heights and segments",
 "Only a few axis-aligned examples are tested; horizontal edges, vertices on the line, the closing edge and parallel edges need all inputs.",
 [LI],[("edge traversal with closing edge and range filter",LI+" intersectHorizontalLinePolygon2D"),("2x2 solve and open-interval test",LI+" isIntersectSegPolygon2D")])
prop("P05","Line versus triangle and mesh intersection is exact",
 "The line-triangle test accepts exactly when the line is not parallel to a non-degenerate triangle's plane and the piercing point has barycentric coordinates within tolerance of the triangle, and then reports that piercing point, which lies on the line. The mesh tests return only such piercing points of faces of the mesh, and return points for every line that pierces a face: a quick rejection never drops a hit.",
 "all lines, triangles and triangle meshes with valid face indices",
 "Tests check a few hand-picked lines against one mesh; the quick rejections and the barycentric test must hold for all positions.",
 [LI],[("plane intersection and barycentric test",LI+" intersectLineTriangle3D"),("bounding rejection and face scan",LI+" intersectVerticalLineMesh3D, intersectLineMesh3D")])
prop("P06","Recorded obstacle chords cover every boundary crossing",
 "For every sweep line and every configuration-space obstacle boundary, the recorded obstacle interval runs from the smallest to the largest crossing of the line with that boundary, and is undefined exactly when there is no crossing; intervals of one line or obstacle never land in another's slot. For an arena boundary the recorded interval spans the planning limits and every crossing.",
 "all boundaries, all sweep-line positions including lines through polygon vertices or mesh edges, all numbers of lines",
 "The planners' tests use generic positions; a line exactly through a boundary vertex, or refined line counts, never occur in them.",
 [FS2,FS3,FS],[("min/max of crossings per line and boundary",FS2+" computeIntersectionInterval; "+FS3+" computeIntersectionInterval"),("table sizing",FS+" setup")],
 observe=["FreeSpaceComputator::getIntersectionInterval"])
prop("P07","Sampled boundary points lie on the posed surface",
 "For every positive semi-axes, exponent, pose and sample count, each boundary point a superellipse or superquadric reports is, expressed in the body's own frame, a point of its implicit surface, namely the parametric surface point of its sampling angle, and exactly the requested number of points is reported.",
 "all semi-axes > 0, exponents in (0,2), poses and sample counts >= 2",
 "Tests compare a few stored samples; the implicit equation must hold at every sample for every shape and pose.",
 [SE,SQ,EF],[("signed-power parametrisation",EF+" exponentialFunction, exponentialFunctionMatrixForm"),("rotate and translate canonical points",SE+" getOriginShape; "+SQ+" getOriginShape")],
 observe=["SuperEllipse::getOriginShape","SuperQuadrics::getOriginShape"])
prop("P08","Minkowski boundary equals surface point plus ellipsoid support",
 "For every pair of a superellipse (superquadric) and an ellipse (ellipsoid), each reported Minkowski boundary point equals the corresponding boundary point of the first shape plus (for sums) or minus (for differences) the point of the second, centred shape furthest along the first shape's outward normal there.",
 "all semi-axes > 0, exponents in (0,2), all orientations, both signs, every sample",
 "Tests use a couple of shapes and only look at the plan; the closed form must hold for every pair of shapes and orientation.",
 [SE,SQ],[("closed-form gradient and linear map",SE+" getMinkSum2D; "+SQ+" getMinkSum3D")],
 observe=["SuperEllipse::getMinkSum2D","SuperQuadrics::getMinkSum3D"])
prop("P09","Configuration-space boundaries: one per body, correctly shifted",
 "For every robot pose at the origin of the slice and every shape, the robot's Minkowski operation returns one boundary per body, base first and then the links in order, each being the shape's Minkowski boundary with that body at its current orientation, shifted by minus the body's offset from the robot reference point. The configuration-space boundary collects these for every arena with the difference sign and every obstacle with the sum sign, in order, and nothing else. Building a slice of the roadmap records, for that slice, the boundaries of the robot placed with that slice's orientation (and joint values, for articulated robots), and sweeps that slice with them.",
 "all robots with any number of links, all orientations, arenas and obstacles",
 "Tests use one two-link and one three-link robot and never compare individual boundaries.",
 [M2,M3,FS,H2,H3],[("robot of the slice",H2+" constructOneSlice; "+H3+" constructOneSlice"),("base and link boundaries",M2+" minkSum; "+M3+" minkSum"),("collection over arenas and obstacles",FS+" computeCSpaceBoundary")])
prop("P10","Placing a rigid robot moves every body rigidly",
 "After placing a robot at a pose, the base has exactly that pose and every link has the pose composed with the link's pose in the base frame as it was when the link was added; sizes, exponents, sample counts, link count and link order never change. Placing again from any history gives the same result as placing once.",
 "all robots, link counts, poses and sequences of placements",
 "Tests place a few robots at a few poses and check link positions loosely.",
 [M2,M3],[("compose base pose with stored link transform",M2+" robotTF, addBody; "+M3+" robotTF, addBody")],over=("inputs","histories"))
prop("P11","Minimum-volume covering ellipsoid covers both inputs",
 "For every two concentric ellipses or ellipsoids, the computed covering ellipse or ellipsoid is finite, has positive semi-axes and contains both inputs; its reported orientation is a proper rotation consistent with its reported semi-axes.",
 "all positive semi-axes and orientations",
 "Tests check two examples numerically; containment must hold at every orientation and the reported orientation must be valid for every singular-vector sign choice.",
 [TF],[("shrink to sphere, inflate, stretch back, eigen-decompose",TF+" getMVCE2D, getMVCE3D")],observe=["getMVCE2D","getMVCE3D"])
prop("P12","Tightly-fitted ellipsoid covers every sampled orientation",
 "The tightly-fitted ellipsoid of a rotating body contains the body at every one of the interpolated orientations between the two given ones, both ends included, and the planners compute one per body, base first, using each link's orientation composed with the base's.",
 "all semi-axes, orientation pairs, step counts >= 2 and link counts",
 "Tests evaluate one example per dimension; coverage of each intermediate orientation is over all step counts.",
 [TF,H2,H3,PH],[("fold of covering ellipsoids over interpolated orientations",TF+" getTFE2D, getTFE3D"),("per body computation",H2+" computeTFE; "+H3+" computeTFE; "+PH+" computeTFE")])
prop("P13","Interpolated configurations are finite, affine and end-exact",
 "Interpolating two configurations with n >= 1 steps yields n+1 configurations of the same dimension whose first and last are the inputs (orientation up to quaternion sign) and whose translational and joint coordinates are the affine combinations at i/n; for the compound configuration (pose and joints), with zero steps the two inputs are returned and nothing undefined appears.",
 "all configurations of dimension >= 7 with unit quaternions; step counts n >= 1 for the pose, rotation and vector interpolation, n >= 0 for the compound one",
 "Tests use one pair and one step count; zero steps and joint coordinates are not exercised.",
 [IP],[("affine combination",IP+" interpolateRn"),("concatenation of base and joints",IP+" interpolateSE3, interpolateCompoundSE3Rn"),("rotation interpolation",IP+" interpolateSlerp, interpolateAngleAxis")])
prop("P14","Roadmap stays well-formed under every construction step",
 "Every construction step only appends to the roadmap, keeps one weight per edge, never creates an edge to a vertex that does not exist, and gives each new edge the Euclidean distance of its end configurations as weight.",
 "all free-segment families, slices and intermediate roadmaps; all answers of the collision checks",
 "Tests count vertices and edges on fixed scenes; index arithmetic between lines, planes, slices and bridge vertices is over all segment counts.",
 [HI,H2,H3,PH,KC],[("same-slice connection and bridge vertices",HI+" connectOneSlice2D, bridgeVertex; "+H3+" connectOneSlice3D"),("multi-slice connection",H2+" connectMultiSlice; "+H3+" connectMultiSlice; "+PH+" connectMultiSlice; "+KC+" connectMultiSlice"),("refinement connection",H2+" connectExistSlice; "+H3+" connectExistSlice")],
 over=("inputs","histories"),state=[("graphStructure","vertices, edges, weights","include/hrm/planners/PlanningResult.h")])
prop("P15","Every roadmap edge was approved by a transition check",
 "Every edge added to the roadmap joins two configurations for which the applicable transition check answered collision-free, the only exception being neighbouring vertices of one sweep line whose free segments touch; a bridge vertex is added only together with two approved edges.",
 "all roadmaps, all answers of the checks",
 "Tests cannot tell an unchecked edge from a checked one; the claim quantifies over all scenes.",
 [HI,H2,H3,PH,KC],[("check before push",HI+" connectOneSlice2D, bridgeVertex"),("check before push",H2+" connectMultiSlice, connectExistSlice; "+H3+" connectMultiSlice, connectExistSlice, connectOneSlice3D; "+PH+" connectMultiSlice")],over=("inputs","histories"))
prop("P16","A reported path is a walk of the roadmap from start to goal",
 "When a solution is reported, the solved path begins with the requested start, ends with the requested goal and in between visits roadmap vertices such that consecutive ones are joined by a roadmap edge, beginning and ending at selected start and goal neighbours; the reported cost is the sum of the weights of the edges used; when none is reported, no selected start neighbour is connected to a selected goal neighbour and no path vertices are left behind.",
 "all roadmaps and start/goal neighbour sets",
 "Tests check that a path exists on fixed scenes, never its edges or cost.",
 [HI],[("A* predecessor trace and cost",HI+" search"),("path assembly",HI+" getSolutionPath")],observe=["getPlanningResult().solutionPath"])
prop("P17","Same-slice transition checks reject every crossing motion",
 "The same-slice transition check answers free exactly when no configuration-space obstacle boundary of the slice is crossed by the straight segment between the two configurations, taking every obstacle and every crossing into account.",
 "all slices with any number of obstacle boundaries, all configuration pairs",
 "Fixed scenes only; a check that skips an obstacle or a crossing only matters for specific motions.",
 [H2,H3,LI],[("any obstacle polygon crossed",H2+" isSameSliceTransitionFree"),("any mesh crossing strictly between end points",H3+" isSameSliceTransitionFree")])
prop("P18","Multi-slice transition checks test every body at every step",
 "A transition between slices is approved only if, at every interpolated step from the first to the second configuration, every body of the robot placed at that step is outside every obstacle boundary of its bridge slice (or, in the ablation planner, not in collision with any obstacle); a point is inside a boundary when it lies strictly between the extreme crossings of its ray.",
 "all robots, obstacles, configuration pairs and step counts >= 2",
 "Fixed scenes only; skipping one body, one step or one obstacle is invisible there.",
 [H2,H3,AB],[("interpolate, place, test each body",H2+" isMultiSliceTransitionFree, isPtInCFree; "+H3+" isMultiSliceTransitionFree, isPtInCFree"),("collision test per step",AB+" isMultiSliceTransitionFree")])
prop("P19","Roadmap vertices are the free-segment midpoints, indexed exactly",
 "Generating vertices for a slice appends exactly one vertex per stored segment in line order, with the sweep-line coordinates, the segment's middle coordinate and the robot's current orientation (and joint values), and records for every line the index of its first vertex and for the slice its first and one-past-last index. Sweep lines cover the planning limits from end to end at equal spacing.",
 "all segment families and line counts >= 2",
 "Index bookkeeping is only indirectly exercised on fixed scenes.",
 [H2,H3,PH,HI],[("vertex generation",H2+" generateVertices; "+H3+" generateVertices; "+PH+" generateVertices"),("sweep lines",H2+" sweepLineProcess; "+H3+" sweepLineProcess")],over=("inputs","histories"))
prop("P20","Sampling-based validity means no body touches any obstacle",
 "For the sampling-based baseline planners a state is valid exactly when, with the robot placed at that state, the pairwise separation test reports separation for every body against every obstacle, each body and obstacle being tested with its own shape at its own pose.",
 "all robots, obstacle lists and states",
 "The tests only check that planners find paths.",
 [OI,O2,O3,CO],[("all pairs",O2+" isSeparated; "+O3+" isSeparated"),("shape and pose of collision objects",CO+" isCollision, setCollisionObjectFromSQ; "+O2+" setCollisionObject; "+O3+" setCollisionObject"),("placement",O2+" transformRobot; "+O3+" transformRobot")])
prop("P21","Planner states and configuration vectors convert losslessly",
 "Reading a sampling-based planner state into a vector and placing the robot from it use every coordinate in its own place (position, orientation with the scalar part first, then joints), writing a vector into a state does the inverse up to bounds enforcement, and the state space bounds are exactly the given limits.",
 "all states, vectors and bounds",
 "Tests use one start and goal per planner.",
 [O2,O3,OA],[("coordinate copies",O2+" setStateFromVector, setVectorFromState, setStateSpace; "+O3+" ...; "+OA+" ...")])
prop("P22","Ellipse separation test uses the exact characteristic polynomial",
 "For two ellipses or ellipsoids the separation test forms the characteristic polynomial det(lambda*A - B') with exactly the coefficients determined by the two shapes and their relative pose, and reports separation exactly when that polynomial has two distinct negative real roots; the root finder returns roots of the polynomial it was given, one per degree.",
 "all semi-axes > 0 and poses",
 "The 24-term coefficient formulas are exercised with a few poses; only all inputs can settle them.",
 [ES],[("coefficient formulas",ES+" isEllipseSeparated, isEllipsoidSeparated"),("companion matrix",ES+" getRootsPolynomial")])
prop("P23","Point-in-polyhedron equals membership in some simplex",
 "A point is reported inside a polyhedron given by simplex inverse matrices exactly when, for some simplex, all four barycentric coordinates lie between 0 and 1; with no simplex it is outside.",
 "all simplex lists and points","No test covers it.",
 [PP],[("barycentric test over simplices",PP+" isPtInPoly")])
prop("P24","Orientation samples are complete and well-formed",
 "Sampling slice orientations in the plane yields exactly the requested number of finite headings, evenly spaced over a full turn from -pi to pi (one valid heading when one is requested); in space it yields exactly the requested number of unit quaternions, or exactly the predefined ones with the slice count updated to match.",
 "all slice counts >= 1, all predefined sample lists",
 "Tests use fixed slice counts >= 4.",
 [H2,H3,PH],[("even headings",H2+" sampleOrientations"),("random or predefined rotations",H3+" sampleSO3")])
prop("P25","Euclidean distance is exact",
 "The configuration distance of two equal-length vectors is the square root of the sum of squared coordinate differences over all coordinates; it is zero for equal vectors, symmetric and never negative.",
 "all vectors of any length","Only used indirectly.",
 [DM],[("difference then inner product",DM+" vectorEuclidean")])
prop("P26","Surface mesh faces index the sampled grid correctly",
 "The mesh built from an n-by-n sampled surface keeps the sampled points as vertices and has 2(n-1)^2 triangular faces whose indices are valid and which split every cell of the sampling grid along its diagonal.",
 "all n >= 2","Tests only look at one n.",
 [MG],[("face index blocks",MG+" getMeshFromParamSurface")])
prop("P27","Articulated placement follows the kinematic chain",
 "Placing an articulated robot puts the base at the given pose and link i at base pose times the kinematic tree's transform of body i for the given joint values times the link's own stored offset; joint values are taken in order after the seven pose coordinates, and the kinematic transform is used as rotation and translation unchanged.",
 "all robots, poses and joint vectors","One robot and a few joint vectors are tested, only by planning success.",
 [M3,PH,"src/util/ParseURDF.cpp"],[("compose",M3+" robotTF"),("joint extraction",PH+" setTransform")])
prop("P28","Refinement extends the existing roadmap with denser lines",
 "A refinement round doubles the number of sweep lines, keeps every existing vertex, edge and weight, rebuilds every slice with the configuration-space boundaries recorded for that same slice, and completes without failing for any line count.",
 "all roadmaps, slice counts and numbers of refinement rounds","No test reaches a refinement round.",
 [HI,H2,H3,FS],[("doubling and per-slice rebuild",HI+" refineExistRoadmap"),("reuse of stored boundaries",H2+" constructOneSlice; "+H3+" constructOneSlice")],over=("inputs","histories"))
prop("P29","Start and goal attach only to near, same-slice vertices",
 "The roadmap vertices offered as connections for a start or goal configuration exist in the roadmap, each belongs to a slice whose orientation is within the search radius of the closest slice, is the nearest vertex of that slice, and at most the requested number is returned.",
 "all roadmaps, queries, neighbour limits >= 1 and radii","Fixed scenes only.",
 [H2,H3],[("closest slice, then closest vertex per slice",H2+" getNearestNeighborsOnGraph; "+H3+" getNearestNeighborsOnGraph")])
prop("P30","CSV configuration files are read completely and in order",
 "Reading a comma-separated configuration file returns one row per non-comment line in file order and one value per numeric field in field order, skipping fields that are not numbers.",
 "all files","Only the files shipped with the tests are read.",
 ["src/util/Parse2dCsvFile.cpp"],[("line and field loop","src/util/Parse2dCsvFile.cpp parse2DCsvFile")])
prop("P31","The planner terminates within its time limit and finds existing paths",
 "If a collision-free path exists, planning with a long enough time limit eventually reports one, and planning returns soon after its time limit has passed.",
 "all scenes and random seeds","Liveness and probabilistic completeness.",
 [HI,PH],[("refinement loop",HI+" plan")],over=("inputs","schedules"))
prop("P32","Approved motions are collision-free between the sampled steps",
 "A motion approved by a transition check is free of collision at every intermediate configuration, not only at the sampled steps.",
 "all motions","Continuous motion, not samples.",
 [H2,H3],[("bridge-slice construction",H2+" bridgeSlice; "+H3+" bridgeSlice")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
