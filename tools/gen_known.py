"""writes known_findings.json (fixed entries suppress nothing)"""
import json, subprocess, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).strip().split("\n")]
def h(s):
    c = [a for a, b in log if s in b]; assert len(c) == 1, (s, c); return c[0]
F = [("P08", "scale the superellipse normal", "getMinkSum2D used (cos^(2-eps), sin^(2-eps)) as normal of a superellipse with a != b: every reported Minkowski boundary was wrong there"),
 ("P11", "proper orientation of the covering", "getMVCE2D lost the sign of the angle (acos); getMVCE3D built a quaternion from a reflection: the result did not contain its inputs"),
 ("P12", "do not wrap link angles", "HRM2D::computeTFE interpolated wrapped link angles: the ellipse covered the complementary arc, e.g. heading 2.9 to 3.3 with a link at angle 0"),
 ("P13", "return the two end configurations", "interpolateCompoundSE3Rn(v1, v2, 0) returned NaN configurations"),
 ("P13", "interpolate solution paths that pass", "HRM3D::getInterpolatedSolutionPath on a path with one roadmap vertex converted infinity to a step count"),
 ("P16", "report the cost of the edges used", "search() summed weights indexed by vertex ids, reading past the end of the weight list"),
 ("P14", "connecting exactly two slices", "HRM2D::connectMultiSlice threw out_of_range for numSlice == 2"),
 ("P24", "a single slice gets a finite heading", "HRM2D::sampleOrientations with numSlice == 1 gave NaN"),
 ("P19", "a single sweep line gets", "sweepLineProcess with one line gave a NaN coordinate"),
 ("P19", "record the joint values", "ProbHRM3D refinement stored the joint values of the last slice in the vertices of every slice"),
 ("P28", "size the intersection tables", "refineExistRoadmap threw out_of_range: intersection tables kept the old line count"),
 ("P22", "do not report spurious zero roots", "getRootsPolynomial returned n additional zeros"),
 ("P20", "use the exponent of a superellipse", "collision mesh of a superellipse used 0.1 as planar exponent and the superellipse's exponent vertically"),
 ("P29", "never offer a vertex of another slice", "getNearestNeighborsOnGraph offered vertex 0 for slices without vertices (crash on an empty roadmap), and used an uninitialised quaternion in 3D"),
 ("P06", "take every crossing of a line", "only two crossings used: a line through a boundary vertex or mesh edge recorded the obstacle as one point, or read past the end"),
 ("P06", "mesh each configuration-space boundary", "computeCSpaceBoundaryMesh used the sampling number of the first shape for all"),
 ("P05", "mesh line quick rejection", "intersectLineMesh3D rejected lines whose direction is within 1e-6 of an axis plane although they hit the mesh"),
 ("P09", "with the robot at that slice's orientation", "the free-space computator kept its own copy of the robot, never updated: the boundaries of every slice were those of the robot at its initial orientation and joint values"),
 ("P28", "its own recorded boundaries", "a refined slice (and getFreeSegmentOneSlice) was swept against the boundaries of the last slice built"),
 ("P30", "read the values of a CSV file", "values were rounded to single precision (stof)")]
out = [{"property": p, "id": "fixed-%d" % i, "status": "fixed", "line": "fixed: property=%s %s %s" % (p, h(s), w), "what": w} for i, (p, s, w) in enumerate(F)]
K = json.load(open(R + "/tools/known_open.json")) if os.path.exists(R + "/tools/known_open.json") else []
json.dump(K + out, open(R + "/known_findings.json", "w"), indent=1)
