"""repository sources linked into the replay harnesses"""
GEOM = ["src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp", "src/geometry/LineIntersection.cpp", "src/geometry/MeshGenerator.cpp", "src/geometry/PointInPoly.cpp", "src/geometry/TightFitEllipsoid.cpp", "src/util/ExponentialFunction.cpp", "src/util/InterpolateSE3.cpp"]
BODY = ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp", "src/util/ParseURDF.cpp"]
SPACE = ["src/datastructure/FreeSpace2D.cpp", "src/datastructure/FreeSpace3D.cpp", "src/datastructure/Interval.cpp"]
UTIL = ["src/util/DistanceMetric.cpp"]
PLAN2 = ["src/planners/HRM2D.cpp"] + GEOM + BODY + SPACE + UTIL
PLAN3 = ["src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"] + GEOM + BODY + SPACE + UTIL
PLANA = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"] + GEOM + BODY + SPACE + UTIL
FCL = ["-lfcl", "-lccd", "-loctomap", "-lgmp", "-lmpfr"]
KDL = ["-lorocos-kdl"]
ALL = FCL + KDL + ["-lompl"]
