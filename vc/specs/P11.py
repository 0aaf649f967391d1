"""P11: the minimum-volume covering ellipse/ellipsoid covers both inputs (src/geometry/TightFitEllipsoid.cpp getMVCE2D, getMVCE3D)."""
from .srcs import *
TUS = ["src/geometry/TightFitEllipsoid.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
UNITS = []
