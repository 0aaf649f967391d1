"""P15: every roadmap edge was approved by a transition check (bridgeVertex, connectExistSlice, ProbHRM3D::connectMultiSlice)."""
from ..unit import *
from ..lib import *
from .P14 import bridge, exist, multi
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
BOUNDED = "connectOneSlice2D, connectOneSlice3D, HRM2D::connectMultiSlice, HRM3D::connectMultiSlice: random construction histories of the real planners only"
ASSUMPTIONS = ["the answers of isSameSliceTransitionFree / isMultiSliceTransitionFree are arbitrary functions of the two configurations (and the bridge slice in force)", "the recorded index range of every slice lies inside the vertex list (P19)", "all configurations of a roadmap have the same number of coordinates (P19)"]
def unit_bridge2(U):
    """HighwayRoadMap::bridgeVertex (2D): a bridge vertex is added only with two edges, both approved by isSameSliceTransitionFree; no other edge is added"""
    bridge(U, "HRM2D", 15)
def unit_bridge3(U):
    """HighwayRoadMap::bridgeVertex (3D)"""
    bridge(U, "HRM3D", 15)
def unit_exist2(U):
    """HRM2D::connectExistSlice: every new edge joins configurations approved by isSameSliceTransitionFree"""
    exist(U, "HRM2D", 15)
def unit_exist3(U):
    """HRM3D::connectExistSlice"""
    exist(U, "HRM3D", 15)
def unit_multiA(U):
    """ProbHRM3D::connectMultiSlice: every new edge joins a vertex of the newest slice and one of an earlier slice, approved by isMultiSliceTransitionFree with the bridge slice of exactly those two slices in force"""
    multi(U, "ProbHRM3D", 15)
UNITS = [unit_bridge2, unit_bridge3, unit_exist2, unit_exist3, unit_multiA]
