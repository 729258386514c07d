from common import *
TITLE = "edge_v CFL time steps are diameter over wave speed, normalized to the minimum"
STATEMENT = """The elements' time steps are proportional to in-diameter over the (vertex-averaged or element-wise) maximum wave speed, and normalized such that the smallest one is exactly one. Element averages of a velocity model are the mean of the vertices' values."""
OVER = ["inputs"]
QTEXT = "for every positive in-diameter of the elements and every positive wave speed at the points"
WHY = "the test checks one constant velocity model on one mesh"
FILES = ["tools/edge_v/src/time/Cfl.cpp", "tools/edge_v/src/models/Model.cpp"]
MECH = [("time steps", "Cfl::setTimeSteps"), ("averages", "Model::getElAve")]
BOUNDS = "3-4 elements over 8 shared vertices, all element types, every diameter in [0.01,10], every speed in [0.1,100]"
ASSUMPTIONS = [REAL, SEQ]


def jobs(tier):
    out = [J("cfl.cpp", t.lower(), inc="edge_v", opt=dict(timeout_ms=3000, assert_timeout_ms=60000), NELS=3, ELTY=t) for t in ("LINE", "TRIA3", "QUAD4R", "TET4", "HEX8R")]
    if tier == "thorough":
        out += [J("cfl.cpp", t.lower() + "_4", inc="edge_v", opt=dict(timeout_ms=3000, assert_timeout_ms=120000), NELS=4, ELTY=t) for t in ("TRIA3", "TET4")]
    return out
