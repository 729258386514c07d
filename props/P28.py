from common import *
TITLE = "EDGEcut: the extruded surface is a closed, outward oriented volume"
STATEMENT = """The six surfaces written for a gridded topography (given in any order of its vertices) form one closed surface, for every number of coarsening levels: every edge of a triangle is shared with exactly one other triangle in opposite direction, normals point outwards and the number of points and triangles matches the header.
The top is the given surface, covered exactly once, the bottom is at the target depth, sides are at the boundary, and the layers in between are not thicker than the smallest horizontal cell of the coarse mesh."""
OVER = ["inputs"]
QTEXT = "for all elevations of the (selected) vertices, grid sizes, spacings and vertex orders"
WHY = "tests compare the written text of two meshes; other sizes, levels and spacings, and closedness as such, are never tested"
FILES = ["tools/edge_cut/src/mesh/Extrude.cpp", "tools/edge_cut/src/mesh/Extrude.h"]
MECH = [("extrusion", "Extrude::Extrude, addSide"), ("triangulation", "Extrude::writeTriaOff, writeTrias*"), ("output", "Extrude::writeOff, writePtsOff")]
BOUNDS = "0-2 coarsening levels, up to 5x5 coarse cells (at least as many as the transition of the coarsening needs: two cells for one level, three for two), three spacings, vertex orders by strides and offsets; x-coordinates of a column are identical; elevations in [-0.4,0.4] (symbolic for every seventh vertex and three corners), target depth -3"
ASSUMPTIONS = [REAL, "streams are replaced by recorders of the written numbers; formatting of numbers is not part"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []
    for lev, lo, hi in ((0, 1, 3), (1, 2, 3), (2, 3, 3 if tier == "quick" else 4)) if tier == "quick" else ((0, 1, 5), (1, 2, 4), (2, 3, 4)):
        js.append(J("extrude.cpp", "levels_%d" % lev, inc="edge_cut", opt=dict(O), LEV=lev, CLO=lo, CHI=hi, VP_STRINGS=1))
    return js
