from common import *
TITLE = "Receivers record the wave field once per output time at the closest mesh point"
STATEMENT = """A receiver is assigned to exactly one rank and, there, to the element of the mesh with the closest point (its own location if inside); elements with receivers are listed once in ascending order, and several receivers may share an element.
Over any sequence of time steps every requested output time (multiples of the sampling interval) is recorded exactly once, in order and in the time step it falls into, independent of how buffers are flushed;
each row of the receiver's file holds the time and the values of all quantities and fused simulations, being the element's modes evaluated with the basis at the receiver's location and this time. Files start with a header with specified and projected coordinates and are appended to afterwards."""
OVER = ["inputs", "histories"]
QTEXT = "for every location, sampling interval, sequence of time steps, buffer threshold and ownership"
WHY = "the only test checks the element found for six points; output times, values and buffering are never run"
FILES = ["src/io/Receivers.cpp", "src/io/Receivers.h", "src/data/SparseEntities.hpp", "src/linalg/Geom.hpp", "src/dg/Basis.cpp"]
MECH = [("assignment", "Receivers::init, SparseEntities::ptToEn, Geom::closestPoint"), ("output times", "Receivers::getRecvTimeRel, writeRecvAll"), ("files", "Receivers::touchOutput, flush, flushIf, flushAll")]
BOUNDS = "meshes of 2-3 triangles, quads, tets and hexes (lines are not supported by the receivers: no mapping to reference coordinates); one receiver with arbitrary coordinates, or up to four inside of elements; up to four time steps with at most four outputs each; order 2"
ASSUMPTIONS = [REAL, SEQ, "file streams are recorded in memory, number formatting is not considered", "third-party wykobi (closest point on a triangle) is replaced by a textbook implementation"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, el, crs=1, eq="ELASTIC", **x):
        d = dict(NRECV=1, SYMOWN=0, SYMPT=0, SYMT=0, NST=1, SETG=0, VP_STRINGS=1)
        d.update(x)
        js.append(J("recv.cpp", "%s_%s" % (n, el.lower()), cfg=dict(eq=eq, el=el, order=2, prec=64, crs=crs), opt=dict(O, xinc=["stubs_eigen"], fsplit=bool(d["SYMPT"])), **d))
    for el in ("QUAD4R", "TRIA3", "HEX8R"):
        add("loc", el, SYMPT=1, eq="ADVECTION")
    for i, z in enumerate(("-0.5", "2.5") if tier == "quick" else ("-0.5", "0", "0.25", "0.75", "1.5", "2.5")):
        add("loc%d" % i, "TET4", SYMPT=1, eq="ADVECTION", PZ=z)
    add("time", "TRIA3", SYMT=1, NST=2, NRECV=1, crs=2)
    add("time", "QUAD4R", SYMT=1, NST=3, NRECV=1, eq="ADVECTION")
    add("multi", "TRIA3", NRECV=4, SYMOWN=4, NST=2)
    add("multi", "QUAD4R", NRECV=4, SYMOWN=3, NST=2, SETG=1, crs=2)
    return js
