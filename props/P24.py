from common import *
TITLE = "Wave field files hold the first mode of exactly the selected elements"
STATEMENT = """For every set of elements, sparse types and modes, each wave field output of a rank with selected elements is one valid VTK file (ASCII or big-endian binary) whose name carries rank and step in the rank's own directory, while ranks without selected elements write nothing.
It holds the coordinates of all vertices, the connectivity and VTK type of exactly the elements which have all bits of the requested sparse type (all elements if none is requested), and per fused simulation and quantity the current first mode of these elements under a unique name.
Output directories are created with all missing parents, whatever slashes the path has, and also if other ranks create them at the same time."""
OVER = ["inputs", "histories"]
QTEXT = "for every mesh, sparse types, modes of the elements and output paths"
WHY = "the only tests check path splitting; wave field, VTK writer and directories are never run"
FILES = ["src/io/WaveField.cpp", "src/io/WaveField.h", "src/io/Vtk.cpp", "src/io/Vtk.h", "src/io/FileSystem.hpp", "submodules/visit_writer/visit_writer.cpp"]
MECH = [("selection and files", "WaveField::WaveField, write"), ("layout", "Vtk::init, write"), ("VTK files", "edge_write_unstructured_mesh, edge_write_variables"), ("directories", "FileSystem::createDir, splitPathFirst, splitPathLast")]
BOUNDS = "up to three elements of every type with arbitrary vertices, two outputs, one or two fused simulations; ASCII: coordinates, modes in [-100,100] (binary: distinct constants, also for vertex ids); paths of up to 6 characters over {a,/}"
ASSUMPTIONS = ["number formatting of ASCII files is not considered", "file system and stdio calls are recorded by in-memory stand-ins"]
O = dict(fp="fp", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, el, crs=1, eq="ADVECTION", prec=64, **x):
        js.append(J("wf.cpp", n, cfg=dict(eq=eq, el=el, order=2, prec=prec, crs=crs), opt=dict(O, fp="fp" if x.get("BIN") else "real"), VP_STRINGS=1, **x))
    add("dirs", "TRIA3", CASE=0, BIN=0, PLEN=6 if tier == "quick" else 8)
    for b in (0, 1):
        for el in ("LINE", "TRIA3", "QUAD4R", "HEX8R", "TET4"):
            if b and tier == "quick" and el not in ("TRIA3", "HEX8R"):
                continue
            add("%s_%s" % ("bin" if b else "ascii", el.lower()), el, CASE=1, BIN=b, NEL=2 if el == "HEX8R" else 3)
        add("%s_seismic" % ("bin" if b else "ascii"), "TRIA3", 2, "ELASTIC", 32, CASE=1, BIN=b, NEL=2)
    return js
