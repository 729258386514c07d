from common import *
TITLE = "Point sources add exactly the integral of their source time function, once"
STATEMENT = """For every set of kinematic point sources each source acts on exactly one element of one rank, the one with the closest point; exactly these elements are flagged as source elements, and the sources of an element and fused simulation are found whatever the order in the file.
Applying the sources over a time interval adds to the modes of every quantity the scaled integral of the source time function over exactly this interval, weighted by the basis at the source's location, the inverse mass matrix and the inverse Jacobian; nothing else changes.
The integral is that of the piecewise linear function through the samples (zero, or the given constant, outside of the samples) for every position of the bounds, in particular if both are in the same sampling interval."""
OVER = ["inputs"]
QTEXT = "for every interval, samples, assignment and order of sources, ownership and split into ranges"
WHY = "tests integrate a few fixed intervals and are not built for the sources themselves (HDF5)"
FILES = ["src/linalg/Series.hpp", "src/impl/seismic/setups/PointSources.hpp", "src/data/SparseEntities.hpp"]
MECH = [("time integration", "Series::integrate"), ("set up", "PointSources::init, getSrcPerms, elSpPs, initBasisEvals, initTsData"), ("application", "PointSources::apply")]
BOUNDS = "series of 2-5 samples with arbitrary values and bounds; three elements (triangles, tets) with up to three sources (two simulations: two and one), order 2"
ASSUMPTIONS = [REAL, SEQ, "HDF5 is replaced by in-memory data sets; the MPI reduction by arbitrary ownership", "third-party wykobi (closest point on a triangle) is replaced by a textbook implementation"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, el, case=1, crs=1, **x):
        d = dict(CASE=case, NS0=2, OWN=0, SYMT=0, NONE=0)
        d.update(x)
        js.append(J("psrc.cpp", n, cfg=dict(eq="ELASTIC", el=el, order=2, prec=64, crs=crs), opt=dict(O, xinc=["stubs_hdf5", "stubs_eigen"], fsplit=(case == 0)), **d))
    for n in (2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        add("series%d" % n, "TRIA3", 0, NPTS=n, DX="0.5", XS="0.25")
    add("assign_tria3", "TRIA3", NS0=3)
    add("own_tria3", "TRIA3", NS0=2, crs=2, OWN=1, NONE=1)
    add("time_tria3", "TRIA3", NS0=1, SYMT=1)
    add("tet4", "TET4", NS0=2)
    if tier == "thorough":
        add("time2_tria3", "TRIA3", NS0=2, SYMT=1)
        add("own_tet4", "TET4", NS0=3, OWN=1)
    return js
