from common import *
TITLE = "The solver sees exactly the time groups, LTS relations and adjacency of its mesh"
STATEMENT = """For every annotated mesh partition the solver's mesh interface reproduces the annotation: elements are split into inner and send elements of each time group (a single group without annotation) and the layout covers every element exactly once;
every element's LTS types state for each face whether its time step is equal to, less or greater than that of the adjacent element, be it local, on another rank or a boundary (equal), and which time integrated data it has to offer;
sparse types of the mesh and the solver are merged without loss; vertex and face ids at every face are those of the mesh for local, those of the annotation for remote, and invalid for missing adjacency."""
OVER = ["inputs"]
QTEXT = "for every adjacency, time group sizes, communication structure, ids and sparse types"
WHY = "the tests check one hand-written mesh; the class itself is never constructed"
FILES = ["src/mesh/EdgeV.cpp", "src/mesh/EdgeV.h", "src/data/EntityLayout.cpp", "src/dg/const_ader.inc"]
MECH = [("LTS types", "EdgeV::setLtsTypes"), ("layout", "EdgeV::setElLayout, EntityLayout::sizesToLayout"), ("annotation", "EdgeV::EdgeV, setSpTypes, setSeVeFaIdsAd")]
BOUNDS = "up to 3 time groups with up to 2 inner and send elements each (4 elements overall; thorough: 5), triangles, up to 2 channels with up to 2 faces each (three groups: 1 channel, thorough: 2)"
ASSUMPTIONS = ["EDGE-V's library and HDF5 are replaced by an in-memory mesh and data sets", "rate-2 time groups; adjacent elements differ by at most one group (guaranteed by P05)"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000, xinc=["stubs_edgev"])


def jobs(tier):
    js = []
    T = tier == "thorough"
    for n, lts, mpi, nt, nm, me in [("gts", 0, 0, 1, 3, 3), ("lts2", 1, 0, 2, 2, 4), ("lts3", 1, 0, 3, 2, 5 if T else 4), ("mpi1", 1, 1, 1, 2, 3), ("mpi2", 1, 1, 2, 2 if T else 1, 4), ("mpi3", 1, 1, 3, 1, 5)]:
        js.append(J("edgev.cpp", n, cfg=dict(eq="ELASTIC", el="TRIA3", order=2, prec=64), opt=O, VP_STRINGS=1, LTS=lts, MPI=mpi, NTG=nt, NCHX=2 if T or nt < 3 else 1, NMAX=nm, MAXEL=me))
    return js
