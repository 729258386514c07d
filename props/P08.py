from common import *
TITLE = "SWE finite volumes: volume conserved, dry cells inert, CFL-stable time step"
STATEMENT = """In a closed (reflecting) basin the total water volume does not change in a time step, also next to dry cells; with outflow boundaries it changes by in- minus outflow only, and outflow faces create no waves. Dry cells are never modified, a lake at rest stays at rest, and in
the reported minimum time step no wave in any direction crosses more than the CFL fraction of an element's in-diameter."""
OVER = ["inputs"]
QTEXT = "for every state, bathymetry and wet/dry pattern of the cells"
WHY = "the finite volume scheme has no unit test"
FILES = ["src/impl/swe/solvers/FiniteVolume.hpp"]
MECH = [("boundary conditions", "FiniteVolume::qtsLr"), ("dry cells", "FiniteVolume::nusN"), ("update", "FiniteVolume::update"), ("time step", "FiniteVolume::getTimeStepStatistics")]
BOUNDS = "two line cells or two quad cells, all wet/dry patterns, heights in [0.5,4], momenta in [-4,4], bathymetry in [-4,3]"
ASSUMPTIONS = [REAL]
C = dict(eq="SWE", el="QUAD4R", order=1, prec=64)
O = dict(timeout_ms=3000, assert_timeout_ms=60000, fsplit=True, branch_ms=700)


def jobs(tier):
    return [J("swe.cpp", "closed_1d", cfg=C, opt=O, CASE=3, BND=0), J("swe.cpp", "outflow_1d", cfg=C, opt=O, CASE=3, BND=1), J("swe.cpp", "lake_2d", cfg=C, opt=O, CASE=4),
            J("swe.cpp", "update_2d", cfg=C, opt=O, CASE=7), J("swe.cpp", "face_x", cfg=C, opt=O, CASE=8, NX=1, NY=0), J("swe.cpp", "face_rot", cfg=C, opt=O, CASE=8, NX="-0.75", NY=0.5),
            J("swe.cpp", "closed_2d", cfg=C, opt=O, CASE=5), J("swe.cpp", "cfl_line", cfg=C, opt=O, CASE=6, ELTY="LINE", NN=2), J("swe.cpp", "cfl_quad", cfg=C, opt=O, CASE=6, ELTY="QUAD4R", NN=1)]
