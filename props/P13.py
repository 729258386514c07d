from common import *
TITLE = "Elastic setup: Jacobians, star matrices, rotations and flux solvers are exact"
STATEMENT = """For every isotropic material and geometry the elastic setup implements the elastic wave equations: Jacobians and (dense and compressed) star matrices are those of the first-order velocity-stress system, the face transformations rotate stress tensors and velocities
into the face-aligned frame and back, the left and right flux solvers return the flux of the exact solution of the Riemann problem (elastic and acoustic, with jumps in the material), free surfaces have no traction, and the CFL time step uses the P-wave speed of every element."""
OVER = ["inputs"]
QTEXT = "for every pair of materials, every inverse Jacobian, every normal and every state at the face"
WHY = "the tests compare single matrices for single materials and normals to precomputed numbers; errors in single entries only appear for material contrasts or general directions"
FILES = ["src/impl/seismic/setups/Elasticity.cpp", "src/impl/seismic/common.hpp", "src/impl/seismic/generated/FlMid3D.inc", "src/impl/seismic/generated/FrMid3D.inc", "src/impl/seismic/generated/FlMidElastic2D.inc", "src/impl/seismic/generated/Trafo3D.inc", "src/impl/seismic/generated/TrafoInv3D.inc"]
MECH = [("star matrices", "Elasticity::star"), ("flux solvers", "Elasticity::fs, setupFlMid, setupFrMid"), ("rotations", "common::setupTrafo*"), ("CFL", "common::getTimeStepStatsCFL")]
BOUNDS = "material parameters in [0.5,8] (acoustic: mu=0), entries of the inverse Jacobian in [-4,4]; 2D: every unit normal, 3D: every frame with entries in [-1,1] and determinant beyond 1/8; 3 elements for the time step statistics"
ASSUMPTIONS = [REAL]
C = dict(eq="ELASTIC", el="TET4", order=4, prec=64)
O = dict(fp="real", timeout_ms=3000, assert_timeout_ms=60000)


def jobs(tier):
    js = []
    for d in (2, 3):
        c = dict(eq="ELASTIC", el="TET4" if d == 3 else "TRIA3", order=4 if d == 3 else 2, prec=64)
        js += [J("seis.cpp", "star_%dd" % d, cfg=c, opt=O, CASE=0, DIM=d)]
        js += [J("seis.cpp", "flux_%dd_%s%s" % (d, "acoustic" if a else "elastic", "_free" if f else ""), cfg=c, opt=O, CASE=1, DIM=d, ACO=a, FREE=f) for a in ((0, 1) if d == 2 else (0,)) for f in (0, 1)]
        js += [J("seis.cpp", "rotate_fs_%dd" % d, cfg=c, opt=O, CASE=2, DIM=d)]
        js += [J("seis.cpp", "trafo_%dd_%d" % (d, a), cfg=c, opt=O, CASE=3, DIM=d, ROW=a) for a in range(1 if d == 2 else 9)]
        js += [J("seis.cpp", "cfl_%dd" % d, cfg=c, opt=O, CASE=4, DIM=d)]
    return js
