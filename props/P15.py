from common import *
TITLE = "Solver assembly: every element gets solvers of its own geometry and material"
STATEMENT = """The setup of the discretisation assigns every element-face pair flux solvers built from the outward normal, the element's own material and that of its face-neighbour (receive data at partition boundaries, the own material at outflow and free-surface boundaries), scaled by
the face's area and the element's Jacobian, and every element star matrices built from its material and inverse Jacobian. This holds for the seismic (elastic and viscoelastic) and the advection equations, independent of face ids, local face positions, orientation and the order of the communication structure;
the advection CFL time step statistics use the advection speed and insphere diameter of every element."""
OVER = ["inputs"]
QTEXT = "for every material or velocity of own, neighbouring and receive elements, every area, every Jacobian and every position and orientation of the faces in the two elements"
WHY = "tests of the assembly sample one or two meshes with constant materials; swapped sides, wrong receive entries or missing scalings of single faces need contrasts and specific positions to show up"
FILES = ["src/impl/seismic/solvers/AderDgInit.hpp", "src/impl/advection/solvers/common.hpp", "src/mesh/common.hpp", "src/linalg/Mappings.hpp", "src/linalg/Matrix.h"]
MECH = [("seismic star matrices", "AderDgInit::initStar"), ("seismic flux solvers", "AderDgInit::initFs, setUpFs"), ("advection flux solvers", "advection::solvers::common::setupSolvers"), ("advection CFL", "advection::solvers::common::getTimeStepStatistics")]
BOUNDS = "two elements (one inner, one send) which share a face at every pair of local positions and orientations, up to two receive faces in both orders, remaining faces outflow or free surface; materials in [0.5,8], velocities in [-8,8], areas in [0.5,8]; symbolic Jacobians (3D seismic flux solvers: fixed), one symbolic normal and fixed ones (3D seismic: fixed frames)"
ASSUMPTIONS = [REAL, "left element of a face exists and owns the outward normal, boundary faces have no right element (as set up by the mesh interface)", "order of at least two for tetrahedral advection setups"]
O = dict(fp="real", timeout_ms=3000, assert_timeout_ms=60000, xinc=["stubs_eigen"])


def jobs(tier):
    js = []
    for el in ("TRIA3", "TET4"):
        c = dict(eq="VISCOELASTIC", el=el, order=2, prec=64, relax=3)
        js += [J("solverinit.cpp", "star_%s_%s" % (el.lower(), "sparse" if s else "dense"), cfg=c, opt=O, CASE=0, SPARSE=s, VISCO=1) for s in (0, 1)]
        js += [J("solverinit.cpp", "flux_%s_%s" % (el.lower(), "elastic" if v == 0 else "anelastic"), cfg=c, opt=O, CASE=1, SPARSE=0, VISCO=v) for v in (0, 2)]
    for el in ("LINE", "QUAD4R", "TRIA3", "HEX8R", "TET4"):
        c = dict(eq="ADVECTION", el=el, order=2, prec=64)
        js += [J("solverinit.cpp", "advection_%s" % el.lower(), cfg=c, opt=dict(O, merge="all"), CASE=2), J("solverinit.cpp", "advection_dt_%s" % el.lower(), cfg=c, opt=O, CASE=3)]
    return js
