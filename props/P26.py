from common import *
TITLE = "Rupture faces: net updates are the exact fluxes, for any orientation of the face"
STATEMENT = """At every face of the internal boundary, and only there, the unperturbed net updates of left and right element are the fluxes (with the element's own material, scaled by time step, sub-face and sub-cell size) of the exact Riemann solution between both elements' states:
traction and velocity are continuous over the face and connected to the left and right state by waves travelling into the respective material. This holds for all sub-faces and fused simulations, for every direction of the normal, and does not depend on the preferred direction of the boundary.
Boundary faces are linked to the local faces and vertices of their left and right elements, also if only one of the elements knows the vertex."""
OVER = ["inputs"]
QTEXT = "for all states at both sides, materials, normals, preferred directions and sparse types"
WHY = "tests compare single matrices for equal materials without rotation; different materials and both preferred directions are never run"
FILES = ["src/impl/seismic/solvers/InternalBoundary.hpp", "src/impl/seismic/generated/MiddleStateJumpL2D.inc", "src/impl/seismic/generated/MiddleStateJumpR2D.inc", "src/impl/seismic/generated/MiddleStateFlux2D.inc", "src/impl/seismic/generated/MiddleStateJumpL3D.inc",
         "src/impl/seismic/generated/MiddleStateJumpR3D.inc", "src/impl/seismic/generated/MiddleStateFlux3D.inc", "src/impl/seismic/common.hpp", "src/linalg/Geom.hpp", "src/mesh/common.hpp"]
MECH = [("solvers", "InternalBoundarySolvers<2>::init, InternalBoundarySolvers<3>::init, solvMsJumpL, solvMsJumpR, solvMsFlux"), ("net updates", "InternalBoundary::netUpdates"), ("links", "InternalBoundaryTypes::initFaces")]
BOUNDS = "three faces, four elements with three materials in all rotations, four normals, both preferred directions; states in [-1,1]; triangles and tets of order 1-2; links: four faces of triangles and tets"
ASSUMPTIONS = [REAL, "matrix kernels of the sub-cell group are products of row-major matrices (their setup is not part)"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, el, case, order=2, crs=1, **x):
        js.append(J("ibnd.cpp", n, cfg=dict(eq="ELASTIC", el=el, order=order, prec=64, crs=crs), opt=dict(O), CASE=case, M3=2 if tier == "thorough" or el == "TRIA3" else 1, DIM2=int(el == "TRIA3"), **x))
    add("riemann_2d", "TRIA3", 0)
    add("riemann_2d_fused", "TRIA3", 0, 1, 2)
    add("riemann_3d", "TET4", 0, 1)
    add("links_2d", "TRIA3", 1)
    add("links_3d", "TET4", 1)
    return js
