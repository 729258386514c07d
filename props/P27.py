from common import *
TITLE = "Sub-cell limiter: admissibility, projections and finite volume fluxes"
STATEMENT = """A candidate solution is admissible for a fused simulation if and only if none of its quantities leaves the extrema of the current solution in the element's neighborhood by more than the tolerance max(1e-4, 0.1% of the range); missing neighbors do not count and other simulations have no influence.
Limited solutions keep their sub-cells, all others are projected from (and to) the DG solution; extrema are sharp bounds of the sub-cell values; adjacent elements receive the sub-cells at the shared face in their own order.
A time step of the sub-cells adds exactly the local Lax-Friedrichs fluxes through all sub-faces of a sub-cell (materials and fastest wave of both elements at element faces), or the provided net updates; outflow faces receive nothing.
Data of previous, candidate and limited solution never overlap and rotate with the time steps, also after a reset."""
OVER = ["inputs"]
QTEXT = "for all extrema, DOFs, admissibility flags, step counts, points and states"
WHY = "tests run one or two numeric examples per routine, mostly with a single simulation, and never compare the fluxes to those of the equations"
FILES = ["src/sc/Detections.hpp", "src/sc/Kernels.hpp", "src/sc/SubGrid.hpp", "src/sc/Steering.hpp", "src/sc/ibnd/SuperCell.hpp", "src/impl/seismic/sc/Llf.hpp", "src/impl/seismic/sc/Boundary.hpp", "src/impl/seismic/common.hpp", "src/linalg/Geom.hpp"]
MECH = [("admissibility", "Detections::dmpVe, Detections::dmpFa"), ("projections", "Kernels::scatterReplace, scatterReplaceFa, gather, gatherSurfDofs, dgExtrema"), ("steering", "Steering::getAdmIds, getExtIds, getDofsIds, reset*"), ("sub-grid", "SubGrid::ptSc, faSg, Boundary::apply, SuperCell::applyFa"), ("solver", "Llf::init, tsSc, nuFaSf")]
BOUNDS = "up to 4 elements in the neighborhood, 2 quantities, 1-2 fused simulations; triangles of order 2, tets of order 1; solver: three elements with three materials in all rotations, four normals, sub-faces of all types in a synthetic connectivity; step counts up to 2^64-2"
ASSUMPTIONS = [REAL, "matrix kernels of the sub-cell group are products with the given matrix for every fused simulation (their setup, and the precomputed matrices, are not part)"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, el, case, order=2, crs=1, **x):
        js.append(J("sclim.cpp", n, cfg=dict(eq="ELASTIC", el=el, order=order, prec=64, crs=crs), opt=dict(O), CASE=case, VIAFACE=x.pop("VIAFACE", 0), NFR=1 if tier == 'quick' else 3, DIM2=int(el == "TRIA3"), **x))
    add("dmp_vertex", "TRIA3", 0, crs=2)
    add("dmp_face_2d", "TRIA3", 0, crs=2, VIAFACE=1)
    add("dmp_face_3d", "TET4", 0, 1, VIAFACE=1)
    add("kernels_2d", "TRIA3", 1, crs=1)
    add("kernels_2d_fused", "TRIA3", 1, crs=2)
    add("kernels_3d", "TET4", 1, 1, 2)
    add("steering", "TRIA3", 2, crs=2)
    add("subgrid_2d", "TRIA3", 3)
    add("llf_2d", "TRIA3", 4)
    add("llf_2d_fused", "TRIA3", 4, 1, 2)
    add("llf_3d", "TET4", 4, 1)
    return js
