from common import *
TITLE = "ADER-DG kernels compute the discrete operators of the scheme"
STATEMENT = """The kernels of the solvers compute the operators of the ADER-DG scheme for all data: time derivatives by the Cauchy-Kowalevski recursion with stiffness and star matrices (and anelastic sources and relaxation), time integrals and point evaluations of the resulting Taylor expansion,
the volume integral, and the local and neighboring surface integrals with the flux matrix which belongs to face, adjacent face and vertex. Vanilla, LIBXSMM single and LIBXSMM fused (sparse) kernels agree with the same operators for every element type, order, number of relaxation mechanisms and number of fused simulations;
zero-block shortcuts never drop a non-zero contribution, and fused simulations never mix. The advection kernels satisfy the same for their scalar equation."""
OVER = ["inputs"]
QTEXT = "for all elastic and anelastic degrees of freedom of all modes, quantities and fused simulations, every time step and every relaxation frequency (low order: also every star, source and flux solver matrix), all faces, adjacent faces and vertices"
WHY = "the unit tests of the kernels compare single random data sets, skip configurations and are not built in the default configuration; dropped blocks or swapped ids need a specific mode, face, derivative or mechanism"
FILES = ["src/impl/seismic/kernels/TimePred.hpp", "src/impl/seismic/kernels/TimePredVanilla.hpp", "src/impl/seismic/kernels/TimePredSingle.hpp", "src/impl/seismic/kernels/TimePredFused.hpp", "src/impl/seismic/kernels/VolInt.hpp", "src/impl/seismic/kernels/VolIntVanilla.hpp",
         "src/impl/seismic/kernels/VolIntSingle.hpp", "src/impl/seismic/kernels/VolIntFused.hpp", "src/impl/seismic/kernels/SurfInt.hpp", "src/impl/seismic/kernels/SurfIntVanilla.hpp", "src/impl/seismic/kernels/SurfIntSingle.hpp", "src/impl/seismic/kernels/SurfIntFused.hpp",
         "src/impl/seismic/kernels/FakeMats.hpp", "src/impl/advection/kernels/TimePred.hpp", "src/impl/advection/kernels/VolInt.hpp", "src/impl/advection/kernels/SurfInt.hpp", "src/dg/TimePred.hpp", "src/dg/VolInt.hpp", "src/dg/SurfInt.hpp",
         "src/data/MmVanilla.hpp", "src/data/MmXsmmSingle.hpp", "src/data/MmXsmmFused.hpp", "src/linalg/Matrix.h"]
MECH = [("Cauchy-Kowalevski", "TimePred{Vanilla,Single,Fused}::ck"), ("time prediction", "TimePred::evalTimePrediction, integrate"), ("volume integral", "VolInt{Vanilla,Single,Fused}::apply"), ("surface integral", "SurfInt{Vanilla,Single,Fused}::local, neighFluxInt, neigh, scatterUpdateA"), ("matrix kernels", "linalg::Matrix::matMulFused*, denseToCsc, getBlockNz")]
BOUNDS = "TRIA3 orders 2-3 (thorough 4), TET4 order 3 (thorough 4), QUAD4R and HEX8R order 2, LINE order 3; 0-2 relaxation mechanisms, 1-2 fused simulations; stiffness and flux matrices are fixed integer matrices with the sparsity of the hierarchical bases; star, source and flux solver matrices symbolic at order 2, fixed generic integers above"
ASSUMPTIONS = [REAL, "LIBXSMM kernels behave as specified by their descriptors (executable stand-in)", "the basis hands out matrices with the hierarchical zero pattern for triangles and tetrahedra"]
O = dict(fp="real", timeout_ms=3000, assert_timeout_ms=60000, xinc=["stubs_xsmm"])
KN = {0: "VANILLA", 1: "XSMM_DENSE_SINGLE", 2: "XSMM"}


def jobs(tier):
    js = []

    def add(kind, el, order, relax, crs, sym, cases=(0, 1, 2, 3), **x):
        c = dict(eq="VISCOELASTIC" if relax else "ELASTIC", el=el, order=order, prec=64, relax=relax, crs=crs, kernels=KN[kind])
        for case in cases:
            js.append(J("kern.cpp", "%s_%s_%s_o%d_r%d_c%d_s%d%s" % (["ck", "vol", "surf_local", "surf_neigh"][case], ["vanilla", "single", "fused"][kind], el.lower(), order, relax, crs, sym, "_knm" if x else ""),
                        cfg=c, opt=dict(O, xinc=["stubs_xsmm"] + (["stubs_eigen"] if kind == 2 else [])), CASE=case, KIND=kind, SYM=sym, DECAY=1, **x))
    for k in (0, 1):
        add(k, "TRIA3", 3, 0, 1, 0)
        add(k, "TRIA3", 3, 2, 1, 0)
        add(k, "TRIA3", 2, 1, 1, 1)
        add(k, "TET4", 3, 0, 1, 0)
        add(k, "TET4", 3, 1, 1, 0)
        add(k, "QUAD4R", 2, 0, 1, 0)
    add(0, "TRIA3", 3, 1, 2, 0)
    add(0, "HEX8R", 2, 0, 1, 0)
    add(2, "TRIA3", 3, 0, 2, 0)
    add(2, "TRIA3", 3, 1, 2, 0)
    add(2, "TRIA3", 3, 2, 2, 0, VP_KNM=1)
    add(2, "TET4", 3, 0, 2, 0)
    add(2, "TET4", 3, 1, 2, 0)
    add(2, "QUAD4R", 2, 0, 2, 0)
    add(2, "QUAD4R", 2, 0, 2, 0, VP_KNM=1)
    for k, crs in ((0, 1), (1, 1), (2, 2)):
        c = dict(eq="VISCOELASTIC", el="TRIA3", order=2, prec=64, relax=1, crs=crs, kernels=KN[k])
        js.append(J("kern.cpp", "decay_%s" % ["vanilla", "single", "fused"][k], cfg=c, opt=dict(O, xinc=["stubs_xsmm"] + (["stubs_eigen"] if k == 2 else [])), CASE=0, KIND=k, SYM=0, DECAY=-1))
    if tier == "thorough":
        for k in (0, 1):
            add(k, "TRIA3", 4, 0, 1, 0)
            add(k, "TRIA3", 4, 3, 1, 0)
            add(k, "TET4", 4, 0, 1, 0)
            add(k, "TET4", 2, 1, 1, 1)
            add(k, "QUAD4R", 3, 0, 1, 0)
        add(2, "TRIA3", 4, 0, 4, 0)
        add(2, "TET4", 4, 0, 2, 0)
        add(0, "TET4", 3, 1, 2, 0)
    for el, o in (("LINE", 3), ("QUAD4R", 2), ("TRIA3", 3), ("TET4", 3), ("HEX8R", 2)):
        c = dict(eq="ADVECTION", el=el, order=o, prec=64, crs=2 if el == "TRIA3" else 1)
        js += [J("kern.cpp", "advection_%s_%s" % (["ck", "vol", "surf_local", "surf_neigh"][k], el.lower()), cfg=c, opt=O, CASE=k, KIND=0, SYM=0) for k in range(4)]
    return js
