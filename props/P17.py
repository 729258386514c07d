from common import *
TITLE = "Mappings, quadrature and DG bases are exact for every element and polynomial"
STATEMENT = """For every non-degenerate element the reference-physical mappings are the element's affine map, invert each other and have the reported Jacobian, determinant and inverse; points are found inside exactly if their barycentric coordinates say so.
For every face, adjacent face and orientation both elements see the same physical point at a face coordinate and at every face quadrature point. Quadrature rules integrate every polynomial of their degree exactly, in physical elements scaled by the determinant;
the DG bases are orthogonal and hierarchical, their derivatives are the derivatives of the basis functions at every point, and projection and evaluation of every function in the DG space return the function."""
OVER = ["inputs"]
QTEXT = "for every vertex position, point, polynomial coefficient and set of modes"
WHY = "tests check single elements, points and orders; the quadrature and point-source tests are not built"
FILES = ["src/linalg/Mappings.hpp", "src/linalg/Shape.hpp", "src/linalg/Geom.hpp", "src/linalg/Matrix.h", "src/dg/QuadraturePoints.h", "src/dg/QuadratureEval.hpp", "src/dg/Basis.cpp", "src/dg/Basis.h", "src/constants.hpp"]
MECH = [("mappings", "Mappings::refToPhy, phyToRef, evalJac, faToVolRef, faLocToFaNei"), ("quadrature", "QuadraturePoints::getQpts, QuadratureEval::faces"), ("basis", "Basis::evalBasis, qpts2modal, modal2ptval"), ("inside", "Geom::inside")]
BOUNDS = "vertices in [-4,4] with determinant beyond 1/8, extents in [1/4,4] for rectangular types; quadrature orders 1-4 (tets: 2-3); bases of orders 2-4 (tets: 2-3; thorough: 5 and 4), polynomial coefficients and modes in [-1,1]"
ASSUMPTIONS = [REAL, "one-dimensional Gauss-Legendre points are the doubles of the FastGL library", "mass matrices (generated by edge_pre) are those of the bases"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, el, case, order=2, **x):
        js.append(J("map.cpp", "%s_%s%s" % (n, el.lower(), "_o%d" % order if case in (3, 4) else ""), cfg=dict(eq="ELASTIC" if el != "LINE" else "ADVECTION", el=el, order=order, prec=64), opt=O, CASE=case, **x))
    for el in ("LINE", "QUAD4R", "TRIA3", "HEX8R", "TET4"):
        add("map", el, 0)
        add("face", el, 1)
        add("quad", el, 2, QO=4 if el in ("LINE", "QUAD4R", "TRIA3") else 3, PH=2, MAXT=5)
    for el, o in (("LINE", 4), ("QUAD4R", 3), ("TRIA3", 3), ("TRIA3", 4), ("HEX8R", 2), ("TET4", 2), ("TET4", 3)) + ((("TRIA3", 5), ("TET4", 4), ("HEX8R", 3)) if tier == "thorough" else ()):
        add("basis", el, 3, o, ORD=o)
        add("project", el, 4, o, ORD=o)
    add("geom", "TRIA3", 5, EQINS=1, FIXED=2)
    add("geom", "TET4", 5, EQINS=1, FIXED=1)
    add("geom", "HEX8R", 5, EQINS=1)
    return js
