from common import *
TITLE = "Initial DOFs and error norms are exact for every polynomial reference function"
STATEMENT = """For every set of expressions which are polynomials of the DG space, the initial degrees of freedom of exactly the given elements represent the functions at every point of the elements, separately for every quantity and fused simulation;
quantities not set by an expression, or of simulations without an expression, are zero; all other elements keep their values.
The reported L1, squared L2 and Linf errors of every quantity and fused simulation are those of the difference between the element's modes and the reference function, integrated over exactly the given elements (quadrature of the order plus one)."""
OVER = ["inputs"]
QTEXT = "for every coefficient of the functions, set of modes and element range"
WHY = "the only test initializes two elements with a constant; the error norms and several fused simulations are never run, and none of it is built here"
FILES = ["src/setups/InitialDofs.hpp", "src/data/Expression.hpp", "src/mesh/common.hpp", "src/dg/Basis.cpp", "src/dg/QuadraturePoints.h"]
MECH = [("initial DOFs", "InitialDofs::dg, qps, bc, Basis::qpts2modal"), ("error norms", "InitialDofs::err, Basis::modal2refPtVal"), ("expressions", "Expression::bind, bindCrds, compile, eval")]
BOUNDS = "three affine elements (lines, quads, triangles, hexes, tets) of fixed shape, one of them shifted arbitrarily; two quantities, one or two fused simulations; order 2-3; arbitrary coefficients and modes in [-1,1]; error norms of triangles and tets: differences of constant sign in an element (tets without Linf)"
ASSUMPTIONS = [REAL, SEQ, "third-party exprtk is replaced by a stand-in which evaluates arbitrary polynomials on the bound variables", "mass matrices (generated by edge_pre) are those of the bases"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, el, case, order=2, crs=2, **x):
        js.append(J("init.cpp", "%s_%s_o%d" % (n, el.lower(), order), cfg=dict(eq="ADVECTION", el=el, order=order, prec=64, crs=crs), opt=O, CASE=case, VP_STRINGS=1, **x))
    for el, o in (("LINE", 3), ("QUAD4R", 2), ("QUAD4R", 3), ("TRIA3", 2), ("TRIA3", 3), ("HEX8R", 2), ("TET4", 2)) + ((("LINE", 4), ("TRIA3", 4), ("TET4", 3), ("HEX8R", 3)) if tier == "thorough" else ()):
        add("dofs", el, 0, o)
    for el, o in (("LINE", 2), ("QUAD4R", 2)):
        add("err", el, 1, o)
    for el in ("TRIA3", "TET4"):
        add("err", el, 1, 2, 1, DEFINITE=1, NQ=1)
    return js
