from common import *
TITLE = "ADER-DG time steps couple every element with exactly the right neighboring data"
STATEMENT = """In every time step of the seismic and advection ADER-DG solvers an element is updated with the volume and local surface integrals of its own time prediction, and over each face with the neighbor's prediction integrated over exactly this element's time step:
the full step for equal time steps, the respective half for greater neighbors, and the sum of both steps for smaller neighbors, never stale data of an earlier step, and identically for neighbors in shared and distributed memory.
Free-surface faces use the element's own prediction, outflow faces contribute nothing (seismic) or the own prediction (advection). Receivers get, per requested output time, the time prediction of their element. No other element's data is changed."""
OVER = ["inputs", "schedules"]
QTEXT = "for every DOF, face, relation of the time steps, kind of adjacency and receiver output time"
WHY = "no test runs the solvers' time steps, local time stepping or the exchange of time integrated DOFs"
FILES = ["src/impl/seismic/solvers/AderDg.hpp", "src/impl/advection/solvers/AderDg.hpp", "src/impl/seismic/kernels/SurfInt.hpp", "src/dg/const_ader.inc"]
MECH = [("solver steps", "AderDg::local, AderDg::neigh (seismic, advection)"), ("LTS buffers", "o_tDofs[0..2], C_LTS_EL, C_LTS_AD"), ("send and receive", "o_sendDofs, i_recvDofs, neighFluxInt")]
BOUNDS = "one element and all its face neighbors over two time steps (four of smaller neighbors); lines, triangles, quads, tets, hexes of order 2-3, elastic and viscoelastic; the relation at one face is arbitrary, those of the others rotate; up to two outputs per step"
ASSUMPTIONS = [REAL, "kernels (decided by P16) are the reference for single integrals; messages arrive before their data is used (decided by P10, P12)"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)
KN = {0: "VANILLA", 1: "XSMM_DENSE_SINGLE", 2: "XSMM"}


def jobs(tier):
    js = []

    def add(el, order, relax=0, eq=None, outs=1, oth=0, few=0, crs=1, vid=0, kn="VANILLA", multi=0):
        c = dict(eq=eq or ("VISCOELASTIC" if relax else "ELASTIC"), el=el, order=order, prec=64, relax=relax, crs=crs, kernels=kn)
        js.append(J("steps.cpp", "%s_%s_o%d_r%d_%d%s" % ("adv" if eq else "seis", el.lower(), order, relax, oth, ("" if crs == 1 else "_c%d" % crs) + ("_multi" if multi else "")), cfg=c,
                    opt=dict(O, xinc=["stubs_xsmm", "stubs_eigen"]), OUTS=outs, OTH=oth, FEW=few, VID=vid, MULTI=multi, **({"HEXG": 1} if el == "HEX8R" else {})))
    for oth in (0, 1, 3, 4):
        add("TRIA3", 2, oth=oth, outs=1 + oth % 2)
    add("TRIA3", 2, relax=2, oth=2)
    add("TET4", 2, oth=5, few=3, vid=1, outs=0)
    add("QUAD4R", 2, oth=2, few=2, outs=0)
    add("TRIA3", 2, multi=1, few=2)
    add("TRIA3", 2, eq="ADVECTION", multi=1)
    add("TRIA3", 2, relax=1, multi=1, oth=1, few=4)
    add("TRIA3", 2, oth=2, crs=2, kn="XSMM", few=3)
    add("TET4", 2, oth=3, few=4, kn="XSMM_DENSE_SINGLE", vid=2, outs=0)
    for el in ("LINE", "TRIA3", "TET4", "QUAD4R"):
        for oth in (0, 3, 5) if el != "TET4" else (4,):
            add(el, 2, eq="ADVECTION", oth=oth, vid=1)
    if tier == "thorough":
        for oth in (2, 5, 6):
            add("TRIA3", 3, oth=oth)
            add("TET4", 2, oth=oth + 1, vid=2)
        add("TRIA3", 2, relax=3, oth=4)
        add("HEX8R", 2, oth=1, few=4)
        add("HEX8R", 2, eq="ADVECTION", oth=1)
    return js
