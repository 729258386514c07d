from common import *
TITLE = "Rupture: traction never exceeds the fault's strength, slip weakens friction"
STATEMENT = """For every state at a fault the linear slip weakening law (2D and 3D) lets the fault fail exactly if the total shear stress exceeds the strength (friction coefficient times compressive normal stress, plus cohesion; zero in tension): a locked fault leaves the middle states unchanged,
a failing one has a total traction of exactly the strength in the direction of the shear stress, so that slip always releases stress. Shear stresses are continuous over the fault, the velocities of minus and plus side change consistently with the side of the left element,
slip rate is the jump of the velocities, slip accumulates its absolute value, and the friction coefficient falls linearly with the slip from the static to the dynamic one. Fused simulations, sub-faces and all other quantities are independent."""
OVER = ["inputs"]
QTEXT = "for every stress, velocity, slip, material and friction parameter"
WHY = "tests check a few states with positive background stress only"
FILES = ["src/impl/seismic/solvers/FrictionLaws.hpp", "src/impl/seismic/solvers/FrictionLaws.type"]
MECH = [("friction laws", "FrictionLaws<2>::perturb, linSlipWeak; FrictionLaws<3>::perturb, linSlipWeak")]
BOUNDS = "two sub-faces, one or two fused simulations; stresses, velocities, slips in [-4,4]; 2D: all parameters arbitrary (one simulation); 3D and fused: fixed material and friction parameters; 3D: six directions of the shear stress, with fused simulations two and one simulation fixed"
ASSUMPTIONS = [REAL]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000, fsplit=True)


def jobs(tier):
    js = []

    def add(n, el, crs=1, **x):
        js.append(J("fric.cpp", n, cfg=dict(eq="ELASTIC", el=el, order=2, prec=64, crs=crs), opt=O, DIM2=int(el == "TRIA3"), **x))
    add("params_2d", "TRIA3", PARAMS=1)
    add("fused_2d", "TRIA3", 2, PARAMS=0, ONESF=1)
    add("dirs_3d", "TET4", PARAMS=0, DIRS=1)
    add("fused_3d", "TET4", 2, PARAMS=0, DIRS=1)
    return js
