from common import *
TITLE = "SWE f-wave solver: conservative, well-balanced, upwind, mirror-symmetric"
STATEMENT = """The net-updates of the two sides of a face sum up to the jump of the fluxes plus the bathymetry source. A lake at rest and constant states produce no updates, waves travel with the Einfeldt speeds of the given gravity (none against supercritical flow), and mirroring the
Riemann problem mirrors the updates."""
OVER = ["inputs"]
QTEXT = "for every pair of wet states, bathymetries and every gravity constant"
WHY = "the only test evaluates the eigenvalues of one state pair; conservation and well-balancedness are identities over all states"
FILES = ["src/impl/swe/solvers/Fwave.hpp"]
MECH = [("eigenvalues", "Fwave::evs"), ("wave decomposition", "Fwave::waveStrengths"), ("net-updates", "Fwave::nus, Fwave::nusN")]
BOUNDS = "water heights in [0.5,4], momenta and bathymetry in [-4,4], gravity in [1,16]"
ASSUMPTIONS = [REAL]
C = dict(eq="SWE", el="QUAD4R", order=1, prec=64)
O = dict(timeout_ms=3000, assert_timeout_ms=60000, fsplit=True, branch_ms=700)


def jobs(tier):
    return [J("swe.cpp", n, cfg=C, opt=O, CASE=i) for i, n in enumerate(["conservation", "wellbalanced", "mirror"])]
