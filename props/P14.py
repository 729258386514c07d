from common import *
TITLE = "Viscoelastic setup: strain rates, flux solvers and fit of the quality factors"
STATEMENT = """For every material the anelastic setup is consistent with the elastic one: anelastic star matrices and flux solvers act on the strain rates of the same (middle) states, for material jumps and free surfaces alike, source matrices are isotropic, their anelastic
coefficients are the least-squares fit of the given quality factors of P- and S-waves at the relaxation frequencies, and the unrelaxed moduli reproduce the given phase velocities at the central frequency. Dense and compressed matrices agree."""
OVER = ["inputs"]
QTEXT = "for every pair of materials, every pair of quality factors, every inverse Jacobian and every state"
WHY = "the tests compare single setups to precomputed matrices"
FILES = ["src/impl/seismic/setups/ViscoElasticity.cpp", "src/impl/seismic/setups/ViscoElasticity.h"]
MECH = [("anelastic coefficients", "ViscoElasticity::anelasticCoeffPs, anelasticCoeffLame"), ("unrelaxed moduli", "ViscoElasticity::elasticLame"), ("flux solvers", "ViscoElasticity::fsMid, fs"), ("star and source matrices", "ViscoElasticity::star, src")]
BOUNDS = "material parameters in [0.5,8], quality factors in [20,1000], 1-3 mechanisms, central frequencies and ratios from a fixed list"
ASSUMPTIONS = [REAL, "Eigen's least-squares solver replaced by the normal equations"]
O = dict(fp="real", timeout_ms=3000, assert_timeout_ms=60000, xinc=["stubs_eigen"])


def jobs(tier):
    js = []
    for d in (2, 3):
        c = dict(eq="VISCOELASTIC", relax=3, el="TET4" if d == 3 else "TRIA3", order=4 if d == 3 else 2, prec=64)
        js += [J("seis.cpp", "star_%dd" % d, cfg=c, opt=O, CASE=10, DIM=d)]
        js += [J("seis.cpp", "flux_%dd%s" % (d, "_free" if f else ""), cfg=c, opt=O, CASE=11, DIM=d, FREE=f) for f in (0, 1)]
        js += [J("seis.cpp", "rotate_fs_%dd" % d, cfg=c, opt=O, CASE=12, DIM=d)]
        js += [J("seis.cpp", "src_%dd_%d_%s_%s_%d" % (d, n, fc, fr, v), cfg=c, opt=O, CASE=13, DIM=d, NM=n, FC=fc, FR=fr, VAR=v) for n, fc, fr in ((1, 1.0, 1.0), (2, 0.5, 100.0), (3, 1.0, 100.0)) for v in range(n + 1)
               if tier != "quick" or v == 0 or (d, n, v) in ((2, 2, 1), (2, 3, 2), (3, 3, 3), (3, 1, 1))]
    return js
