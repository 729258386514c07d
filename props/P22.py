from common import *
TITLE = "Solver geometry: diameters, tangents, normals, rotations, domains are exact"
STATEMENT = """For every non-degenerate entity the solver's geometry routines return the exact quantities: in-diameters of triangles and tets, lengths, areas and volumes, orthonormal face tangents following the vertices, unit normals orthogonal to the face and pointing away from the given point,
and the normals, tangents and areas of the additional faces of the tetrahedral sub-grid. Rotation matrices map the first to the second direction and are proper rotations; scalar and cross products, norms and normalizations follow their definitions.
A point is inside a half-space exactly if it is on the side of the normal (or on the plane), independent of the normal's length, and inside a domain exactly if it is inside all of its half-spaces."""
OVER = ["inputs"]
QTEXT = "for every position of the symbolic coordinates, vectors, planes and points"
WHY = "tests sample a few hand-made entities; half-space and domain tests are not built"
FILES = ["src/linalg/Geom.hpp", "src/linalg/HalfSpace.hpp", "src/linalg/Domain.hpp", "src/linalg/Matrix.h"]
MECH = [("entities", "Geom::inDia, volume, computeTangents, computeOutPtNormal, sfAdd"), ("vectors", "Geom::sprod*, norm*, normalize*, cross3, GeomT, GeomTs::rotMat"), ("domains", "HalfSpace::inside, Domain::inside")]
BOUNDS = "one or two coordinates of generic entities are arbitrary in [-4,4] per query, which coordinates rotates over the queries; vectors, points and origins of half-spaces fully arbitrary; half-spaces with six directions of rational length; up to two half-spaces"
ASSUMPTIONS = [REAL, "angles (arc tangent of third-party wykobi) are outside"]
O = dict(fp="real", timeout_ms=5000, assert_timeout_ms=60000)


def jobs(tier):
    js = []

    def add(n, case, el="TET4", **x):
        js.append(J("geom2.cpp", n, cfg=dict(eq="ELASTIC", el=el, order=2, prec=64), opt=O, CASE=case, **x))
    full = tier == "thorough"
    for o in range(6) if full else (0, 3, 4):
        add("india_tria3_%d" % o, 0, "TRIA3", SOFF=o, SYM=2, VP_PARAM=o)
        add("line_%d" % o, 4, "TRIA3", SOFF=o, SYM=2, VP_PARAM=o)
    for o in range(12) if full else (1, 6, 11):
        if full or o == 6:
            add("india_tet4_%d" % o, 1, SOFF=o, SYM=1, VP_PARAM=o)
        add("sf0_%d" % o, 5, SOFF=o, SYM=1, TYP=0, VP_PARAM=o)
        add("sf1_%d" % o, 5, SOFF=o, SYM=1, TYP=1, VP_PARAM=o)
        add("normal_%d" % o, 3, SOFF=o, SYM=1, VP_PARAM=o)
    for o in range(9) if full else (0, 4, 8):
        add("tangents_%d" % o, 2, SOFF=o, SYM=1, VP_PARAM=o)
    for o in range(6) if full else (4,):
        add("rot_%d" % o, 6, SOFF=o, SYM=1, VP_PARAM=o)
    for d in (1, 2, 3):
        add("domain_%d" % d, 7, ND=d)
    add("vectors", 8)
    return js
