from common import *
TITLE = "Sparse entities and data layouts are consistent with the dense mesh"
STATEMENT = """For every assignment of sparse-type bits and every adjacency, the sparse ids, counts, links and flexible data allocations agree with enumerating the dense entities in order:
per-region counts and first ids, dense/sparse/adjacency links (invalid id where there is no sparse neighbour or no neighbour at all), propagation and inheritance of bits, and disjoint, complete, consecutive data regions (inner, send, receive) for communication."""
OVER = ["inputs"]
QTEXT = "for every sparse-type bit pattern, bit mask, adjacency (with undefined entries) and region sizes"
WHY = "the tests run one fixed example per function; offsets and links must be right for every pattern, as all kernels index their data through them"
FILES = ["src/data/SparseEntities.hpp", "src/data/DataLayout.hpp", "src/data/Dynamic.h", "src/data/EntityLayout.cpp"]
MECH = [("counts and links", "SparseEntities::nSp, denseToSparse, subRgnsSpId, linkSpDe, linkSpSp, linkSpAdjSst, linkSpAdjDst, nLinkSpAdjDst"), ("bit propagation", "SparseEntities::inherit, propAdj"),
        ("data", "Dynamic::flex, DataLayout::adj, EntityLayout::sizesToLayout")]
BOUNDS = "up to 4 entities with 3 type bits, 2 adjacent entities each, 3 target entities; layouts with 2 time groups and 2 communication regions"
ASSUMPTIONS = ["heap allocations succeed"]
O = dict(fp="real")


def jobs(tier):
    t = tier == "thorough"
    S = "sparse.cpp"
    js = [J(S, "counts", CASE=0, N=4 if t else 3), J(S, "links", CASE=1, N=5 if t else 4), J(S, "propagate", CASE=2, N=3 if t else 2),
          J(S, "adj_single", CASE=3, SUB=0, N=3 if t else 2), J(S, "adj_double", CASE=3, SUB=1, N=3 if t else 2), J(S, "adj_dynamic", CASE=3, SUB=2, N=3 if t else 2),
          J(S, "layout", CASE=4), J(S, "flex", CASE=5, N=3 if t else 2)]
    js += [J(S, "data_adj_%d%d%d%d" % (i, u, s, r), CASE=6, NS1=s, NR1=r, SMAX=2 if t else 1, NIN=i, USE=u) for i in (1, 0) for u in (1, 0) for s in (1, 0) for r in (1, 0) if t or (i, u, s, r) != (1, 1, 1, 1)]
    return js
