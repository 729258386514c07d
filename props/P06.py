from common import *
TITLE = "edge_v partitioner: weighted dual graph handed over and priorities are right"
STATEMENT = """The graph given to the partitioner is the face adjacency of the mesh, with vertex weights equal to the relative update frequency and every edge's weight equal to the communication frequency of its two elements. From any returned partitioning, counts per partition are exact and
element priorities order by partition, inner before send elements, and time group."""
OVER = ["inputs", "configurations"]
QTEXT = "for every face adjacency, every time-group assignment and every answer of the partitioning library"
WHY = "the tests check two examples and one METIS answer; asymmetric weights never show up as test failures"
FILES = ["tools/edge_v/src/mesh/Partition.cpp", "tools/edge_v/src/mesh/Partition.h"]
MECH = [("dual graph", "Partition::getDualGraph"), ("weights", "Partition::getWeights"), ("priorities", "Partition::getElPr"), ("counts", "Partition::nPaEls")]
BOUNDS = "3-4 elements, 2-3 partitions, 2-3 time groups, every symmetric adjacency, every partitioning using the last partition id"
ASSUMPTIONS = ["METIS replaced by an arbitrary partitioning", "two elements share at most one face"]


def jobs(tier):
    def j(n, **k):
        return J("part.cpp", n, inc="edge_v", **k)
    out = [j("tria3_3_2", NELS=3, NPA=2, ELTY="TRIA3"), j("tet4_3_3", NELS=3, NPA=3, ELTY="TET4", NTG=2), j("line_3_2", NELS=3, NPA=2, ELTY="LINE", NTG=2)]
    if tier == "thorough":
        out += [j("tria3_4_2", NELS=4, NPA=2, ELTY="TRIA3", NTG=2)]
    return out
