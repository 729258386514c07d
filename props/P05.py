from common import *
TITLE = "edge_v communication: channels cover all cut faces and match on both sides"
STATEMENT = """Every face between two partitions appears exactly once among the send entries of both partitions, in the channel of its local time group, remote partition and remote time group. Both ends of a channel have the same length and order: the i-th face sent is the
face the peer receives at position i. Inner and send element counts are those of the partition and time group."""
OVER = ["inputs", "configurations"]
QTEXT = "for every face adjacency, partition sizes and time groups of elements sorted by partition, inner-before-send and time group"
WHY = "the test checks one small example; mismatching orders would silently exchange data of wrong faces for other graphs"
FILES = ["tools/edge_v/src/mesh/Communication.cpp", "tools/edge_v/src/mesh/Communication.h"]
MECH = [("send messages", "Communication::getMsgsSend"), ("mirroring", "Communication::getStruct"), ("element-face pairs", "Communication::setSeReElFa")]
BOUNDS = "4 elements in 2 partitions with every adjacency; 4-5 elements in 2-3 partitions with every adjacency between partitions; 2-3 time groups"
ASSUMPTIONS = ["two elements share at most one face", "every partition owns at least one element and has at least one face to another partition (connected mesh; the code aborts otherwise)"]


def jobs(tier):
    def j(n, **k):
        return J("comm.cpp", n, inc="edge_v", **k)
    out = [j("tria3_4_2", NELS=4, NPA=2, ELTY="TRIA3", INNER=1), j("tet4_5_2", NELS=5, NPA=2, ELTY="TET4", INNER=0), j("quad_4_3", NELS=4, NPA=3, ELTY="QUAD4R", INNER=1, NTG=2),
           j("line_4_3", NELS=4, NPA=3, ELTY="LINE", INNER=0, NTG=3)]
    if tier == "thorough":
        out += [j("hex_5_3", NELS=5, NPA=3, ELTY="HEX8R", INNER=0), j("tria3_5_2_tg3", NELS=5, NPA=2, ELTY="TRIA3", INNER=0, NTG=3)]
    return out
