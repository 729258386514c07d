from common import *
TITLE = "Messages of neighbouring ranks match and their buffers are disjoint"
STATEMENT = """For every communication structure, the messages of a rank match those of its neighbours: same size and tag for send and corresponding receive, distinct tags for distinct pairs of time groups, twice the size for predictions sent to smaller time steps;
the data of the messages is consecutive, disjoint and within the allocated buffers, every communicating face (and no other) points into its message in every communication buffer, the messages of a time group are selected by the less-than rule, and with double buffering sender and receiver use the same remote buffer in every step."""
OVER = ["inputs", "histories"]
QTEXT = "for all communication structures, buffers and step counts"
WHY = "there is no test with more than one rank; a mismatch only shows for particular combinations of time groups"
FILES = ["src/parallel/Distributed.h", "src/parallel/Distributed.cpp", "src/data/Dynamic.cpp"]
MECH = [("structure", "Distributed::init, checkSendTgLt, checkRecvTgLt"), ("double buffering", "Distributed::sendCommBuffers2, recvCommBuffers2, reset")]
BOUNDS = "two ranks, up to 2 (thorough: 3) channels with 1-2 faces each among 3 time groups, 1-2 bytes per face, 1-2 communication buffers; step counts up to 1000"
ASSUMPTIONS = ["single-process build without MPI: the message passing calls themselves are not encoded"]


def jobs(tier):
    t = tier == "thorough"
    S = "dist.cpp"
    return [J(S, "structure", CASE=0, NCH=3 if t else 2, NTG=3), J(S, "buffers", CASE=1), J(S, "minimum", CASE=2)]
