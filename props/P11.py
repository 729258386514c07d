from common import *
TITLE = "Work packages partition the work; workers get ready work by priority"
STATEMENT = """For every number of workers, region sizes, sparse entities and measured times, the (re-)balanced work packages of a region are consecutive, disjoint and cover exactly the region, with the matching first sparse entities;
workers are handed work exactly if one of their packages is ready, by descending priority; a region counts as finished only once every worker finished it; first-touch initialization covers every value exactly once."""
OVER = ["inputs", "histories"]
QTEXT = "for all measured times, sizes, sparse patterns, priorities and sequences of operations"
WHY = "measured times are arbitrary; a package lost or duplicated for some timing silently skips or repeats elements"
FILES = ["src/parallel/LoadBalancing.h", "src/parallel/LoadBalancing.cpp", "src/parallel/Shared.h", "src/parallel/Shared.cpp"]
MECH = [("load balancing", "LoadBalancing::regWrkRgn, balanceWrkRgn, resolveSpEn, getWrkTd"), ("status", "Shared::regWrkRgn, getWrkTd, setStatusAll, setStatusTd, getStatusAll, resetStatus"), ("first touch", "Shared::numaInit")]
BOUNDS = "2-3 workers, regions of up to 4 entities, two sparse types, up to 2 re-balancing steps with any elapsed times in [0,10] s; statuses: 2 regions x 2 workers x 6 operations, 3 regions x 1 worker x 5 operations, any priorities; first touch: 1-4 workers, up to 9 entries"
ASSUMPTIONS = [REAL, "the wall clock is replaced by arbitrary elapsed times", "thread ids are set by the harness; concurrent accesses to the statuses are not interleaved below the level of the operations"]


def jobs(tier):
    t = tier == "thorough"
    S = "shared.cpp"
    return [J(S, "balance_2", CASE=0, NW=2, NE=5 if t else 4, BAL=2), J(S, "balance_sparse", CASE=0, NW=2, NE=3, BAL=1, SPARSE=1), J(S, "balance_3", CASE=0, NW=3, NE=4, BAL=2 if t else 1),
            J(S, "status_2", CASE=1, NW=2, NR=2, NE=4, OPS=8 if t else 6), J(S, "status_3", CASE=1, NW=1, NR=3, NE=4, OPS=6 if t else 5), J(S, "numa", CASE=2)]
