from common import *
TITLE = "LTS groups: stable, single-level jumps, largest admissible assignment"
STATEMENT = """Every element is put into a time-step group whose time step does not exceed the element's own CFL time step, and face-adjacent elements are at most one group apart. The assignment is the largest one with these two
properties, and the reported group intervals, per-group and per-region counts and the speedup are those of the assignment."""
OVER = ["inputs", "configurations"]
QTEXT = "for every symmetric face adjacency, every set of element time steps, every list of rates and every fundamental time step"
WHY = "the tests use three fixed meshes with fixed time steps; the guarantee is about all time-step distributions and adjacencies"
FILES = ["tools/edge_v/src/time/Groups.cpp", "tools/edge_v/src/time/Groups.h"]
MECH = [("initial group by interval", "Groups::setElTg"), ("normalization to single-level jumps", "Groups::normalizeElTgs"), ("counts", "Groups::nGroupEls"), ("speedup", "Groups::getLoads")]
BOUNDS = "2-4 elements, 0-3 rates, every symmetric face adjacency within the element type's number of faces, every real time step in [1,1000], every rate in (1,2], every fundamental step in (0,1]"
ASSUMPTIONS = [REAL, SEQ]


def jobs(tier):
    def j(n, **k):
        return J("groups.cpp", n, inc="edge_v", **k)
    out = [j("tria3_r2_region", NELS=3, NR=2, ELTY="TRIA3", BACK=0, REGION=1),
           j("tet4_r3", NELS=3, NR=3, ELTY="TET4", BACK=1),
           j("tria3_r3", NELS=3, NR=3, ELTY="TRIA3", BACK=0),
           j("line_4_r2", NELS=4, NR=2, ELTY="LINE", BACK=1),
           j("hex8r_4_r1", NELS=4, NR=1, ELTY="HEX8R", BACK=0),
           j("quad4r_2_r3", NELS=2, NR=3, ELTY="QUAD4R", BACK=0, REGION=1),
           j("gts", NELS=3, NR=0, ELTY="TRIA3", BACK=0, REGION=1)]
    if tier == "thorough":
        out += [j("line_4_r3", NELS=4, NR=3, ELTY="LINE", BACK=0), j("tria3_4_r2", NELS=4, NR=2, ELTY="TRIA3", BACK=0),
                j("tet4_4_r2", NELS=4, NR=2, ELTY="TET4", BACK=1)]
    return out
