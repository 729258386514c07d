from common import *
TITLE = "Local time stepping: dependencies hold and the sync point is reached"
STATEMENT = """In every synchronization interval, however work packages and messages finish: every time group performs exactly its number of time steps and covers exactly the requested time; every work region of a time step (prediction, sources, update; inner and send) runs exactly once per step and in order;
an update of a group only starts with all predictions it uses available (own group, both of the group with smaller, the matching one of the group with larger time steps, received data), no prediction or buffer is overwritten before its last use or before it was sent, messages for groups with larger time steps are sent (received) every second step, and the synchronization point is reached with all messages complete."""
OVER = ["inputs", "schedules"]
QTEXT = "for every order in which workers and messages finish, and every time step and simulated time"
WHY = "the time manager is not unit tested; its dependencies only matter for particular finishing orders of asynchronous work"
FILES = ["src/time/Manager.cpp", "src/time/TimeGroupStatic.cpp", "src/time/TimeGroupStatic.h", "src/impl/seismic/inc/time/man_sched.inc", "src/impl/advection/inc/time/man_sched.inc", "src/impl/swe/inc/time/man_sched.inc"]
MECH = [("scheduling", "Manager::simulate, schedule (man_sched.inc), getTimePredAvailable, getTimePredConsumed"), ("time groups", "TimeGroupStatic::setUp, setDt, updateTsInfo, lastTimeStep, finished")]
BOUNDS = "seismic: 1-2 time groups, advection: 1-3 time groups, shallow water; up to 2 full steps of the largest group plus the synchronization step; windows of 2 to 5 consecutive scheduling rounds (at every position of the interval) in which any subset of the outstanding work finishes, outside of the window everything outstanding finishes in every round; time steps: up to 3 groups, up to 3 full steps, any step and time"
ASSUMPTIONS = [REAL, "the workers, the message layer and the computational steps are replaced by monitors which finish outstanding work at any time"]
CF = dict(s=dict(eq="ELASTIC"), a=dict(eq="ADVECTION", el="LINE", order=3), w=dict(eq="SWE", el="QUAD4R", order=1, prec=64))
M = dict(merge="all", xinc=["stubs_lts"], fp="real")


def jobs(tier):
    t = tier == "thorough"
    S = "lts.cpp"
    js = []
    for e, n, f, k, ws in [("s", 2, 0, 3, (0,)), ("s", 2, 0, 5 if t else 4, range(1, 8)), ("s", 1, 1, 5, (0, 3)), ("a", 2, 0, 5, (0, 2, 4)), ("a", 1, 1, 5, (0, 2)), ("a", 3, 0, 3 if t else 2, range(0, 12, 2)),
                           ("s", 2, 1, 3 if t else 2, (4, 6, 8))]:
        js += [J(S, "%s_tg%d_full%d_from%d_%d" % (dict(s="seismic", a="advection")[e], n, f, w, k), cfg=CF[e], opt=M, NT=n, FULL=f, W0=w, K0=k, SYNCS=1) for w in ws]
    js += [J(S, "swe", cfg=CF["w"], opt=M, NT=1, FULL=1, K0=5, SYNCS=2), J(S, "seismic_syncs", cfg=CF["s"], opt=M, NT=2, FULL=0, K0=1, SYNCS=2)]
    js += [J(S, "time_groups_%d" % n, cfg=CF["s"], opt=dict(xinc=["stubs_lts"], fp="real"), NT=n, FULL=f, TGS=1, K0=0) for n, f in [(1, 3), (2, 2), (3, 1)]]
    return js
