"""C04: the half-edges, vertices and sites form a consistent planar subdivision."""
from .. import diagrams, oracle, spaces

BOUNDS = {t: spaces.describe(t) for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon",
               "next and prev of the half-edges on the outside of the polygon are not specified"]


def jobs(tier):
    return diagrams.jobs(tier)


def judge(v, m, tol, coarse):
    return oracle.dcel(v, m), sum(6 for e in v.edges for _ in (e, e.twin))


def work(job, out):
    # transitions: pointers followed (twin, next, prev, origin, target, incident point of every half-edge)
    def counted(v, m, tol, coarse):
        bad, pointers = judge(v, m, tol, coarse)
        out.transition(pointers)
        return bad, pointers

    diagrams.explore(job, out, counted)


def replay(case):
    return diagrams.replay(case, judge)
