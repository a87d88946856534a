"""C03: the listed edges and vertices are exactly those of the bounded Voronoi diagram."""
import math

from .. import diagrams, fine, oracle, spaces

BOUNDS = {t: spaces.describe(t) + "; " + fine.describe(t) for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon",
               "positions agree up to 1e-9 of the extent; where the input is degenerate up to rounding only, edges "
               "shorter than that may be there or not"]


def jobs(tier):
    yield from fine.jobs(tier)
    yield from diagrams.jobs(tier)


def judge(v, m, tol, coarse):
    bad = oracle.edges(v, m, tol, coarse=coarse) + oracle.vertices(v, m, tol, coarse=coarse)
    if not coarse:
        bad += oracle.zero_length(v, m, tol)
    # empty circles, independently of the model: no site is closer to a vertex than the sites around it
    around = {}
    for e in v.edges:
        for h in (e, e.twin):
            if h.incident_point is not None:
                around.setdefault(id(h.origin), []).append(h.incident_point)
                around.setdefault(id(h.target), []).append(h.incident_point)
    if not bad:
        at = {id(s): m.at(s) for s in v.sites}
        for vertex in v.vertices:
            x, y = m.at(vertex)
            best = min(math.hypot(x - s[0], y - s[1]) for s in at.values())
            for s in around.get(id(vertex), ()):
                if math.hypot(x - at[id(s)][0], y - at[id(s)][1]) > best + 16 * tol.pos:
                    bad.append(f"vertex {vertex.xy} borders the cell of {s.xy}, but another site is closer")
    return bad, ([m.at(p) for p in v.vertices], [m.at(s) for s in v.sites], {m.at(p) for p in v.bounding_poly.points},
                 tol.pos)


def relate(space, parent, child):
    """One more site: the vertices it is closer to disappear, all others stay."""
    (_, (before, old, corners, _)), (_, (after, sites, _, tol)) = parent, child
    new = sites[-1]
    slack = 1e4 * tol
    bad = []
    for p in before:
        nearest = min(math.hypot(p[0] - s[0], p[1] - s[1]) for s in old)
        distance = math.hypot(p[0] - new[0], p[1] - new[1])
        there = any(oracle.near(p, q, 8 * tol) for q in after)
        if not there and (distance > nearest + slack or p in corners):
            bad.append(f"vertex {p} disappears, although the new site {new} is not closer to it")
        if there and distance < nearest - slack and p not in corners and \
                all(math.hypot(p[0] - c[0], p[1] - c[1]) > slack for c in corners):
            bad.append(f"vertex {p} stays, although the new site {new} is closer to it")
    return bad


def work(job, out):
    if job[0] == "fine":
        return fine.work(job, out)
    diagrams.explore(job, out, judge, relate)


def replay(case):
    if case.get("fine"):
        return fine.replay(case)
    return diagrams.replay(case, judge, relate)
