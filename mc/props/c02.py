"""C02: borders() and vertices() of a site walk once around exactly its region."""
from .. import diagrams, oracle, spaces

BOUNDS = {t: spaces.describe(t) for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon",
               "corners agree up to 1e-9 of the extent; where the input is degenerate up to rounding only, corners "
               "closer than that may be there more than once"]


def jobs(tier):
    return diagrams.jobs(tier)


def judge(v, m, tol, coarse):
    bad = oracle.regions(v, m, tol, coarse=coarse)
    for i, site in enumerate(v.sites):
        if not m.cells[i]:
            continue
        if site.first_edge is None:
            bad.append(f"site {i} has no first edge")
        elif site.first_edge not in site.borders() or site.borders()[0] is not site.first_edge:
            bad.append(f"site {i}: the walk does not start at the first edge")
    if bad:
        return bad, None
    cells, near = [], []
    for site in v.sites:
        borders = site.borders()
        cells.append(sorted(m.at(b.origin) for b in borders))
        near.append({id(b.twin.incident_point) for b in borders})
    touching = [id(v.sites[-1]) in other for other in near]
    return bad, (cells, touching, tol.pos)


def relate(space, parent, child):
    """One more site only changes the cells that its own cell touches."""
    (_, before), (_, (cells, touching, tol)) = parent, child
    bad = []
    for i, (a, b) in enumerate(zip(before[0], cells)):
        if touching[i] or not b:  # (a part of a site outside the polygon may disappear altogether)
            continue
        if not all(any(oracle.near(p, q, 8 * tol) for q in b) for p in a) or \
                not all(any(oracle.near(p, q, 8 * tol) for q in a) for p in b):
            # the new cell may also touch this one in a single corner, which does not change it, so: any change is wrong
            bad.append(f"the cell of site {i} changes from {a} to {b}, although the new cell does not touch it")
    return bad if space.mode == "strict" else []


def work(job, out):
    diagrams.explore(job, out, judge, relate)


def replay(case):
    return diagrams.replay(case, judge, relate)
