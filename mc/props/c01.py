"""C01: the area reported for every cell is the exact area of the cell."""
from .. import diagrams, oracle, spaces

BOUNDS = {t: spaces.describe(t) for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon", "areas agree up to 1e-9 of the squared extent"]


def jobs(tier):
    return diagrams.jobs(tier)


def judge(v, m, tol, coarse):
    bad = oracle.area(v, m, tol)
    for i, site in enumerate(v.sites):
        exact = m.area(i)
        for digits in (-1, 0, 1, 2, 5):
            got = float(site.area(digits=digits))
            unit = 10.0 ** -digits
            if not abs(got - exact) <= 0.5 * unit + tol.area + 1e-12 * abs(exact):
                bad.append(f"site {i}: area rounded to {digits} digits is {got!r}, the area is {exact!r}")
            elif not abs(round(got / unit) * unit - got) <= 1e-9 * max(1.0, abs(got)):
                bad.append(f"site {i}: area {got!r} is not rounded to {digits} digits")
    return bad, ([s.area() for s in v.sites], tol.area)


def relate(space, parent, child):
    """One more site: no other cell grows, and nothing of the polygon is lost."""
    (_, (before, _)), (_, (after, tol)) = parent, child
    bad = []
    for i, (a, b) in enumerate(zip(before, after)):
        if not b <= a + 2 * tol:
            bad.append(f"the cell of site {i} grows from {a!r} to {b!r} when another site is added")
    if not abs(sum(before) - sum(after)) <= tol * (len(after) + 1):
        bad.append(f"adding a site changes the total area from {sum(before)!r} to {sum(after)!r}")
    return bad


def work(job, out):
    diagrams.explore(job, out, judge, relate)


def replay(case):
    return diagrams.replay(case, judge, relate)
