"""C20: a breakpoint lies where the parabolas of its two sites meet, on the right side, and moves along their bisector."""
import itertools
from decimal import Decimal as D, localcontext

import numpy as np

from .. import core, impl
from foronoi.graph import Point
from foronoi.nodes import Arc, Breakpoint

VIEWS = {"plain": (D(1), D(0), D(0)), "negative": (D("0.5"), D(-7), D(-3)), "far": (D(1), D(100000), D(-200000)), "thirds": (D("0.333333333333"), D(0), D(0)),
         "small": (D("0.0001"), D(0), D(1))}
SIZE = {"quick": 5, "thorough": 7}
DROPS = {"quick": [D(0), D("1e-18"), D("1e-12"), D("1e-7"), D("0.001"), D("0.5"), D(1), D(3), D(40)],
         "thorough": [D(0), D("1e-19"), D("1e-18"), D("1e-15"), D("1e-12"), D("1e-10"), D("1e-9"), D("1e-8"), D("1e-7"), D("1e-6"), D("0.001"), D("0.1"), D("0.5"), D(1), D(2), D(3), D(10), D(40), D(1000)]}
NEARLY = [D(s) for s in ("1e-4", "1e-7", "1e-10", "1e-12", "-1e-4", "-1e-8", "-1e-10", "-1e-12")]
BOUNDS = {t: f"both breakpoints of all pairs of sites of a {n} x {n} lattice in {len(VIEWS)} positions and sizes, the sweep line "
             f"{[float(d) for d in DROPS[t]]} lattice widths below the lower site; the arcs of all these sites at 9 places; both breakpoints "
             f"of pairs that are {[float(d) for d in NEARLY]} lattice widths from being level, from being above each other, or from being at the same place" for t, n in SIZE.items()}
ASSUMPTIONS = ["distinct sites on or above the sweep line"]


def jobs(tier):
    n = SIZE[tier]
    for view in VIEWS:
        for k in range(n * n):
            yield (view, n, k, tier)
        yield (view, n, "nearly", tier)


def parabola(site, l, x):
    """Height of the parabola over x, or None on the sweep line."""
    if site[1] == l:
        return None
    return ((x - site[0]) ** 2 + site[1] ** 2 - l ** 2) / (2 * (site[1] - l))


def check_breakpoint(i, j, drops, out=None):
    """i, j: (x, y) Decimals. Every position of the sweep line, from top to bottom."""
    bad = []
    scale = max(abs(i[0] - j[0]), abs(i[1] - j[1]))
    low = min(i[1], j[1])
    before = None
    bp = Breakpoint(breakpoint=(Point(i[0], i[1], name=0), Point(j[0], j[1], name=1)))
    here = f"of {tuple(map(float, i))} and {tuple(map(float, j))}"
    intersects, complaint = core.attempt(bp.does_intersect)
    level_wrong = i[1] == j[1] and j[0] < i[0]
    if complaint or bool(intersects) == level_wrong:
        bad.append(complaint or f"the breakpoint {here} is said to {'' if intersects else 'not '}exist")
    for drop in drops:
        l = low - drop * scale
        if abs((low - l) - drop * scale) > drop * scale * D("1e-3"):
            continue  # (a height that the decimals cannot hold)
        for top in (None, low + 2 * scale):
            result, complaint = core.attempt(bp.get_intersection, l, max_y=top)
            if out is not None:
                out.state()
            if complaint:
                bad.append(f"the breakpoint {here} at {float(l)!r} {complaint}")
                continue
            with localcontext() as c:
                c.prec = 60
                x, y = result.xd, result.yd
                tol = scale * D("1e-9") + (abs(i[0]) + abs(i[1])) * D("1e-14")
                if i[1] == j[1]:
                    # level sites meet in the middle; the wrong way around they meet only at infinity
                    if abs(x - (i[0] + j[0]) / 2) > tol:
                        bad.append(f"the breakpoint {here} at {float(l)!r} is at x = {float(x)!r}, not in the middle")
                    if level_wrong or drop == 0:
                        want = top if level_wrong and top is not None else D("inf")
                        if y != want:
                            bad.append(f"the breakpoint {here} at {float(l)!r} is at height {float(y)!r} instead of {float(want)!r}")
                        continue
                elif drop == 0:
                    # the lower one is just a vertical line
                    if x != (i[0] if i[1] == l else j[0]):
                        bad.append(f"the breakpoint {here} at {float(l)!r} is at x = {float(x)!r}, not below the new site")
                if not x.is_finite() or not y.is_finite():
                    bad.append(f"the breakpoint {here} at {float(l)!r} is ({x}, {y})")
                    continue
                reach = max(scale, abs(y - low), abs(x - i[0]))
                tol = reach * D("1e-9") + (abs(i[0]) + abs(i[1])) * D("1e-14") * max(1, reach / scale) ** 2
                # the digits that get lost when the parabola is very narrow
                tol += D("1e-26") * (abs(i[0]) + abs(i[1]) + abs(j[0]) + abs(j[1]) + scale) ** 2 / (drop * scale or abs(i[1] - j[1]))
                sheer = y - l
                for s in (i, j):
                    d = ((x - s[0]) ** 2 + (y - s[1]) ** 2).sqrt()
                    if abs(d - sheer) > tol:
                        bad.append(f"the breakpoint {here} at {float(l)!r}, ({float(x)!r}, {float(y)!r}), has the distances "
                                   f"{float(d)!r} to a site and {float(sheer)!r} to the sweep line")
                if drop > 0:
                    # the parabola of i is the lower one on the left, that of j on the right
                    h = scale * D("1e-3") * min(1, (drop * scale) ** D("0.5"))
                    h = max(h, abs(x - i[0]) * D("2e-11"))
                    # (or as close as the decimals get)
                    close = h * scale < D("1e-26") * (abs(i[0]) + abs(i[1]) + abs(j[0]) + abs(j[1])) ** 2
                    a, b = parabola(i, l, x - h), parabola(j, l, x - h)
                    c2, d2 = parabola(i, l, x + h), parabola(j, l, x + h)
                    if not close and not (a < b and d2 < c2):
                        bad.append(f"at the breakpoint {here} at {float(l)!r}, x = {float(x)!r}, the left and the right arc are swapped")
                if top is None:
                    along = (x - i[0]) * (j[1] - i[1]) + (y - i[1]) * (i[0] - j[0])
                    if before is not None and along < before[0] - (before[1] + tol) * scale:
                        bad.append(f"the breakpoint {here} moves backward along the bisector when the sweep line moves down to {float(l)!r}")
                    if before is not None and out is not None:
                        out.transition()
                    before = (along, tol)
    return bad


def check_arc(site, drops, out=None):
    bad = []
    for drop in drops:
        if 0 < drop < max(abs(site[0]), abs(site[1]), 1) * D("1e-12"):
            continue  # (arcs are drawn with floats)
        l = site[1] - drop
        for sweep in (l, float(l)):
            arc = Arc(Point(site[0], site[1], name=0))
            xs = np.array([float(site[0]) + k for k in (-50, -3, -1, -0.25, 0, 0.5, 1, 2, 80)])
            result, complaint = core.attempt(arc.get_plot, xs, sweep)
            if complaint:
                bad.append(f"the arc of {tuple(map(float, site))} at {float(l)!r} {complaint}")
                continue
            if out is not None:
                out.state()
                out.transition(len(xs))
            if drop == 0:
                if result is not None:
                    bad.append(f"the arc of {tuple(map(float, site))} has a shape although the sweep line is at the site")
                continue
            if result is None or len(result) != len(xs):
                bad.append(f"the arc of {tuple(map(float, site))} at {float(l)!r} has {result!r} for {len(xs)} places")
                continue
            one = arc.get_plot(float(xs[3]), sweep)
            magnitude = max(map(abs, map(float, site))) + float(abs(l)) + 100
            for x, y in list(zip(xs, result)) + [(xs[3], one)]:
                want = float(parabola(site, l, D(float(x))))
                if not abs(y - want) <= (1e-9 + 1e-15 * magnitude / float(drop)) * abs(want) + 1e-13 * magnitude ** 2 / float(drop):
                    bad.append(f"the arc of {tuple(map(float, site))} at {float(l)!r} has the height {y!r} at {x!r} instead of {want!r}")
    return bad


def place(view, p):
    k, dx, dy = VIEWS[view]
    return (p[0] * k + dx, p[1] * k + dy)


def nearly():
    """Pairs that are almost special."""
    for base in ((0, 0), (2, 3)):
        for t in NEARLY:
            for dx, dy in ((1, t), (-1, t), (t, 1), (t, -1), (t, 2 * t), (t, 0), (0, t), (-2 * t, t), (t, t * t), (t * t, t)):
                yield (D(base[0]), D(base[1])), (base[0] + dx, base[1] + dy)


def work(job, out):
    view, n, k, tier = job
    if k == "nearly":
        for i, j in nearly():
            i, j = place(view, i), place(view, j)
            bad = check_breakpoint(i, j, DROPS[tier], out)
            out.trace()
            out.outcome((i, j))
            if bad:
                out.violation(dict(kind="breakpoint", i=[str(v) for v in i], j=[str(v) for v in j], tier=tier), bad, 2)
            if out.full:
                return
        return
    lattice = [(x, y) for x in range(n) for y in range(n)]
    i = place(view, lattice[k])
    drops = DROPS[tier]
    case = dict(kind="arc", i=[str(v) for v in i], tier=tier)
    bad = check_arc(i, [d * VIEWS[view][0] for d in drops], out)
    if bad:
        out.violation(dict(case, k=str(VIEWS[view][0])), bad, 1)
    for other in lattice:
        if other == lattice[k]:
            continue
        j = place(view, other)
        bad = check_breakpoint(i, j, drops, out)
        out.trace()
        out.outcome((i[1] < j[1], i[1] == j[1], i[0] < j[0], i[0] == j[0], view))
        if bad:
            out.violation(dict(kind="breakpoint", i=[str(v) for v in i], j=[str(v) for v in j], tier=tier), bad, 2)
            if out.full:
                return
    out.sample(dict(left=[float(v) for v in i], right=[float(v) for v in j], drops=[float(d) for d in drops]))


def replay(case):
    i = tuple(map(D, case["i"]))
    if case["kind"] == "arc":
        return check_arc(i, [d * D(case["k"]) for d in DROPS[case["tier"]]])
    return check_breakpoint(i, tuple(map(D, case["j"])), DROPS[case["tier"]])
