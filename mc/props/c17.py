"""C17: the point test of a polygon says yes for every point strictly inside and no for every point strictly outside."""
import itertools
from decimal import Decimal as D

from .. import convex, core, diagrams, impl
from .c18 import WIDE
from foronoi.graph import Coordinate, Point, Vertex

# (lattice, scale, offset): the lattice keeps both axes and points at the height of corners in play
VIEWS = {
    "plain": (1, 0, 0), "centred": (2, -3, -3), "negative": (1, -7, -12), "tenths": (D("0.1"), 0, D("-0.1")),
    "tall": ((1, 1000), 0, 0), "flat": ((1000, 1), 0, 0), "huge": (10 ** 7, 10 ** 8, -10 ** 8), "tiny": (D("1e-7"), 0, 0),
}
LATTICE = {"quick": [("plain", 4, 4), ("centred", 4, 3), ("negative", 4, 3), ("tenths", 4, 3), ("tall", 3, 3), ("flat", 3, 3), ("huge", 3, 3), ("tiny", 3, 3)],
           "thorough": [("plain", 5, 5), ("centred", 4, 4), ("negative", 4, 4), ("tenths", 4, 4), ("tall", 4, 4), ("flat", 4, 4), ("huge", 4, 4), ("tiny", 4, 4)]}
PARTS = 16
NEXT_TO = [D("1e-6"), D("1e-22")]   # closer than floats can tell as well
BOUNDS = {t: "every strictly convex polygon with corners on a lattice (" + ", ".join(f"{v}: {x} x {y}" for v, x, y in LATTICE[t])
          + "), every point of the lattice of half the width around it, and for every side the points next to its middle and next to its "
            f"ends on both sides ({', '.join(map(str, NEXT_TO))} lattice widths away); the polygons {', '.join(WIDE)} with up to {max(len(p) for p, _ in WIDE.values())} corners, "
            "the points next to their sides and corners and those at the height, or above and below, of every corner" for t in LATTICE}
ASSUMPTIONS = ["strictly convex polygon", "points on the outline are not specified"]
KINDS = [Coordinate, Point, lambda x, y: Vertex(x, y)]


def jobs(tier):
    for name in WIDE:
        yield ("wide", name)
    for view, nx, ny in LATTICE[tier]:
        for part in range(PARTS):
            yield (view, nx, ny, part)


def wide_spots(poly):
    """(point, +1 / -1) around a polygon of any kind."""
    xs, ys = sorted({x for x, _ in poly}), sorted({y for _, y in poly})
    w, h = xs[-1] - xs[0], ys[-1] - ys[0]

    def between(values, size):
        yield values[0] - size / 3
        for a, b in zip(values, values[1:]):
            yield from (a, (a + b) / 2)
        yield values[-1]
        yield values[-1] + size / 3

    px = [poly[k][0] for k in range(0, len(poly), max(1, len(poly) // 12))] + [xs[0] - w, (xs[0] + xs[-1]) / 2, xs[-1] + w]
    py = [poly[k][1] for k in range(0, len(poly), max(1, len(poly) // 12))] + [ys[0] - h, (ys[0] + ys[-1]) / 2, ys[-1] + h]
    points = [(x, y) for y in between(ys, h) for x in px] + [(x, y) for x in between(xs, w) for y in py]
    n = len(poly)
    for k in range(n):
        (ax, ay), (bx, by) = poly[k], poly[(k + 1) % n]
        for t, eps, sign in itertools.product((D("0.001"), D("0.5"), D("0.999")), NEXT_TO[:1], (1, -1)):
            points.append((ax + t * (bx - ax) - sign * eps * (by - ay), ay + t * (by - ay) + sign * eps * (bx - ax)))
    for p in dict.fromkeys(points):
        where = convex.side(poly, p)
        # (not as close to the outline as the digits end)
        if where and all(convex.side(poly, (p[0] + dx, p[1] + dy)) == where for dx, dy in
                         itertools.product((-w * D("1e-12"), w * D("1e-12")), (-h * D("1e-12"), h * D("1e-12")))):
            yield p, where


def transform(view):
    scale, dx, dy = VIEWS[view]
    sx, sy = scale if isinstance(scale, tuple) else (scale, scale)
    return lambda p: (D(p[0]) * sx + dx, D(p[1]) * sy + dy)


def spots(poly, nx, ny):
    """(point, +1 / -1) on the finer lattice, in units of the lattice."""
    half = D("0.5")
    for ky in range(-2, 2 * ny + 1):
        for kx in range(-2, 2 * nx + 1):
            where = convex.side([(2 * x, 2 * y) for x, y in poly], (kx, ky))
            if where:
                yield (kx * half, ky * half), where
    n = len(poly)
    for k in range(n):
        (ax, ay), (bx, by) = poly[k], poly[(k + 1) % n]
        for t, eps in itertools.product((D("0.001"), half, D("0.999")), NEXT_TO):
            for sign in (1, -1):
                # inside is on the left of a -> b
                p = (ax + t * (bx - ax) - sign * eps * (by - ay), ay + t * (by - ay) + sign * eps * (bx - ax))
                if convex.side(poly, p) == sign:
                    yield p, sign


def check(poly, points, out=None):
    """poly: corners; points: [(point, where)], both as given to the library."""
    def run():
        polygon = impl.Polygon(poly)
        return [(p, where, polygon.inside(KINDS[i % 3](*p))) for i, (p, where) in enumerate(points)]

    result, complaint = core.attempt(run)
    if complaint:
        return [complaint]
    return [f"{tuple(map(float, p))} lies {'inside' if where > 0 else 'outside'} of the polygon, the test says {got!r}"
            for p, where, got in result if bool(got) != (where > 0)]


def work(job, out):
    if job[0] == "wide":
        corners = [(D(str(x)), D(str(y))) for x, y in WIDE[job[1]][0]]
        points = list(wide_spots(convex.counter_clockwise(corners)))
        bad = check(corners, points)
        out.state(len(points))
        out.transition(len(points))
        out.trace()
        out.outcome((job[1], sum(w > 0 for _, w in points)))
        if bad:
            out.violation(dict(poly=diagrams.encode(corners), points=[[repr(x), repr(y), w] for (x, y), w in points]), bad, len(corners))
        return
    view, nx, ny, part = job
    move = transform(view)
    last = None
    for k, poly in enumerate(convex.polygons(nx, ny)):
        if k % PARTS != part:
            continue
        corners = [move(p) for p in poly]
        points = [(move(p), where) for p, where in spots(poly, nx, ny)]
        bad = check(corners, points)
        out.state(len(points))
        out.transition(len(points))  # one question each
        out.trace()
        inside = sum(where > 0 for _, where in points)
        out.outcome((len(poly), inside))
        last = dict(corners=[tuple(map(float, c)) for c in corners], inside=inside, outside=len(points) - inside)
        if bad:
            out.violation(dict(poly=diagrams.encode(corners), points=[[repr(x), repr(y), w] for (x, y), w in points]), bad, len(poly))
            if out.full:
                return
    if last:
        out.sample(last)


def replay(case):
    points = [((diagrams._number(x), diagrams._number(y)), w) for x, y, w in case["points"]]
    return check(diagrams.decode(case["poly"]), points)
