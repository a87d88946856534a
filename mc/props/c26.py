"""C26: distances, directions and crossings of rays with segments are right in every direction and at every scale."""
import itertools
import math
from decimal import Decimal as D, localcontext
from fractions import Fraction as F


from .. import core, impl, ref
from foronoi.graph import Coordinate, Point, Vertex
from foronoi.graph.algebra import Algebra

SIZE = {"quick": (4, 4), "thorough": (5, 6)}
# k, dx, dy: x -> k x + dx
VIEWS = {"plain": (1, 0, 0), "tenths": (D("0.1"), 0, 0), "half": (D("0.5"), 0, 0), "moved": (1, D("-1.5"), D("-2.5")), "turned": (-3, 4, 1), "tiny": (D("1e-7"), 0, 0), "huge": (10 ** 8, -2 * 10 ** 8, 5 * 10 ** 8),
         "away": (1, 5000, -9000), "small away": (D("0.001"), 7, D("-13.7")), "minute": (D("1e-13"), 0, 0), "far": (D("0.1"), D("1000000.3"), D("-3000000.7"))}
SPECIAL = [(0, D("1e-9")), (1, D("1e-12")), (D("1e-9"), 0), (-1, D("-1e-12")), (-1, D("1e-12")), (D("-1e-10"), 1), (5, D("-0.0000001")), (10 ** 9, 1), (1, -10 ** 9), (-10 ** 12, -3), (3, 4)]
# The ray begins with a short step, and the segment ends shortly before or behind it; both are exact as floats.
SHORT, BESIDE = F(1, 2 ** 20), [F(1, 2 ** 33), F(-1, 2 ** 33)]
KINDS = [Coordinate, Point, Vertex]
BOUNDS = {t: f"all pairs of locations of a {x} x {y} lattice in {len(VIEWS)} sizes and places, and {len(SPECIAL)} directions close to the axes, all rays from one through another with all segments of the lattice, also with a first step of 1e-6 and with segments that end 1e-10 beside the ray; "
             f"all vectors of the lattice" for t, (x, y) in SIZE.items()}
ASSUMPTIONS = ["rays through the end of a segment, or along it, are not specified", "results are as exact as floats are"]


def jobs(tier):
    nx, ny = SIZE[tier]
    yield ("special", "plain", 0, 0, 0)
    for view in VIEWS:
        yield ("pairs", view, nx, ny, 0)
    for view in VIEWS:
        for first in range(nx * ny):
            yield ("rays", view, nx, ny, first)
    for first in range((nx - 1) * (ny - 1)):
        yield ("close", "plain", nx - 1, ny - 1, first)


def seen(view, p):
    k, dx, dy = VIEWS[view]
    return D(p[0]) * k + dx, D(p[1]) * k + dy


def sqrt(q):
    with localcontext() as context:
        context.prec = 60
        return (D(q.numerator) / D(q.denominator)).sqrt()


def check_pair(p, q, kind=0):
    """Distance of, and direction from, the location p to q; and the vector from p to q."""
    dx, dy = ref.exact(q[0]) - ref.exact(p[0]), ref.exact(q[1]) - ref.exact(p[1])
    want = sqrt(dx * dx + dy * dy)
    a, b = KINDS[kind](*p), KINDS[kind - 1](*q)

    def run():
        bad = []
        got = Algebra.distance(a, b)
        if not abs(float(got) - float(want)) <= 1e-12 * float(want):
            bad.append(f"the distance between {_f(p)} and {_f(q)} is {got}, should be {want:.15}")
        vector = [float(dx), float(dy)]
        got = Algebra.magnitude(vector)
        if not abs(float(got) - float(want)) <= 1e-12 * float(want):
            bad.append(f"the length of {vector} is {got}, should be {float(want)}")
        got = [float(c) for c in Algebra.norm(vector)]
        unit = [float(dx / F(want)), float(dy / F(want))] if want else [0, 0]
        if len(got) != 2 or not all(abs(c - d) <= 1e-12 for c, d in zip(got, unit)):
            bad.append(f"the direction of {vector} is {got}, should be {unit}")
        if want:
            angle = Algebra.calculate_angle(b, a)
            if not 0 <= angle <= 360:
                bad.append(f"the angle of {_f(q)} around {_f(p)} is {angle}")
            r = math.radians(angle)
            if not all(abs(c - d) <= 3e-14 for c, d in zip((math.cos(r), math.sin(r)), unit)):
                bad.append(f"the angle of {_f(q)} around {_f(p)} is {angle}, should be {math.degrees(math.atan2(unit[1], unit[0])) % 360}")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def _f(p):
    return tuple(map(float, p))


def crossing(p, q, a, b):
    """Where the ray from p through q crosses the segment from a to b; None if it does not, "?" if that is not specified."""
    px, py, qx, qy, ax, ay, bx, by = (ref.exact(c) for c in (*p, *q, *a, *b))
    dx, dy, sx, sy = qx - px, qy - py, bx - ax, by - ay
    cross = dx * sy - dy * sx
    off = (ax - px) * dy - (ay - py) * dx
    if cross == 0:
        return "?" if off == 0 or (sx, sy) == (0, 0) else None
    t = ((ax - px) * sy - (ay - py) * sx) / cross
    s = ((ax - px) * dy - (ay - py) * dx) / cross
    if t < 0 or s < 0 or s > 1:
        return None
    if t == 0 or s in (0, 1):
        return "?"
    return px + t * dx, py + t * dy


def check_ray(p, q, a, b, kind=0):
    want = crossing(p, q, a, b)
    if want == "?":
        return []
    size = max(abs(float(c)) for r in (p, q, a, b) for c in r)

    def run():
        bad = []
        raw = Algebra.line_ray_intersection_point(*[[float(c) for c in r] for r in (p, q, a, b)])
        whole = Algebra.get_intersection(*[KINDS[kind](*r) for r in (p, q, a, b)])
        for what, got in (("floats", tuple(map(float, raw[0])) if len(raw) else None), ("locations", whole.xy if whole is not None else None)):
            if (got is None) != (want is None):
                bad.append(f"with {what}: the ray from {_f(p)} through {_f(q)} meets the segment from {_f(a)} to {_f(b)} at {got}, should be {want and _f(want)}")
            elif want is not None and not all(abs(c - float(d)) <= size * 1e-11 for c, d in zip(got, want)):
                bad.append(f"with {what}: the ray from {_f(p)} through {_f(q)} meets the segment from {_f(a)} to {_f(b)} at {got} instead of {_f(want)}")
        if len(raw) > 1:
            bad.append(f"{len(raw)} crossings")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_missing():
    """Without a beginning or an end there is no ray."""
    c = [Coordinate(0, 0), Coordinate(2, 2), Coordinate(0, 2), Coordinate(2, 0)]

    def run():
        return [f"there is a crossing although the {w} of the ray is missing" for w, args in (("beginning", (None, c[1])), ("end", (c[0], None)))
                if Algebra.get_intersection(*args, c[2], c[3]) is not None]
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def work(job, out):
    what, view, nx, ny, first = job
    grid = [seen(view, (x, y)) for x in range(nx) for y in range(ny)]
    if what == "special":
        bad = check_missing()
        out.state()
        if bad:
            out.violation(dict(what="missing"), bad, 0)
        pairs = [((D(x), D(y)), (D(x) + dx, D(y) + dy)) for x, y in ((0, 0), (3, -7), (D("0.5"), D("1e-3"))) for dx, dy in SPECIAL]
    else:
        pairs = list(itertools.product(grid, grid)) if what == "pairs" else []
    if what == "close":
        return close(nx, ny, first, out)
    for k, (p, q) in enumerate(pairs):
        bad = check_pair(p, q, k % 3)
        out.state()
        out.trace()
        out.transition(4)
        out.outcome((what, view, p == q))
        if bad:
            out.violation(dict(what="pair", points=[list(map(str, r)) for r in (p, q)], kind=k % 3), bad, 1)
    if what == "rays":
        p = grid[first]
        for k, (q, a, b) in enumerate(itertools.product(grid, grid, grid)):
            if q == p or a == b:
                continue
            bad = check_ray(p, q, a, b, k % 3)
            out.state()
            out.trace()
            out.transition(2)
            out.outcome((view, crossing(p, q, a, b) is None))
            if bad:
                out.violation(dict(what="ray", points=[list(map(str, r)) for r in (p, q, a, b)], kind=k % 3), bad, 2)
                if out.full:
                    return
    out.sample(dict(view=view, first=first, what=what))


def close(nx, ny, first, out):
    """Rays with a short first step, and segments that end just beside the ray."""
    grid = [(x, y) for x in range(nx) for y in range(ny)]
    p = grid[first]
    for k, (q, a, b) in enumerate(itertools.product(grid, grid, grid)):
        if q == p or a == b:
            continue
        near = tuple(c + (d - c) * SHORT for c, d in zip(p, q))
        across = [(p, q, a, tuple(c + (c - d) * e for c, d in zip(b, a))) for e in BESIDE]
        across += [(p, q, tuple(c + (c - d) * e for c, d in zip(a, b)), b) for e in BESIDE]
        for case in [(p, near, a, b)] + across:
            case = [tuple(D(float(c)) for c in r) for r in case]
            bad = check_ray(*case, k % 3)
            out.state()
            out.trace()
            out.transition(2)
            if bad:
                out.violation(dict(what="ray", points=[list(map(str, r)) for r in case], kind=k % 3), bad, 2)
                if out.full:
                    return


def replay(case):
    if case["what"] == "missing":
        return check_missing()
    points = [tuple(map(D, r)) for r in case["points"]]
    return (check_pair if case["what"] == "pair" else check_ray)(*points, case["kind"])
