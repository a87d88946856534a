"""C18: the corners of a bounding polygon may be listed in any order; a bounding box is the polygon of its four corners."""
import itertools
import math
from decimal import Decimal as D, localcontext

from .. import convex, core, diagrams, impl, oracle, ref, spaces

LATTICE = {"quick": [(4, 4, 5), (3, 3, 6)], "thorough": [(4, 4, 6), (4, 3, 6)]}
# sites in units of the lattice, inside every polygon only by chance: what lies outside does not count
SITES = [(0.75, 1.25), (1.5, 0.5), (2.25, 1.5), (1.25, 1.875)]
BOXES = {"quick": [-2, -1, 0, 0.5, 3], "thorough": [-20, -2, -1, -0.3, 0, 0.5, 1e-3, 3, 40]}
# limits with more digits than a float has, and limits of several kinds
LONG = [D("-1.00000000000000000001"), D("1e-22"), D("0.1000000000000000000000003"), 3, D("12345.67890123456789012345")]
KINDS = [-10 ** 17 - 1, 0, 3 * 10 ** 16 + 7, 1.25e17]
PARTS = 32
PROBES = [(x, y) for x in (-0.25, 0, 0.25, 0.5, 1, 1.75, 2) for y in (-0.5, 0, 0.5, 1, 1.25, 2, 2.25)]
# corners that are listed more than once, and corners in the middle of a side
REPEAT = {"quick": [(3, 3, 4)], "thorough": [(4, 4, 4), (3, 3, 6)]}
# polygons with many corners, or with corners in almost the same direction, with a few sites
WIDE = {
    "circle25": (spaces.circle(25), [(1, 2), (-7, 3), (11, -9)]),
    "circle65": (spaces.circle(65), [(1, 2), (-27, 3), (11, -39)]),
    "parabola": ([(k, k * k) for k in range(-9, 10)], [(0.5, 20), (-3, 40), (4, 50)]),
    "steep": ([(k, k ** 4) for k in range(-7, 8)], [(0.5, 900), (-2, 1200), (1, 2000)]),
    "spike": ([(-100, 0), (0, 100), (100, 2), (101, 1), (100, -1), (0, -100)], [(10, 20), (-30, 1), (4, -50)]),
    "needle": ([(0, 0), (1000, 0.001), (2000, 0.0015), (3000, 0.001), (1500, -0.5)], [(1000, 0), (1500, -0.25), (2000, 0.001)]),
    "cut": ([(0, 0), (10, 0), (10, 9.9999), (9.9999, 10), (0, 10)], [(3, 4), (8, 8), (1, 9)]),
    "flat": ([(-5, 0), (0, -0.0001), (5, 0), (5.0001, 0.5), (5, 1), (-5, 1)], [(0, 0.5), (4, 0.25), (-3, 0.75)]),
    "far": ([(10 ** 9 + x, y - 10 ** 9) for x, y in spaces.circle(25)], [(10 ** 9 + 1, 2 - 10 ** 9), (10 ** 9 - 7, 5 - 10 ** 9)]),
    "small": ([(D(x).scaleb(-12), D(y).scaleb(-12)) for x, y in spaces.circle(25)], [(D("1e-12"), D("2e-12")), (D("-7e-12"), D(0))]),
}


def wide_orders(ccw):
    """A fixed family of orders, for polygons with too many corners for all of them."""
    n = len(ccw)
    base = list(range(n))
    out = []
    for k in range(n):
        out += [base[k:] + base[:k], (base[k:] + base[:k])[::-1]]
        swapped = list(base)
        swapped[k - 1], swapped[k] = swapped[k], swapped[k - 1]
        out.append(swapped)
    out += [[i * step % n for i in range(n)] for step in range(2, n) if math.gcd(step, n) == 1]
    for key in (lambda i: ccw[i], lambda i: ccw[i][::-1], lambda i: (ccw[i][0] + ccw[i][1], i), lambda i: (ccw[i][0] - ccw[i][1], i),
                lambda i: (abs(ccw[i][0]), abs(ccw[i][1]), i)):
        out += [sorted(base, key=key), sorted(base, key=key)[::-1]]
    out += [base[::2] + base[1::2], base[1::2] + base[::2], base[:n // 2] + base[n // 2:][::-1]]
    return [tuple(o) for o in out]


BOUNDS = {t: "every strictly convex polygon on the lattices "
             + ", ".join(f"{x} x {y} with up to {c} corners" for x, y, c in LATTICE[t])
             + ", all orders of its corners, the diagram of its inner sites in one order per starting corner and direction; "
               f"the polygons {', '.join(WIDE)} with {min(len(p) for p, _ in WIDE.values())} to {max(len(p) for p, _ in WIDE.values())} corners in all "
               "rotations, reversals, swaps of neighbours, riffles and sorted orders; the polygons on the lattices "
             + ", ".join(f"{x} x {y} with up to {c} corners" for x, y, c in REPEAT[t])
             + " with every corner listed once more at every place of the list, as a closed ring, with all corners twice, with additional corners in the middle of "
               "every subset of the sides, with up to two of the inner sites, with and without the removal of zero-length edges; "
               f"all boxes with limits out of {BOXES[t]}, out of {list(map(str, LONG))} and out of {KINDS}, by corners in all orders" for t in LATTICE}
ASSUMPTIONS = ["convex polygon"]


def jobs(tier):
    for nx, ny, most in LATTICE[tier]:
        for part in range(PARTS):
            yield ("polygon", nx, ny, most, part)
    for nx, ny, most in REPEAT[tier]:
        for part in range(PARTS):
            yield ("repeat", nx, ny, most, part)
    for name in WIDE:
        for part in range(8):
            yield ("wide", name, part)
    n = len(BOXES[tier])
    for i, j in itertools.combinations(range(n), 2):
        yield ("box", BOXES[tier][i], BOXES[tier][j], tuple(BOXES[tier]))
    for limits in (LONG, KINDS):
        for i, j in itertools.combinations(limits, 2):
            yield ("box", i, j, tuple(limits))


def cycle(points):
    """Rotated to start with the smallest corner."""
    k = points.index(min(points))
    return points[k:] + points[:k]


def outline(polygon):
    return [(ref.exact(x), ref.exact(y)) for x, y in polygon.get_coordinates()]


def clockwise(corners):
    ccw = convex.counter_clockwise([(ref.exact(x), ref.exact(y)) for x, y in corners])
    return cycle(ccw[::-1])


def cells(polygon, sites):
    at = ref.Model(polygon.get_coordinates(), [], only=()).at
    v = impl.Voronoi(polygon)
    v.create_diagram(sites)
    return [(s.area(), [at(p) for p in s.vertices()]) for s in v.sites], len(v.edges), len(v.vertices)


def check_order(given, sites, expected, with_diagram):
    """expected: (clockwise cycle, diagram or None)"""
    bad = []

    def run():
        polygon = impl.Polygon(given)
        return outline(polygon), (cells(polygon, sites) if with_diagram else None)

    result, complaint = core.attempt(run)
    if complaint:
        return [complaint]
    corners, diagram = result
    if len(corners) != len(given) or cycle(corners) != expected[0]:
        bad.append(f"the polygon is {[tuple(map(float, c)) for c in corners]}, should be the cycle {[tuple(map(float, c)) for c in expected[0]]}")
    elif with_diagram:
        bad += compare(diagram, expected[1], given, sites)
    return bad


def compare(got, want, poly, sites):
    tol = oracle.Tol(ref.Model(poly, sites))
    if got[1:] != want[1:]:
        return [f"{got[1:]} edges and vertices instead of {want[1:]}"]
    bad = []
    for s, (a, p), (b, q) in zip(sites, got[0], want[0]):
        if not abs(a - b) <= tol.area or not oracle._match_cycle(p, q, tol.pos):
            bad.append(f"the cell of {s} is {p} with area {a!r}, instead of {q} with {b!r}")
    return bad


def listings(ccw):
    """Lists of the corners with some of them repeated, or with more in the middle of sides: (list, straight)."""
    n = len(ccw)
    for given in (ccw, ccw[::-1]):
        for i, k in itertools.product(range(n), range(1, n + 1)):
            yield given[:k] + [given[i]] + given[k:], False
        yield given[:1] * 3 + given[1:2] * 2 + given[2:], False
        yield [p for p in given for _ in (0, 1)], False
        yield given + given, False
        middle = [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(given, given[1:] + given[:1])]
        for chosen in itertools.product((0, 1), repeat=n):
            if any(chosen):
                yield [q for p, m, c in zip(given, middle, chosen) for q in ([p, m] if c else [p])], True
        yield [q for p, m in zip(given, middle) for q in (p, m)] + given[:1], True


def check_listing(given, sites, straight):
    def run():
        polygon = impl.Polygon(given)
        if set(outline(polygon)) != {(ref.exact(x), ref.exact(y)) for x, y in given}:
            return [f"the polygon {given} has the corners {polygon.get_coordinates()}"]
        model = ref.Model(given, sites, straight=straight)
        tol = oracle.Tol(model)
        bad = []
        for x, y in PROBES if len(sites) == 1 else ():
            side = min(c - a * ref.exact(x) * model.den - b * ref.exact(y) * model.den for a, b, c in model.sides)
            if side and bool(polygon.inside(impl.Coordinate(x, y))) != (side > 0):
                bad.append(f"({x}, {y}) is said to be {'out' if side > 0 else 'in'}side")
        for removal in (True, False):
            v = impl.Voronoi(impl.Polygon(given), remove_zero_length_edges=removal)
            v.create_diagram(sites)
            bad += oracle.everything(v, model, tol, cleaned=removal)
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_listings(ccw, out):
    inner = sites_in(ccw)
    for given, straight in listings(ccw):
        for k in (1, 2):
            for sites in map(list, itertools.combinations(inner, k)):
                bad = check_listing(given, sites, straight)
                out.state()
                out.transition(2)
                out.trace(2)
                out.outcome(("repeat", len(given), straight, len(sites)))
                if bad:
                    out.violation(dict(kind="repeat", poly=diagrams.encode(given), sites=diagrams.encode(sites), straight=straight), bad, len(given))
                    if out.full:
                        return


def sites_in(ccw):
    return [s for s in SITES if convex.side(ccw, s) > 0]


def check_polygon(ccw, out=None, orders=None, sites=None, some=False):
    expected_cycle = clockwise(ccw)
    sites = sites_in(ccw) if sites is None else sites
    diagram = None
    bad = []
    if sites:
        diagram, complaint = core.attempt(lambda: cells(impl.Polygon(sorted(ccw, key=lambda p: expected_cycle.index((ref.exact(p[0]), ref.exact(p[1]))))), sites))
        if complaint:
            bad = [complaint]
            if out is not None:
                out.violation(dict(kind="polygon", poly=diagrams.encode(ccw), order=list(range(len(ccw))), sites=diagrams.encode(sites)), bad, len(ccw))
            return bad
    n = len(ccw)
    for number, order in enumerate(orders or itertools.permutations(range(n))):
        given = [ccw[i] for i in order]
        steps = {(b - a) % n for a, b in zip(order, tuple(order[1:]) + (order[0],))}
        # a diagram for the orders that walk around the polygon, and for those with the last two corners swapped
        if some:
            with_diagram = bool(sites) and number % 7 == 0
        else:
            with_diagram = bool(sites) and (len(steps) == 1 or orders is not None or order[-2] > order[-1] > order[0])
        this = check_order(given, sites, (expected_cycle, diagram), with_diagram)
        if out is not None:
            out.state()
            out.transition()
            if with_diagram:
                out.trace()
            if this:
                out.violation(dict(kind="polygon", poly=diagrams.encode(ccw), order=list(order), sites=diagrams.encode(sites)), this, n)
                if out.full:
                    return this
        bad += this
    if out is not None:
        out.outcome((n, len(sites), diagram and diagram[1:]))
    return bad


def convex_number(q):
    """A fraction with a power of two below as a decimal, with all digits."""
    with localcontext() as context:
        context.prec = 200
        return D(q.numerator) / D(q.denominator)


def check_box(x0, x1, y0, y1, out=None):
    bad = []
    corners = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
    a, b, c, d = (ref.exact(v) for v in (x0, x1, y0, y1))
    w, h = b - a, d - c
    sites = [tuple(map(convex_number, p)) for p in ((a + w / 4, c + h / 2), (a + w * 3 / 4, c + h / 4), (a + w / 2, c + h * 7 / 8))]
    want = clockwise(corners)

    def run():
        box = impl.BoundingBox(x0, x1, y0, y1)
        named = impl.BoundingBox(left_x=x0, right_x=x1, bottom_y=y0, top_y=y1)
        return outline(box), outline(named), cells(box, sites), cells(impl.Polygon(corners), sites)

    result, complaint = core.attempt(run)
    if complaint:
        return [complaint]
    a, b, c, d = result
    for name, got in (("box", a), ("box with named limits", b)):
        if len(got) != 4 or cycle(got) != want:
            bad.append(f"the {name} is {[tuple(map(float, p)) for p in got]}, should be {[tuple(map(float, p)) for p in want]}")
    if not bad:
        bad += compare(c, d, corners, sites)
    for order in itertools.permutations(range(4)):
        bad += check_order([corners[i] for i in order], sites, (want, d), order[0] == 0)
        if out is not None:
            out.state()
            out.transition()
            out.trace(order[0] == 0)
    return bad


def work(job, out):
    if job[0] == "polygon":
        _, nx, ny, most, part = job
        last = None
        for k, ccw in enumerate(convex.polygons(nx, ny, hi=most)):
            if k % PARTS == part:
                check_polygon(ccw, out)
                last = ccw
                if out.full:
                    return
        if last:
            out.sample(dict(corners=last, sites=sites_in(last)))
    elif job[0] == "repeat":
        _, nx, ny, most, part = job
        for k, ccw in enumerate(convex.polygons(nx, ny, hi=most)):
            if k % PARTS == part:
                check_listings(ccw, out)
                if out.full:
                    return
    elif job[0] == "wide":
        poly, sites = WIDE[job[1]]
        check_polygon(poly, out, wide_orders(poly)[job[2]::8], sites=sites, some=True)
        out.sample(dict(polygon=job[1], corners=len(poly)))
    else:
        _, x0, x1, limits = job
        for y0, y1 in itertools.combinations(limits, 2):
            bad = check_box(x0, x1, y0, y1, out)
            out.outcome(("box", x0, x1, y0, y1))
            if bad:
                out.violation(dict(kind="box", limits=list(diagrams.encode([(x0, x1), (y0, y1)]))), bad, 4)


def replay(case):
    if case["kind"] == "repeat":
        return check_listing(diagrams.decode(case["poly"]), diagrams.decode(case["sites"]), case["straight"])
    if case["kind"] == "box":
        (x0, x1), (y0, y1) = diagrams.decode(case["limits"])
        return check_box(x0, x1, y0, y1)
    return check_polygon(diagrams.decode(case["poly"]), orders=[tuple(case["order"])], sites=diagrams.decode(case["sites"]))
