"""C25: a circle event stands for the circle through its three sites, and events are handled from top to bottom, left to right, circles first."""
import itertools
from decimal import Decimal as D
from fractions import Fraction as F
from queue import PriorityQueue

from .. import core, impl
from foronoi.events import CircleEvent, SiteEvent
from foronoi.graph import Coordinate, Point
from foronoi.graph.algebra import Algebra
from foronoi.nodes import Arc, LeafNode

SIZE = {"quick": 4, "thorough": 6}
VIEWS = {"plain": (D(1), D(0), D(0)), "negative": (D("0.25"), D(-7), D(-3)), "far": (D(1), D(10000), D(-20000)), "small": (D("1e-5"), D(0), D(1)),
         "nano": (D("1e-9"), D(0), D(0)), "atto": (D("1e-18"), D(0), D(0)), "vast": (D("1e15"), D(0), D("1e10")),
         "tenths": (D("0.1"), D("0.3"), D("-0.2"))}
THIN = [D(1).scaleb(-e) for e in (1, 3, 6, 9, 12, 15, 18)]
LINES = [((0, 0), (1, 0), (2, 0)), ((0, 0), (1, 1), (3, 3)), ((0, 0), (0, 2), (0, 5)), ((1, 0), (2, -2), (3, -4)), ((0, 3), (5, 4), (10, 5))]
QUEUE = {"quick": 6, "thorough": 7}
BOUNDS = {t: f"all ordered triples of a {n} x {n} lattice in {len(VIEWS)} positions and sizes; triples on {len(LINES)} lines with one moved off by distances down to 1e-18; all orders in which up to {QUEUE[t]} of 10 site and circle "
             "events (level ones, coinciding ones, a circle at the place of a site) enter and leave the queue" for t, n in SIZE.items()}
ASSUMPTIONS = ["events at the same place that are of the same kind may come in any order"]


def jobs(tier):
    n = SIZE[tier]
    for view in VIEWS:
        for k in range(n * n):
            yield ("triples", view, n, k)
    for k in range(1, QUEUE[tier] + 1):
        for chosen in itertools.combinations(range(len(EVENTS)), k):
            if k < 6 or sum(chosen) % (1 if tier == "thorough" else 2) == 0:
                yield ("queue", chosen)
    yield ("compare",)
    for line in LINES:
        yield ("thin", line)


# (kind, x, y): the place that decides about the order
EVENTS = [("site", 0, 2), ("circle", 0, 2), ("site", 1, 2), ("circle", 1, 2), ("circle", D("-0.5"), 2), ("site", 1, 0), ("circle", 2, 0),
          ("site", D("0.3"), -1), ("circle", D("0.3"), -1), ("site", 0, D("2.00000000000000000001"))]


def make(k):
    kind, x, y = EVENTS[k]
    if kind == "site":
        return SiteEvent(Point(x, y, name=k))
    r = D(1 + k)
    return CircleEvent(center=Coordinate(x, D(y) + r), radius=r, arc_node=None, point_triple=None)


def rank(k):
    kind, x, y = EVENTS[k]
    return (-y, x, 0 if kind == "circle" else 1)


def check_queue(order, popped):
    """The events enter in the given order; after each of the first ones, `popped` says how many leave."""
    def run():
        queue, inside, bad = PriorityQueue(), [], []
        number = {}

        def leave():
            e = queue.get()
            k = number.pop(id(e))
            inside.remove(k)
            if inside and rank(k) > min(map(rank, inside)):
                bad.append(f"{EVENTS[k]} is handled before {min((EVENTS[i] for i in inside), key=lambda v: rank(EVENTS.index(v)))}")

        keep = []
        for k, out in zip(order, popped):
            e = make(k)
            keep.append(e)
            number[id(e)] = k
            inside.append(k)
            queue.put(e)
            if out:
                leave()
        while not queue.empty():
            leave()
        if inside:
            bad.append(f"{inside} are never handled")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_compare():
    bad = []
    for a, b in itertools.product(range(len(EVENTS)), repeat=2):
        x, y = make(a), make(b)
        less, complaint = core.attempt(lambda: x < y)
        if complaint or bool(less) != (rank(a) < rank(b)):
            bad.append(f"{EVENTS[a]} comes {'' if less else 'not '}before {EVENTS[b]} {complaint or ''}")
        if rank(a)[:2] != rank(b)[:2] and (x == y or not x != y):
            bad.append(f"{EVENTS[a]} and {EVENTS[b]} are considered the same")
    return bad


def orientation(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def check_triple(view, triple):
    k, dx, dy = VIEWS[view]
    a, b, c = triple
    turn = orientation(a, b, c)
    bad = []
    pts = [(x * k + dx, y * k + dy) for x, y in triple]
    text = ", ".join(str(tuple(map(float, p))) for p in pts)
    coords = [Point(x, y, name=n) for n, (x, y) in enumerate(pts)]
    circle, complaint = core.attempt(CircleEvent.create_circle, *coords)
    if complaint:
        return [f"the circle through {text} {complaint}"]
    nodes = [LeafNode(Arc(p)) for p in coords]
    event, complaint = core.attempt(CircleEvent.create_circle_event, *nodes, min(p[1] for p in pts))
    if complaint:
        return [f"the circle event of {text} {complaint}"]
    clockwise, complaint = core.attempt(Algebra.check_clockwise, *coords, Coordinate(0, 0) if not circle else Coordinate(circle[0], circle[1]))
    if complaint:
        bad.append(f"the orientation of {text} {complaint}")
    if turn == 0:
        if circle:
            bad.append(f"a circle is found through {text}, which lie on a line")
        if event is not None:
            bad.append(f"there is a circle event for {text}, which lie on a line")
        return bad
    if not circle or event is None:
        return bad + [f"no circle is found through {text}"]
    if bool(clockwise) != (turn < 0):
        bad.append(f"{text} are said to be {'' if clockwise else 'counter '}clockwise")
    # exact center
    (ax, ay), (bx, by), (cx, cy) = [(F(x), F(y)) for x, y in triple]
    d = 2 * ((bx - ax) * (cy - ay) - (by - ay) * (cx - ax))
    ux = ((bx * bx + by * by - ax * ax - ay * ay) * (cy - ay) - (cx * cx + cy * cy - ax * ax - ay * ay) * (by - ay)) / d
    uy = ((cx * cx + cy * cy - ax * ax - ay * ay) * (bx - ax) - (bx * bx + by * by - ax * ax - ay * ay) * (cx - ax)) / d
    square = (ux - ax) ** 2 + (uy - ay) ** 2
    ux, uy, square = (D(q.numerator) / D(q.denominator) for q in (ux, uy, square))
    radius = square.sqrt() * k
    want = (ux * k + dx, uy * k + dy, radius)
    if all(isinstance(v, int) for p in triple for v in p):
        # the arithmetic has 28 digits; leave some of them to the formula, and twice as many when the squares of the coordinates are large
        tol = radius * D("1e-20") + (abs(dx) + abs(dy)) ** 2 / k * D("1e-22")
    else:
        tol = radius * D("1e-12") + (abs(dx) + abs(dy)) * D("1e-16")
    for what, got in (("circle", circle), ("circle event", (event.center.xd, event.center.yd, event.radius))):
        if any(abs(D(g) - w) > tol for g, w in zip(got, want)):
            bad.append(f"the {what} of {text} has center and radius {tuple(map(float, got))} instead of {tuple(map(float, want))}")
    if abs(event.xd - want[0]) > tol or abs(event.yd - (want[1] - want[2])) > 2 * tol:
        bad.append(f"the circle event of {text} is due at ({float(event.xd)!r}, {float(event.yd)!r}) instead of "
                   f"({float(want[0])!r}, {float(want[1] - want[2])!r})")
    if not event.is_valid or not event.circle_event or event.arc_pointer is not nodes[1] or tuple(event.point_triple) != tuple(coords):
        bad.append(f"the circle event of {text} is not about the arc in the middle, or not valid to begin with")
    removed = event.remove()
    if event.is_valid or removed is not event:
        bad.append("a removed circle event is still valid")
    for missing in range(3):
        args = list(nodes)
        args[missing] = None
        none, complaint = core.attempt(CircleEvent.create_circle_event, *args, D(0))
        if complaint or none is not None:
            bad.append(f"a circle event is made of two arcs only {complaint or ''}")
    return bad


def work(job, out):
    if job[0] == "triples":
        _, view, n, k = job
        lattice = [(x, y) for x in range(n) for y in range(n)]
        for b, c in itertools.permutations(lattice, 2):
            if lattice[k] in (b, c):
                continue
            triple = (lattice[k], b, c)
            bad = check_triple(view, triple)
            out.state()
            out.transition(3)
            out.trace()
            turn = orientation(*triple)
            out.outcome((view, abs(turn), turn > 0))
            if bad:
                out.violation(dict(kind="triple", view=view, triple=[list(p) for p in triple]), bad, 3)
                if out.full:
                    return
        out.sample(dict(view=view, first=list(lattice[k])))
    elif job[0] == "thin":
        # three sites that are almost on a line
        for order in itertools.permutations(range(3)):
            for moved, axis, sign, thin in itertools.product(range(3), range(2), (1, -1), THIN):
                pts = [list(map(D, job[1][k])) for k in order]
                pts[moved][axis] += sign * thin
                triple = tuple(map(tuple, pts))
                for view in ("plain", "negative"):
                    bad = check_triple(view, triple)
                    out.state()
                    out.transition(3)
                    out.trace()
                    out.outcome((order, moved, axis, sign, thin, orientation(*triple) > 0))
                    if bad:
                        out.violation(dict(kind="triple", view=view, triple=[[str(v) for v in p] for p in triple]), bad, 4)
                        if out.full:
                            return
    elif job[0] == "queue":
        n = len(job[1])
        for order in itertools.permutations(job[1]):
            for popped in itertools.product((0, 1), repeat=n - 1) if n <= 4 else [(0,) * (n - 1), (0, 1) * n, (0, 0, 1) * n]:
                popped = tuple(popped)[:n - 1] + (0,)
                bad = check_queue(order, popped)
                out.state()
                out.transition(2 * n)
                out.trace()
                if bad:
                    out.violation(dict(kind="queue", order=list(order), popped=list(popped)), bad, n)
                    if out.full:
                        return
        out.outcome(sorted(map(rank, job[1])))
    else:
        bad = check_compare()
        out.state(len(EVENTS))
        out.transition(len(EVENTS) ** 2)
        out.trace()
        if bad:
            out.violation(dict(kind="compare"), bad, 2)


def replay(case):
    if case["kind"] == "triple":
        return check_triple(case["view"], tuple(tuple(map(D, p)) for p in case["triple"]))
    if case["kind"] == "queue":
        return check_queue(case["order"], case["popped"])
    return check_compare()
