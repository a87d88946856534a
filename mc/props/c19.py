"""C19: a location keeps the numbers it was given, through every way to set and to read them."""
import itertools
from decimal import Decimal as D

import numpy as np

from .. import core, impl, ref
from foronoi.graph import Coordinate, Point, Vertex

NUMBERS = ["0", "1", "-3", "2.5", "0.1", "-0.3", "1e-9", "123456789.125", "1/3", "1e20", "2**53+1", "-10**25-7", "2**62+1", "np.int32(70000)", "np.uint8(200)", "np.int64(2**60+1)", "0.1+0.2", "5e-324", "1.7976931348623157e308",
           "np.float64(0.7)", "np.int64(-4)", "D('0.1')", "D('-12345678901234567890.5')", "D('1E-30')", "D('7')"]
FEW = ["0", "-3", "0.1", "1/3", "1e20", "2**53+1", "np.float64(0.7)", "D('0.1')", "D('-12345678901234567890.5')"]
WAYS = ["x", "y", "xd", "yd"]
KINDS = {"location": Coordinate, "site": Point, "vertex": Vertex}
# numbers that are equal, or nearly, but of different types; one kind is created after the other with numbers that were not used before
TWINS = {"int": int, "float": float, "Decimal": D, "np.float64": np.float64, "np.int64": lambda v: np.int64(int(v)), "short Decimal": lambda v: D(repr(float(v))),
         "long Decimal": lambda v: D(v) + D("1e-20"), "negative": lambda v: -v}
DEPTH = {"quick": 2, "thorough": 3}
BOUNDS = {t: f"{list(KINDS)}: every pair of the numbers {NUMBERS} at creation, all sequences of <= {d} assignments through {WAYS} of {FEW}, "
             "two objects side by side, all differences of two objects, "
             f"equal and nearly equal numbers of all pairs of the types {list(TWINS)} one after the other" for t, d in DEPTH.items()}
ASSUMPTIONS = ["numbers are ints, floats, Decimals, 64 bit numpy floats or numpy integers", "differences are exact up to the 28 digits of decimal arithmetic"]
VALUE = {n: eval(n, {"np": np, "D": D}) for n in set(NUMBERS + FEW)}


def jobs(tier):
    for kind in KINDS:
        for n in NUMBERS:
            yield ("make", kind, n)
        for a, b in itertools.product(FEW, FEW):
            yield ("assign", kind, a, b, DEPTH[tier])
        for other in KINDS:
            yield ("subtract", kind, other)
        yield ("twins", kind)
    yield ("diagram",)


def complaints(c, x, y, what):
    """The object c should hold the numbers x and y (as given)."""
    bad = []
    for axis, value, as_float, as_decimal in (("x", x, c.x, c.xd), ("y", y, c.y, c.yd)):
        if type(as_float) is not float or as_float != float(value):
            bad.append(f"{what}: {axis} is {as_float!r}, should be {float(value)!r}")
        if not isinstance(as_decimal, D) or as_decimal != D(str(value)):
            bad.append(f"{what}: the decimal {axis} is {as_decimal!r}, should be {D(str(value))!r}")
    if c.xy != (c.x, c.y):
        bad.append(f"{what}: both together are {c.xy!r}, should be {(c.x, c.y)!r}")
    return bad


def check_make(kind, a, b):
    def run():
        return complaints(KINDS[kind](VALUE[a], VALUE[b]), VALUE[a], VALUE[b], f"{kind} made from ({a}, {b})") + \
            complaints(KINDS[kind](x=VALUE[a], y=VALUE[b]), VALUE[a], VALUE[b], f"{kind} made from x={a}, y={b}")
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_assign(kind, a, b, words):
    """Two objects made alike; only the first one is changed."""
    def run():
        one, other = KINDS[kind](VALUE[a], VALUE[b]), KINDS[kind](VALUE[a], VALUE[b])
        state = {"x": VALUE[a], "y": VALUE[b]}
        bad = []
        for way, n in words:
            setattr(one, way, VALUE[n])
            state[way[0]] = VALUE[n]
            bad += complaints(one, state["x"], state["y"], f"{kind} ({a}, {b}) after {words}")
        return bad + complaints(other, VALUE[a], VALUE[b], f"another {kind} ({a}, {b}) after {words}")
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_subtract(kind, other, p, q):
    def run():
        a, b = KINDS[kind](VALUE[p[0]], VALUE[p[1]]), KINDS[other](VALUE[q[0]], VALUE[q[1]])
        d = a - b
        bad = complaints(a, VALUE[p[0]], VALUE[p[1]], "minuend") + complaints(b, VALUE[q[0]], VALUE[q[1]], "subtrahend")
        for axis, got, m, s in (("x", d.xd, p[0], q[0]), ("y", d.yd, p[1], q[1])):
            want = ref.exact(VALUE[m]) - ref.exact(VALUE[s])
            if abs(ref.exact(got) - want) > abs(want) / 10 ** 26:
                bad.append(f"{kind} ({p[0]}, {p[1]}) - {other} ({q[0]}, {q[1]}): {axis} is {got!r}, should be {float(want)!r}")
        if not isinstance(d, Coordinate) or (kind == "site" and not isinstance(d, Point)):
            bad.append(f"the difference of {kind} and {other} is a {type(d).__name__}")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_diagram(a, b):
    """What goes in as sites and corners comes out again."""
    x, y = VALUE[a], VALUE[b]

    def run():
        poly = [(-5, -5), (5, -6), (6, 5), (-6, 5)]
        v = impl.Voronoi(impl.Polygon(poly))
        v.create_diagram([(x, y), (4, 4.5)])
        bad = complaints(v.sites[0], x, y, f"site given as ({a}, {b})") + complaints(v.sites[1], 4, 4.5, "second site")
        got = {(p.x, p.y) for p in v.vertices}
        for corner in poly:
            if tuple(map(float, corner)) not in got:
                bad.append(f"the corner {corner} of the polygon is not a vertex")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_twins(kind, first, second, number):
    """Two objects from two numbers that may well be equal, then both of them again."""
    number = eval(number)
    values = TWINS[first](number), TWINS[second](number)

    def run():
        bad = []
        for v in values + values:
            bad += complaints(KINDS[kind](v, v), v, v, f"{kind} made from {v!r} after {values[0]!r}")
        one = KINDS[kind](0, 0)
        for v in values:
            one.x = v
            one.yd = v
            bad += complaints(one, v, v, f"{kind} changed to {v!r} after {values[0]!r}")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def work(job, out):
    def note(case, bad, transitions=1):
        out.state()
        out.transition(transitions)
        out.trace()
        if bad:
            out.violation(dict(case=list(case)), bad, len(str(case)))

    if job[0] == "make":
        for n in NUMBERS:
            note(("make", job[1], job[2], n), check_make(job[1], job[2], n), 2)
            out.outcome(("make", job[2], n))
    elif job[0] == "assign":
        _, kind, a, b, depth = job
        steps = list(itertools.product(WAYS, FEW))
        for d in range(1, depth + 1):
            for words in itertools.product(steps, repeat=d):
                if d == 3 and kind != "location" and len({w for w, _ in words}) < 3:
                    continue
                note(("assign", kind, a, b, words), check_assign(kind, a, b, words), d)
                if out.full:
                    return
        out.outcome((kind, a, b))
    elif job[0] == "twins":
        number = 1000 * (1 + list(KINDS).index(job[1]))
        for first, second in itertools.product(TWINS, TWINS):
            for whole in (True, False):
                number += 1
                if not whole and "int" in first + second:
                    continue
                case = ("twins", job[1], first, second, str(number) if whole else repr(number + 0.1))
                note(case, check_twins(*case[1:]), 6)
        out.outcome(job)
    elif job[0] == "subtract":
        for p in itertools.product(FEW, FEW):
            for q in itertools.product(FEW, FEW):
                note(("subtract", job[1], job[2], p, q), check_subtract(job[1], job[2], p, q))
        out.outcome(job)
    else:
        for a, b in itertools.product(["0", "1", "-3", "2.5", "0.1", "-0.3", "1e-9", "1/3", "0.1+0.2", "np.float64(0.7)", "np.int64(-4)", "D('0.1')"],
                                      repeat=2):
            note(("diagram", a, b), check_diagram(a, b))
        out.outcome(job)
    out.sample(dict(job=list(job)))


def replay(case):
    case = core.listed(case["case"])
    return dict(make=check_make, assign=check_assign, subtract=check_subtract, twins=check_twins, diagram=check_diagram)[case[0]](*case[1:])
