"""C14: a diagram does not depend on what was done before, and does not change what was made before."""
import itertools
from decimal import Decimal as D

from .. import core, diagrams, dump, impl, oracle, ref, spaces

SETS = {
    "one": [(1, 1)],
    "two": [(3, 4), (1, 0.5)],
    "three": [(1, 4), (4, 4), (2.5, 1)],
    "grid": [(1, 1), (3, 1), (1, 3), (3, 3), (2, 2)],
    "row": [(1, 4.5), (2, 4.5), (3, 4.5), (2.5, 4)],
    "edge": [(0, 0), (5, 5), (5, 0), (2.5, 5)],
    "twin": [(1, 4), (D("4.00000000000000000001"), 4), (2.5, D("1.00000000000000000003"))],
    "arch": [(1, 4.5), (2, 4.75), (3, 4.75), (4, 4.5), (2.25, 0.5)],
}
POLYGONS = {"box": [(0, 0), (5, 0), (5, 5), (0, 5)], "penta": [(-1, -1), (6, -2), (8, 3), (3, 9), (-2, 6)],
            "zero": [(0, 0), (6, -1), (7, -9), (-1, -8)]}
SHIFT = {"box": (0, 0), "penta": (0, 0), "zero": (0, -6)}
# Diagrams that have all but one number in common
CLOSE = {
    "irregular": (POLYGONS["penta"], [(1, D("4.25")), (4, D("3.5")), (D("2.5"), 1), (D("4.75"), D("0.5")), (D("0.5"), D("2.25"))]),
    "grid": (POLYGONS["box"], [(1, 1), (3, 1), (1, 3), (3, 3)]),
    "level": (POLYGONS["box"], [(1, 4), (D("2.5"), 4), (4, 4), (2, 1)]),
    "low": (POLYGONS["zero"], [(1, -2), (4, -3), (2, -5), (5, -6), (0, -4)]),
}
STEPS = [D("0.25"), D("-0.25"), D("0.75"), D("-0.75"), D("1e-6"), D("1e-18")]
DEPTH = {"quick": 3, "thorough": 4}
BOUNDS = {t: f"all sequences of <= {d} runs on one diagram object and on several diagram objects with one polygon, over "
             f"{len(SETS)} sets of sites, {len(POLYGONS)} polygons and both clean-up options, and before a run all aborts of another run "
             "by an exception of an observer at every message; "
             f"{len(CLOSE)} diagrams alternating with all those that differ from it in one coordinate of one site (by {[float(s) for s in STEPS]}), in one "
             "corner, in the order of the sites, or by a site more or less, with the same and with other objects" for t, d in DEPTH.items()}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon"]


def sites_of(poly, name):
    dx, dy = SHIFT[poly]
    return [(x + dx, y + dy) for x, y in SETS[name]]


class Abort(Exception):
    pass


class Bomb(impl.foronoi.observers.observer.Observer):
    def __init__(self, at):
        self.left = at

    def update(self, subject, message, **kwargs):
        if self.left == 0:
            self.left = -1
            raise Abort()
        self.left -= 1


_fresh = {}


def fresh(poly, name, clean):
    key = (poly, name, clean)
    if key not in _fresh:
        v = impl.Voronoi(impl.Polygon(POLYGONS[poly]), remove_zero_length_edges=clean)
        v.create_diagram(sites_of(poly, name))
        _fresh[key] = dump.diagram(v)
    return _fresh[key]


def run(poly, clean, ops, shared):
    """ops: names of sets, or (name, k) for a run that an observer aborts at its k-th message."""
    polygon = impl.Polygon(POLYGONS[poly])
    v = impl.Voronoi(polygon, remove_zero_length_edges=clean)
    bad, old = [], []
    for op in ops:
        if shared:
            v = impl.Voronoi(polygon, remove_zero_length_edges=clean)
        if isinstance(op, tuple):
            bomb = Bomb(op[1])
            v.attach_observer(bomb)
            try:
                v.create_diagram(sites_of(poly, op[0]))
            except Abort:
                pass
            v.detach_observer(bomb)
            continue
        given = sites_of(poly, op)
        before = list(given)
        v.create_diagram(given)
        if given != before:
            bad.append(f"the list of sites {before} that was handed in became {given}")
        got, want = dump.diagram(v), fresh(poly, op, clean)
        d = dump.difference(got, want, f"diagram of {op} after {ops}")
        if d:
            bad.append(d)
        if v.bounding_poly is not polygon or sorted(polygon.get_coordinates()) != sorted(impl.Polygon(POLYGONS[poly]).get_coordinates()):
            bad.append("the bounding polygon changed")
        # what was made earlier is still there
        for then, kept, value in old:
            if dump.diagram(kept) != value:
                bad.append(f"the earlier diagram of {then} changed: " + str(dump.difference(dump.diagram(kept), value)))
        old.append((op, _Kept(v), got))
        if bad:
            break
    return bad


class _Kept:
    """What a user holds on to of a finished diagram."""

    def __init__(self, v):
        self.sites, self.edges, self.vertices = list(v.sites), list(v.edges), list(v.vertices)


def variants(poly, sites, fine=True):
    for i in range(len(sites)):
        for axis in (0, 1):
            for step in STEPS:
                if 0 < step < D("1e-12") and not fine:
                    continue
                new = [list(s) for s in sites]
                new[i][axis] += step
                yield poly, [tuple(s) for s in new]
        yield poly, sites[:i] + sites[i + 1:]
        yield poly, sites[i:] + sites[:i]
    yield poly, sites + [(D("2.125"), D("2.125") if sites[0][1] > 0 else D("-3.875"))]
    for k in range(len(poly)):
        x, y = poly[k]
        mx, my = sum(p[0] for p in poly) / D(len(poly)), sum(p[1] for p in poly) / D(len(poly))
        for by in (D("0.125"), D("-0.0625")):
            yield poly[:k] + [(x + (x - mx) * by, y + (y - my) * by)] + poly[k + 1:], sites


def close(first, second, shared):
    """Both diagrams one after the other, and the first one again, each compared with the exact model."""
    bad = []
    v, last = None, None
    for k, (poly, sites) in enumerate((first, second, first)):
        model = ref.Model(poly, sites)
        if not shared or poly != last:
            v, last = impl.Voronoi(impl.Polygon(poly)), poly
        v.create_diagram(sites)
        m = oracle.everything(v, model, oracle.Tol(model))
        got = [(float(s.xd), float(s.yd)) for s in v.sites]
        if [(ref.exact(s.xd), ref.exact(s.yd)) for s in v.sites] != [(ref.exact(x), ref.exact(y)) for x, y in sites]:
            m.append(f"the sites are {got}")
        bad += [f"run {k + 1}, {[tuple(map(float, s)) for s in sites]}: {t}" for t in m]
    return bad


def check(poly, clean, ops, shared):
    bad, complaint = core.attempt(run, poly, clean, ops, shared)
    return [complaint] if complaint else bad


def jobs(tier):
    for name in CLOSE:
        for shared in (True, False):
            for backward in (False, True):
                yield ("close", name, shared, backward)
    for poly in POLYGONS:
        for clean in (True, False):
            for shared in (False, True):
                for name in SETS:
                    yield (poly, clean, shared, "runs", name, DEPTH[tier])
                    yield (poly, clean, shared, "aborts", name, DEPTH[tier])


def work(job, out):
    if job[0] == "close":
        _, name, shared, backward = job
        base = CLOSE[name]
        for other in variants(*base, fine=name != "grid"):  # (in a grid vertices would move apart by less than can be told)
            first, second = (other, base) if backward else (base, other)
            bad, complaint = core.attempt(close, first, second, shared)
            out.state()
            out.transition(3)
            out.trace()
            out.outcome(("close", name, len(other[1])))
            if complaint or bad:
                out.violation(dict(close=[[diagrams.encode(a), diagrams.encode(b)] for a, b in (first, second)], shared=shared),
                              [complaint] if complaint else bad, 3)
            if out.full:
                return
        return
    poly, clean, shared, kind, name, depth = job
    if kind == "runs":
        todo = ([name, *rest] for n in range(depth) for rest in itertools.product(SETS, repeat=n))
    else:
        todo = aborts(poly, name, depth)
    for ops in todo:
        bad = check(poly, clean, ops, shared)
        out.state()
        out.transition(len(ops))
        out.trace()
        out.outcome(ops[-1])
        if bad:
            out.violation(dict(poly=poly, clean=clean, shared=shared, ops=ops), bad, len(ops))
        if out.full:
            return
    out.sample(dict(poly=poly, shared=shared, ops=str(ops)))


def aborts(poly, name, depth):
    messages = 0

    class Counter(impl.foronoi.observers.observer.Observer):
        def update(self, *args, **kwargs):
            nonlocal messages
            messages += 1

    v = impl.Voronoi(impl.Polygon(POLYGONS[poly]))
    v.attach_observer(Counter())
    v.create_diagram(sites_of(poly, name))
    for k in range(messages):
        for other in SETS:
            yield [(name, k), other]
            if depth > 3:
                yield [other, (name, k), other]
        yield [(name, k), name, "grid"]
        yield ["grid", (name, k), "row"]
        if depth > 3:
            for j in range(0, messages, 2):
                yield [(name, k), (name, j), "arch", name]


def replay(case):
    if "close" in case:
        first, second = [(diagrams.decode(a), diagrams.decode(b)) for a, b in case["close"]]
        bad, complaint = core.attempt(close, first, second, case["shared"])
        return [complaint] if complaint else bad
    ops = [tuple(o) if isinstance(o, list) else o for o in case["ops"]]
    return check(case["poly"], case["clean"], ops, case["shared"])
