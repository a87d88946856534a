"""Diagrams with vertices that are different, but closer together than floats can tell."""
from decimal import Decimal as D
from itertools import combinations

from . import core, diagrams, impl, oracle, ref, spaces

_SHIFT = [D(((i * i * 7 + i * 3) % 11) - 5).scaleb(-18) for i in range(24)]
_RING = [(D(x) + _SHIFT[2 * i], D(y) + _SHIFT[2 * i + 1]) for i, (x, y) in enumerate(p for p in spaces.circle(5) if p != (0, -5))]
_H = D("5e-19")
_INNER = [(1, 3), (5, 1), (2, 7), (-4, -5), (0, -1), (6, -7), (3, -3), (-2, 2)]
FINE = {
    "ring": ([(-7, -6), (8, -6), (8, 7), (-7, 7)], _RING, {"quick": 5, "thorough": 7}),
    "ring-tri": ([(-30, -16), (40, -20), (3, 50)], _RING, {"quick": 4, "thorough": 6}),
    "split-top": ([(1 + _H, 11), (1 - _H, 11), (-9, -9), (11, -9)], _INNER, {"quick": 4, "thorough": 8}),
    "split-left": ([(-9, 1 - _H), (-9, 1 + _H), (7, 11), (11, -9)], _INNER, {"quick": 4, "thorough": 8}),
}


def describe(tier):
    return "; ".join(f"{k}: all subsets of at most {n[tier]} of {len(pool)} sites, with vertices that are down to 1e-20 apart"
                     for k, (_, pool, n) in FINE.items())


def jobs(tier):
    for name, (_, pool, most) in FINE.items():
        for k in range(2, most[tier] + 1):
            for i in range(len(pool) - k + 1):
                yield ("fine", name, k, i)


def _apart(p, q):
    return max(abs(p[0] - q[0]), abs(p[1] - q[1]))


def compare(poly, sites, modes=(True,)):
    """The vertices and edges one by one, with all their digits. None: the input cannot tell."""
    model = ref.Model(poly, sites)
    scale = D(model.den)
    want = [(D(p[0]) / D(p[2]) / scale, D(p[1]) / D(p[2]) / scale) for p in model.vertices()]
    # where an edge meets the outline is not known to all digits
    hits = {p for p, v in zip(want, model.vertices()) if model.on_outline(v) and not model.is_corner(v)}
    near = {p: D("1e-7") if p in hits else D("1e-22") for p in want}
    if any(_apart(p, q) < 100 * max(near[p], near[q]) for p, q in combinations(want, 2)):
        return None
    if any(len(model.nearest(p)) > 3 for p in model.vertices()):
        return None

    def run():
        bad = []
        for removal in modes:
            v = impl.build(poly, sites, remove_zero_length_edges=removal)
            how = "with" if removal else "without"
            got = [(a.xd, a.yd) for a in v.vertices]
            for p in want:
                n = sum(_apart(p, q) < near[p] for q in got)
                if n == 0 or n > 1 and removal:
                    bad.append(f"{how} removal: {n} vertices at ({p[0]}, {p[1]})")
            if removal and len(got) != len(want):
                bad.append(f"{how} removal: {len(got)} vertices instead of {len(want)}")
            long = [e for e in v.edges if _apart((e.origin.xd, e.origin.yd), (e.target.xd, e.target.yd)) >= D("1e-22")]
            expected = len(model.edges()) + len(model.borders())
            if len(long) != expected:
                bad.append(f"{how} removal: {len(long)} edges with a length instead of {expected}")
            if removal and len(v.edges) != len(long):
                bad.append(f"{how} removal: {len(v.edges) - len(long)} edges without a length are left")
            if removal:
                bad += [f"{how} removal: {t}" for t in oracle.dcel(v, model)]
        return bad

    result, complaint = core.attempt(run)
    return [complaint] if complaint else result


def work(job, out, modes=(True,)):
    poly, pool, _ = FINE[job[1]]
    for rest in combinations(range(job[3] + 1, len(pool)), job[2] - 1):
        sites = [pool[i] for i in (job[3],) + rest]
        bad = compare(poly, sites, modes)
        if bad is None:
            continue
        out.state()
        out.transition(len(modes))
        out.trace(len(modes))
        out.outcome(("fine", job[1], len(sites)))
        out.count("diagrams_with_almost_coinciding_vertices")
        if bad:
            out.violation(dict(fine=True, polygon=diagrams.encode(poly), sites=diagrams.encode(sites)), bad, size=len(sites))
        if out.full:
            return


def replay(case, modes=(True,)):
    return compare(diagrams.decode(case["polygon"]), diagrams.decode(case["sites"]), modes) or []
