"""C07: moving, turning, mirroring or scaling everything does the same to the diagram."""
from decimal import Decimal, localcontext
from fractions import Fraction as F

from .. import core, diagrams, impl, oracle, ref, spaces

# maps (a, b, c, d, e, f): x -> a x + b y + e, y -> c x + d y + f
GENERATORS = {
    "turn": (0, -1, 1, 0, 0, 0),
    "mirror": (-1, 0, 0, 1, 0, 0),
    "swap": (0, 1, 1, 0, 0, 0),
    "up": (1, 0, 0, 1, 0, 5),
    "left": (1, 0, 0, 1, F(-7, 2), 0),
    "grow": (4, 0, 0, 4, 0, 0),
    "shrink": (F(1, 8), 0, 0, F(1, 8), 0, 0),
    "far": (1, 0, 0, 1, 1000, -3000),
    "pythagoras": (F(3, 5), F(-4, 5), F(4, 5), F(3, 5), 0, 0),  # a turn that is not along the axes
}
# as the last map only: coordinates that need more digits than a float has
LAST = {
    "abyss": (1, 0, 0, 1, 3 * 10 ** 13, -7 * 10 ** 13),
    "atoms": (F(1, 10 ** 12), 0, 0, F(1, 10 ** 12), 0, 0),
    "stars": (10 ** 18, 0, 0, 10 ** 18, 0, 0),
    "dust": (F(-1, 10 ** 7), 0, 0, F(1, 10 ** 7), 1, 2),     # small and far away from its size
}
DEPTH = {"quick": 2, "thorough": 3}
POOLS = {"quick": [("g33-all", 3), ("readme-all", 3), ("c5-tight", 2), ("irr-all", 2), ("tri-closed", 2), ("vee-all", 2),
                   ("sliver", 1), ("outside-ring", 1)],
         "thorough": [("g33-all", 4), ("g33-all-tight", 4), ("readme-all", 5), ("c5-tight", 3), ("c5-all", 4),
                      ("irr-all", 3), ("irr-penta", 3), ("tri-closed", 3), ("vee-all", 3), ("penta-closed", 3),
                      ("hline-all", 4), ("g33-rttr", 3), ("hex-all", 3), ("sliver", 2), ("outside-ring", 2)]}
WHOLE = ["g33-all", "readme-all", "c5-tight", "irr-all", "vee-all", "tworows-all", "penta-closed", "hex-all", "rings-all",
         "arch-all", "cross-all", "hline-all", "outside-ring", "outside-ring-tri"]
BOUNDS = {t: f"all words of length <= {DEPTH[t]} over {len(GENERATORS)} generators ({', '.join(GENERATORS)}) without repeats, "
             f"and one of {', '.join(LAST)} after all words of length <= {DEPTH[t] - 1}, "
             "on all subsets of: " + ", ".join(f"{n} (<= {k} sites)" for n, k in POOLS[t])
             + " and on the whole pools of " + ", ".join(WHOLE) for t in POOLS}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon", "all transformed coordinates are decimals"]


def compose(g, m):
    a, b, c, d, e, f = g
    p, q, r, s, t, u = m
    return (a * p + b * r, a * q + b * s, c * p + d * r, c * q + d * s, a * t + b * u + e, c * t + d * u + f)


def words(depth):
    """Breadth first search over the group generated by the maps."""
    identity = (F(1), F(0), F(0), F(1), F(0), F(0))
    seen, frontier, edges = {identity: ()}, [identity], []
    for _ in range(depth):
        new = []
        for m in frontier:
            for name, g in GENERATORS.items():
                if name == "pythagoras" and "pythagoras" in seen[m]:
                    continue
                k = compose(tuple(map(F, g)), m)
                if k not in seen:
                    seen[k] = seen[m] + (name,)
                    new.append(k)
                    edges.append((m, name, k))
        frontier = new
    for m in [m for m in seen if len(seen[m]) < depth]:
        for name, g in LAST.items():
            k = compose(tuple(map(F, g)), m)
            if k not in seen:
                seen[k] = seen[m] + (name,)
                edges.append((m, name, k))
    return seen, edges


def apply(m, p):
    a, b, c, d, e, f = m
    x, y = ref.exact(p[0]), ref.exact(p[1])
    return (a * x + b * y + e, c * x + d * y + f)


def number(q):
    """A finite decimal as a float whose shortest notation is the exact value, or as a decimal."""
    v = float(q)
    if ref.exact(v) != q:
        with localcontext() as context:
            context.prec = 200
            v = Decimal(q.numerator) / q.denominator
        assert ref.exact(v) == q, q
    return v


def jobs(tier):
    for name, k in POOLS[tier]:
        for n in range(1, k + 1):
            for first in range(len(spaces.SPACES[name].pool)):
                yield (name, n, first, DEPTH[tier])
    for name in WHOLE:
        yield (name, 0, 0, DEPTH[tier])


def signature(poly, sites):
    model = ref.Model(poly, sites)

    def run():
        v = impl.build(poly, sites)
        return [(s.area(), [model.at(p) for p in s.vertices()]) for s in v.sites], len(v.edges), len(v.vertices)

    result, complaint = core.attempt(run)
    return result, complaint, oracle.Tol(model), model


def compare(poly, sites, m, base, base_tol):
    a, b, c, d, e, f = m
    factor = abs(a * d - b * c)
    poly2 = [tuple(map(number, apply(m, p))) for p in poly]
    sites2 = [tuple(map(number, apply(m, p))) for p in sites]
    result, complaint, tol, model = signature(poly2, sites2)
    if complaint:
        return [complaint]
    bad = []
    e0 = float(e - ref.Fraction(model.origin[0], model.den))
    f0 = float(f - ref.Fraction(model.origin[1], model.den))
    pos = tol.pos + float(factor) ** 0.5 * base_tol.pos
    slack = tol.area + float(factor) * base_tol.area
    if result[1:] != base[1:]:
        bad.append(f"{result[1]} edges and {result[2]} vertices instead of {base[1]} and {base[2]}")
    for i, ((area, corners), (area0, corners0)) in enumerate(zip(result[0], base[0])):
        if not abs(area - float(factor) * area0) <= slack:
            bad.append(f"area of the cell of site {i} is {area!r} instead of {float(factor)} * {area0!r}")
        want = [(float(a) * x + float(b) * y + e0, float(c) * x + float(d) * y + f0) for x, y in corners0]
        if a * d - b * c < 0:
            want = want[::-1]
        if not oracle._match_cycle(corners, want, 4 * pos):
            bad.append(f"the cell of site {i} is {corners} instead of {want}")
    return bad


def work(job, out):
    import itertools
    name, n, first, depth = job
    space = spaces.SPACES[name]
    if n == 0:
        sets = [tuple(space.pool)]
    else:
        sets = [(space.pool[first],) + rest for rest in itertools.combinations(space.pool[first + 1:], n - 1)]
    seen, edges = words(depth)
    for sites in sets:
        base, complaint, tol, _ = signature(space.poly, list(sites))
        out.state()
        if complaint:
            out.violation(dict(poly=diagrams.encode(space.poly), sites=diagrams.encode(sites), word=[]), [complaint], n)
            continue
        for before, generator, m in edges:
            bad = compare(space.poly, sites, m, base, tol)
            out.state()
            out.transition()
            out.trace()
            if bad:
                out.violation(dict(poly=diagrams.encode(space.poly), sites=diagrams.encode(sites), word=list(seen[m])), bad,
                              len(sites) + len(seen[m]))
        out.outcome((len(sites), base[1:]))
        if out.full:
            return
    if sets:
        out.sample(dict(sites=[(float(x), float(y)) for x, y in sites], maps=len(edges), edges=base[1] if base else None))


def replay(case):
    poly, sites = diagrams.decode(case["poly"]), diagrams.decode(case["sites"])
    base, complaint, tol, _ = signature(poly, sites)
    if complaint:
        return [complaint]
    m = (F(1), F(0), F(0), F(1), F(0), F(0))
    for w in case["word"]:
        m = compose(tuple(map(F, {**GENERATORS, **LAST}[w])), m)
    return compare(poly, sites, m, base, tol)
