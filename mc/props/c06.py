"""C06: the diagram does not depend on the order or the number format of the input."""
import itertools
from decimal import Decimal as D

from .. import core, diagrams, impl, oracle, ref, spaces

PERMUTED = {"quick": [("g33-all", 3), ("g33-all-tight", 3), ("c5-all", 3), ("readme-all", 4), ("hline-all", 4), ("vline-all", 3),
                      ("irr-all", 3), ("tri-closed", 3), ("g33-rttr", 3), ("vee-all", 3)],
            "thorough": [("g33-all", 5), ("g33-all-tight", 4), ("c5-all", 4), ("readme-all", 7), ("hline-all", 5),
                         ("vline-all", 5), ("dline-all", 5), ("irr-all", 4), ("tri-closed", 5), ("g33-rttr", 5),
                         ("vee-all", 4), ("bowl-all", 4), ("tworows-all", 4), ("dodeca-closed", 4)]}
LONG = ["grid66", "circle65", "noise1-box", "noise2-box", "hexgrid", "noise-octagon", "zigzag", "spiral"]
BIG = ["big-noise", "big-grid", "big-row", "big-column", "wheel"]
BIG_ORDERS = {"from left to right": lambda s: s, "from right to left": lambda s: (-s[0], s[1]), "from top to bottom": lambda s: (-s[1], s[0]),
              "from bottom to top": lambda s: (s[1], -s[0])}
FORMATS = ["g33-all", "readme-all", "irr-all", "tenths", "c5-tight", "hex-all", "g44-neg"]
_DIGITS = [(D(i * 7 % 11 + 1) / 7 + D(i) / 10 ** 20, D(i * 5 % 12 + 1) / 7 + D(i * i) / 10 ** 22) for i in range(8)]
# values that only some formats can hold
EXACT = {
    "digits": ([(-1, -1), (3, -1), (3, 3), (-1, 3)], [(x.quantize(D("1e-24")), y.quantize(D("1e-24"))) for x, y in _DIGITS]),
    "integers": ([(0, 0), (7, 0), (7, 7), (0, 7)], [(1, 1), (2, 5), (6, 3), (4, 4), (3, 0), (0, 6), (5, 7), (6, 6)]),
    "huge": ([(10 ** 20, 0), (10 ** 20 + 7, 0), (10 ** 20 + 7, 7), (10 ** 20, 7)],
             [(10 ** 20 + x, y) for x, y in [(1, 1), (2, 5), (6, 3), (4, 4), (3, 0), (0, 6), (5, 7), (6, 6)]]),
    "halves": ([(-4, -4), (4, -4), (4, 4), (-4, 4)], [(D(i * 5 % 11) / 2 - 2, D(i * 3 % 13) / 4 - 1) for i in range(8)]),
    "tenths": ([(-1, -1), (1, -1), (1, 1), (-1, 1)], [(D(i * 5 % 11) / 10 - D("0.5"), D(i * 3 % 13) / 10 - D("0.3")) for i in range(8)]),
    "close": ([(-1, -1), (2, -1), (2, 2), (-1, 2)], [(1, D(1)), (1, D("1.000000000000000000001")), (0, 0), (D("1e-21"), 1), (D("1e-20"), D("0.5")),
                                                     (D("0.1"), D("0.1")), (D("0.10000000000000000001"), D("0.2")), (1, 2)]),
}
MOST = {"quick": 2, "thorough": 4}
BOUNDS = {t: "all orders of all subsets: " + ", ".join(f"{n} (<= {k} sites)" for n, k in PERMUTED[t])
          + "; all rotations and reversals of the long sequences of " + ", ".join(LONG)
          + f"; the sites of {', '.join(BIG)} in the order of the sequence and sorted {', '.join(BIG_ORDERS)}"
          + "; 9 formats of sites x 5 formats of polygons for all pairs and the whole pool of " + ", ".join(FORMATS)
          + f"; every pair of number types that can hold them for the x- and y-coordinates of all subsets of <= {MOST[t]} and of 8 sites of " + ", ".join(EXACT)
          for t in PERMUTED}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon"]


def jobs(tier):
    for name, k in PERMUTED[tier]:
        pool = spaces.SPACES[name].pool
        for n in range(1, k + 1):
            for first in range(len(pool)):
                yield ("orders", name, n, first)
    for name in LONG:
        n = 30 if tier == "thorough" else 20
        for r in range(0, n):
            yield ("rotate", name, n, r)
    for name in BIG:
        for k in range(len(BIG_ORDERS)):
            yield ("big", name, 0, k)
    for name in FORMATS:
        for first in range(len(spaces.SPACES[name].pool)):
            yield ("formats", name, 2, first)
    for name in EXACT:
        yield ("types", name, 0, 0)
        for n in range(1, MOST[tier] + 1):
            for first in range(len(EXACT[name][1]) - n + 1):
                yield ("types", name, n, first)


def types():
    import numpy as np
    return {"int": int, "float": float, "Decimal": lambda v: D(str(v)), "padded": lambda v: D(str(v) + ("000" if "." in str(v) else ".000")),
            "scientific": lambda v: D(f"{D(str(v)):E}"), "float64": np.float64, "float32": np.float32, "int64": lambda v: np.int64(int(v)),
            "uint8": lambda v: np.uint8(int(v))}


def holds(kind, convert, values):
    for v in values:
        try:
            if kind in ("uint8", "int64") and not 0 <= v < 2 ** (8 if kind == "uint8" else 62) or "E" in str(v) and kind == "padded":
                return False
            if ref.exact(convert(v)) != ref.exact(v):
                return False
        except (ValueError, OverflowError):
            return False
    return True


def check_types(name, sites, out=None):
    """Every pair of types for the two coordinates."""
    poly = EXACT[name][0]
    expected, tol, complaint = baseline([tuple(map(D, map(str, p))) for p in poly], [tuple(map(D, map(str, p))) for p in sites])
    if complaint:
        return [complaint]
    bad = []
    table = types()
    able = [[k for k, c in table.items() if holds(k, c, [p[axis] for p in sites])] for axis in (0, 1)]
    outline = {"given": poly}
    if name == "integers":
        outline.update({k: [tuple(map(table[k], p)) for p in poly] for k in table})
    for a, b in itertools.product(*able):
        given = [(table[a](x), table[b](y)) for x, y in sites]
        for kind, corners in outline.items():
            this = one(corners, given, sites, expected, tol)
            bad += [f"coordinates of type {a} and {b}, polygon of type {kind}: {t}" for t in this]
            if out is not None:
                out.state()
                out.transition()
                out.trace()
                out.outcome((name, a, b, kind))
    return bad


def names(sites):
    """The rank of every site from top to bottom, and from left to right at the same height."""
    ranked = sorted(range(len(sites)), key=lambda i: (-ref.exact(sites[i][1]), ref.exact(sites[i][0])))
    out = [None] * len(sites)
    for rank, i in enumerate(ranked):
        out[i] = rank
    return out


def signature(v, m):
    return [(s.area(), [m.at(p) for p in s.vertices()]) for s in v.sites], len(v.edges), len(v.vertices)


def one(poly, given, sites, expected, tol):
    """Runs on `given` (any format of `sites`) and compares with the signatures by site."""
    bad = []

    def run():
        v = impl.build(poly, given)
        return v, signature(v, expected[3])

    result, complaint = core.attempt(run, seconds=core.allowance(len(sites)))
    if complaint:
        return [complaint]
    v, (cells, n_edges, n_vertices) = result
    if len(v.sites) != len(sites):
        return [f"{len(sites)} sites are given, {len(v.sites)} listed"]
    for i, (site, given_xy) in enumerate(zip(v.sites, sites)):
        if (ref.exact(site.xd), ref.exact(site.yd)) != (ref.exact(given_xy[0]), ref.exact(given_xy[1])):
            bad.append(f"site {i} is given as {given_xy}, listed as {site.xy}")
    got = [s.name for s in v.sites]
    if got != names(sites):
        bad.append(f"sites are named {got}, should be {names(sites)} (top to bottom, left to right)")
    if bad:
        return bad
    want_cells, want_edges, want_vertices, _ = expected
    if (n_edges, n_vertices) != (want_edges, want_vertices):
        bad.append(f"{n_edges} edges and {n_vertices} vertices, instead of {want_edges} and {want_vertices}")
    for s, (area, corners) in zip(sites, cells):
        want_area, want_corners = want_cells[(ref.exact(s[0]), ref.exact(s[1]))]
        if not abs(area - want_area) <= tol.area:
            bad.append(f"area of the cell of {s} is {area!r} instead of {want_area!r}")
        if not oracle._match_cycle(corners, want_corners, tol.pos) and not (
                oracle._covered(corners, want_corners, 4 * tol.pos) and oracle._covered(want_corners, corners, 4 * tol.pos)):
            bad.append(f"the cell of {s} is {corners} instead of {want_corners}")
    return bad


def baseline(poly, sites):
    model = ref.Model(poly, sites)
    tol = oracle.Tol(model)
    result, complaint = core.attempt(lambda: signature(impl.build(poly, sites), model), seconds=core.allowance(len(sites)))
    if complaint:
        return None, tol, complaint
    cells, e, n = result
    table = {(ref.exact(x), ref.exact(y)): c for (x, y), c in zip(sites, cells)}
    return (table, e, n, model), tol, None


def formats(sites):
    import numpy as np
    floats = [(float(x), float(y)) for x, y in sites]
    out = {
        "tuples": list(sites),
        "lists": [list(p) for p in floats],
        "tuple of tuples": tuple(map(tuple, floats)),
        "float array": np.array(floats),
        "float array rows": list(np.array(floats)),
        "decimals": [(D(str(x)), D(str(y))) for x, y in floats],
        "generator": None,
        "iterator": None,
    }
    if all(float(x).is_integer() and float(y).is_integer() for x, y in floats):
        out["integers"] = [(int(x), int(y)) for x, y in floats]
        out["int array"] = np.array(floats).astype(int)
    return floats, out


def materialise(name, floats, value):
    if name == "generator":
        return (p for p in floats)
    if name == "iterator":
        return iter(floats)
    return value


def sets_of(name, n, k):
    pool = EXACT[name][1]
    if n == 0:
        return [pool]
    return [[pool[k]] + list(rest) for rest in itertools.combinations(pool[k + 1:], n - 1)]


def work(job, out):
    kind, name, n, k = job
    space = spaces.SPACES.get(name)
    if kind == "orders":
        sets = [(space.pool[k],) + rest for rest in itertools.combinations(space.pool[k + 1:], n - 1)]
        for sites in sets:
            expected, tol, complaint = baseline(space.poly, list(sites))
            out.state()
            if complaint:
                out.violation(dict(kind="order", poly=diagrams.encode(space.poly), sites=diagrams.encode(sites),
                                   order=list(range(n))), [complaint], n)
                continue
            for order in itertools.permutations(range(n)):
                given = [sites[i] for i in order]
                bad = one(space.poly, given, given, expected, tol)
                out.state()
                out.transition()
                out.trace()
                if bad:
                    out.violation(dict(kind="order", poly=diagrams.encode(space.poly), sites=diagrams.encode(sites),
                                       order=list(order)), bad, n)
            out.outcome((n, expected[1:3], names(sites)))
            if out.full:
                return
        if sets:
            out.sample(dict(sites=[(float(x), float(y)) for x, y in sites], orders="all", edges=expected[1]))
    elif kind == "rotate":
        sites = space.pool[:n]
        expected, tol, complaint = baseline(space.poly, sites)
        for flip in (1, -1):
            order = (list(range(k, n)) + list(range(k)))[::flip]
            given = [sites[i] for i in order]
            bad = [complaint] if complaint else one(space.poly, given, given, expected, tol)
            out.state()
            out.transition()
            out.trace()
            out.outcome((name, flip))
            if bad:
                out.violation(dict(kind="order", poly=diagrams.encode(space.poly), sites=diagrams.encode(sites),
                                   order=order), bad, n)
    elif kind == "big":
        sites = space.pool
        expected, tol, complaint = baseline(space.poly, sites)
        order = sorted(range(len(sites)), key=lambda i: list(BIG_ORDERS.values())[k](sites[i]))
        given = [sites[i] for i in order]
        bad = [complaint] if complaint else one(space.poly, given, given, expected, tol)
        out.state()
        out.transition()
        out.trace()
        out.outcome((name, k))
        if bad:
            out.violation(dict(kind="order", poly=diagrams.encode(space.poly), sites=diagrams.encode(sites), order=order), bad, len(sites))
    elif kind == "types":
        for sites in sets_of(name, n, k):
            bad = check_types(name, sites, out)
            if bad:
                out.violation(dict(kind="types", name=name, sites=diagrams.encode(sites)), bad, len(sites))
                if out.full:
                    return
    else:
        sets = [list(s) for s in itertools.combinations(space.pool[k:], 2) if s[0] == space.pool[k]]
        sets += [space.pool[:k + 1]]
        for sites in sets:
            check_formats(space.poly, sites, out)
            if out.full:
                return


def check_formats(poly, sites, out=None):
    expected, tol, complaint = baseline(poly, sites)
    if complaint:
        if out is not None:
            out.violation(dict(kind="format", poly=diagrams.encode(poly), sites=diagrams.encode(sites)), [complaint], 9)
        return [complaint]
    floats, table = formats(sites)
    corner_floats, corners = formats(poly)
    all_bad = []
    for sf in table:
        for pf in corners:
            if pf in ("float array rows", "integers", "lists", "iterator") and sf != "tuples":
                continue
            given = materialise(sf, floats, table[sf])
            hull = materialise(pf, corner_floats, corners[pf])
            bad = one(hull, given, floats, expected, tol)
            if out is not None:
                out.state()
                out.transition()
                out.trace()
                out.outcome((sf, pf, expected[1:3]))
            if bad:
                bad = [f"sites as {sf}, polygon as {pf}: {t}" for t in bad]
                all_bad += bad
                if out is not None:
                    out.violation(dict(kind="format", poly=diagrams.encode(poly), sites=diagrams.encode(sites)), bad,
                                  len(sites))
    return all_bad


def replay(case):
    sites = diagrams.decode(case["sites"])
    poly = diagrams.decode(case["poly"]) if "poly" in case else None
    if case["kind"] == "types":
        return check_types(case["name"], sites)
    if case["kind"] == "format":
        return check_formats(poly, sites)
    expected, tol, complaint = baseline(poly, sites)
    if complaint:
        return [complaint]
    given = [sites[i] for i in case["order"]]
    return one(poly, given, given, expected, tol)
