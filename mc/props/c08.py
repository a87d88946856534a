"""C08: a new site takes its cell from its neighbours, removing it gives it back; nothing else changes."""
import itertools

from .. import core, diagrams, impl, oracle, ref, spaces

POOLS = {"quick": ["g33-all", "g33-all-tight", "readme-all", "hline-all", "vline-all", "dline-all", "aline-all", "hline-tri",
                   "g33-rttl", "g33-rtbr", "tri-closed", "g9-octagon", "ten-irr", "ten-circle", "ten-vee", "ten-rows",
                   "ten-hexa", "ten-top0", "ten-pico", "ten-giga"],
         "thorough": ["g33-all", "g33-all-tight", "readme-all", "hline-all", "vline-all", "dline-all", "aline-all",
                      "hline-tri", "g33-rttl", "g33-rtbr", "tri-closed", "g9-octagon", "ten-irr", "ten-circle", "ten-vee",
                      "ten-rows", "ten-hexa", "ten-top0", "ten-pico", "ten-giga", "pairs", "outside-ring", "hex-all", "c5-tight", "c5-all", "g43-all", "tworows-all",
                      "twocols-all", "irr-all", "irr-penta", "bowl-all", "arch-all"]}
EXTRA = {
    "g9-octagon": (spaces.OCTAGON, spaces.grid(3, 3, 3, 3, 2)),
    "ten-irr": (spaces.box(-1, 4, 0, 3), spaces.noise(10, 41, 0, 3, 1)),
    "ten-circle": (spaces.box(-5, 5, -5, 6), spaces.circle(5)[:10]),
    "ten-vee": (spaces.PENTA, [(x / 2, y / 2) for x, y in [(-1, 1), (0, 0), (1, 1), (2, 2), (3, 1), (4, 0), (5, 1), (6, 2), (7, 3), (2, 5)]]),
    "ten-rows": (spaces.box(-1, 5, -1, 3), [(x, y) for y in (0, 2) for x in range(5)]),
    "ten-hexa": (spaces.HEXA, [(0, 0), (1, 0), (2, 0), (3, 0), (0.5, 1.5), (1.5, 1.5), (2.5, 1.5), (0, 3), (1, 3), (3, 3)]),
    "ten-pico": (spaces.exactly(spaces.PENTA, e=-12), spaces.exactly(spaces.noise(10, 43, 0, 3, 1), e=-12)),
    "ten-giga": (spaces.move(spaces.box(-1, 4, -1, 4), 10 ** 9, -10 ** 9),
                 spaces.exactly([(x, y) for x, y in spaces.noise(10, 47, 0, 3, 2)], 10 ** 9, -10 ** 9)),
    "ten-top0": (spaces.box(-2, 6, -5, 0), [(0, 0), (1, -1), (2, -2), (3, -3), (4, -4), (0, -4), (4, 0), (2, 0), (0, -2), (4, -2)]),
}
BOUNDS = {t: "the whole insertion lattice (every subset, every single insertion) of the pools " + ", ".join(POOLS[t]) for t in POOLS}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon"]


def pool_of(name):
    if name in EXTRA:
        return EXTRA[name]
    s = spaces.SPACES[name]
    return s.poly, s.pool


def jobs(tier):
    for name in POOLS[tier]:
        n = len(pool_of(name)[1])
        # one item per value of the lowest bits: each rebuilds the states it needs
        if n <= 10:
            yield (name, 0, 1)
        else:
            for r in range(8):
                yield (name, r, 8)


def observe(poly, sites, frame):
    def run():
        v = impl.build(poly, sites)
        out = []
        index = {id(s): i for i, s in enumerate(v.sites)}
        for s in v.sites:
            borders = s.borders()
            out.append((s.area(), [frame.at(b.origin) for b in borders],
                        {index[id(b.twin.incident_point)] for b in borders if b.twin.incident_point is not None}))
        return out

    return core.attempt(run)


def relate(before, after, sites, k, tol):
    """before: without site k; after: with it. Both lists in the order of `sites`."""
    bad = []
    old = list(before)
    new_area, new_corners, new_near = after[k]
    lost = 0.0
    for i, s in enumerate(sites):
        if i == k:
            continue
        a, b = old[i if i < k else i - 1], after[i]
        lost += a[0] - b[0]
        if not b[0] <= a[0] + 2 * tol.area:
            bad.append(f"the cell of {s} grows from {a[0]!r} to {b[0]!r}")
        if i not in new_near:
            if not abs(a[0] - b[0]) <= 2 * tol.area:
                bad.append(f"the cell of {s} changes from {a[0]!r} to {b[0]!r}, but does not touch the new cell")
        elif not a[0] - b[0] > -2 * tol.area:
            bad.append(f"the cell of {s} does not give anything to its new neighbour")
        if not oracle._covered(b[1], a[1], 8 * tol.pos):
            # corners of the smaller cell must lie inside the old one
            for p in b[1]:
                if not inside(p, a[1], 8 * tol.pos):
                    bad.append(f"the cell of {s} has a new corner {p} outside of its old region {a[1]}")
    if not abs(lost - new_area) <= tol.area * (len(sites) + 2):
        bad.append(f"the new cell has {new_area!r}, the others lose {lost!r}")
    return bad


def inside(p, corners, tol):
    """corners of a convex region, clockwise"""
    n = len(corners)
    for k in range(n):
        a, b = corners[k], corners[(k + 1) % n]
        cross = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
        length = abs(b[0] - a[0]) + abs(b[1] - a[1])
        if not cross <= tol * length + tol * tol:
            return False
    return True


def work(job, out):
    name, part, parts = job
    poly, pool = pool_of(name)
    n = len(pool)
    states = {}
    frame = ref.Model(poly, [], only=())
    tol = oracle.Tol(frame)

    def state(mask):
        if mask not in states:
            sites = [pool[i] for i in range(n) if mask >> i & 1]
            result, complaint = observe(poly, sites, frame)
            out.state()
            out.trace()
            if complaint:
                out.violation(dict(poly=diagrams.encode(poly), sites=diagrams.encode(sites), new=len(sites) - 1), [complaint],
                              len(sites))
            else:
                out.outcome((len(sites), sorted(len(c[1]) for c in result)))
            states[mask] = result
        return states[mask]

    bits = parts.bit_length() - 1
    for mask in range(1, 1 << n):
        if mask & (parts - 1) != part:
            continue
        after = state(mask)
        sites = [pool[i] for i in range(n) if mask >> i & 1]
        if after is None or len(sites) < 2:
            continue
        members = [i for i in range(n) if mask >> i & 1]
        for k, i in enumerate(members):
            before = state(mask & ~(1 << i))
            if before is None:
                continue
            out.transition()
            bad = relate(before, after, sites, k, tol)
            if bad:
                out.violation(dict(poly=diagrams.encode(poly), sites=diagrams.encode(sites), new=k), bad, len(sites))
        if out.full:
            return
    out.sample(dict(pool=name, last=[(float(x), float(y)) for x, y in sites], bits=bits))


def replay(case):
    poly, sites, k = diagrams.decode(case["poly"]), diagrams.decode(case["sites"]), case["new"]
    frame = ref.Model(poly, [], only=())
    tol = oracle.Tol(frame)
    after, complaint = observe(poly, sites, frame)
    if complaint:
        return [complaint]
    if len(sites) < 2:
        return []
    before, complaint = observe(poly, sites[:k] + sites[k + 1:], frame)
    if complaint:
        return [complaint]
    return relate(before, after, sites, k, tol)
