"""A canonical, exact description of everything a user can see of a finished diagram."""


def spot(p):
    return None if p is None else (str(p.xd), str(p.yd))


def half(e):
    if e is None:
        return None
    inc = e.incident_point
    return (spot(inc), spot(e.origin), spot(e.twin.origin))


def full(e):
    return (half(e), half(e.next), half(e.prev))


def site(s):
    return (spot(s), s.name, repr(s.area()), tuple(full(b) for b in s.borders()), tuple(spot(p) for p in s.vertices()))


def sites(v):
    return tuple(site(s) for s in v.sites)


def diagram(v):
    edges = tuple(sorted(repr((full(e), full(e.twin))) for e in v.edges))
    vertices = tuple(sorted(repr((spot(p), sorted(repr(half(e)) for e in p.connected_edges))) for p in v.vertices))
    return (sites(v), edges, vertices)


def difference(a, b, what="diagram"):
    """One short complaint about the first difference, or None."""
    if a == b:
        return None
    if a is None or b is None:
        return f"{what}: {a!r:.100} and {b!r:.100}"
    for name, x, y in zip(("cells", "edges", "vertices"), a, b):
        if x != y:
            if len(x) != len(y):
                return f"{what}: {len(x)} {name} instead of {len(y)}"
            for p, q in zip(x, y):
                if p != q:
                    return f"{what}: {str(p)[:220]} instead of {str(q)[:220]}"
    return f"{what}: differs"
