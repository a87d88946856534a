"""All strictly convex polygons with corners on a small lattice."""
import itertools


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def counter_clockwise(points):
    """The points as corners of a strictly convex polygon in counter clockwise order, or None."""
    pts = sorted(points)
    n = len(pts)

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out

    hull = half(pts)[:-1] + half(pts[::-1])[:-1]
    return hull if len(hull) == n and n >= 3 else None


def polygons(nx, ny, lo=3, hi=8):
    """Every strictly convex polygon (corners counter clockwise) on the nx x ny lattice."""
    pts = [(x, y) for x in range(nx) for y in range(ny)]

    # grow sets in lexicographic order; a set with a point inside its hull cannot become convex again
    def grow(chosen, start):
        if len(chosen) >= lo:
            ccw = counter_clockwise(chosen)
            if ccw is None:
                return
            yield ccw
        if len(chosen) == hi:
            return
        for k in range(start, len(pts)):
            yield from grow(chosen + [pts[k]], k + 1)

    for i, j in itertools.combinations(range(len(pts)), 2):
        yield from grow([pts[i], pts[j]], j + 1)


def side(poly, p):
    """1 strictly inside, 0 on the outline, -1 outside."""
    worst = min(cross(a, b, p) for a, b in zip(poly, poly[1:] + poly[:1]))
    return (worst > 0) - (worst < 0)
