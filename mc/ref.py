"""Exact reference model of a bounded Voronoi diagram.

Everything is computed with integers (homogeneous coordinates); no floating point
is used until the very end, when results are handed out for comparison.  The model
is deliberately boring: the cell of site i is the convex bounding polygon cut by one
half-plane per other site.
"""
from decimal import Decimal
from fractions import Fraction
from math import gcd


def exact(value):
    """Exact rational for whatever number type a caller may hand to the library."""
    return Fraction(Decimal(str(value)))


def _norm(p):
    x, y, w = p
    g = gcd(gcd(x, y), w)
    if g > 1:
        x, y, w = x // g, y // g, w // g
    return (x, y, w)


def hull_ccw(points, straight=False):
    """Corners of the convex hull in counter clockwise order (integer points); with those on a side if straight."""
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and (
                    (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1])
                    - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0])) < (0 if straight else 1):
                out.pop()
            out.append(p)
        return out

    lower, upper = half(pts), half(reversed(pts))
    return lower[:-1] + upper[:-1]


class Model:
    """The bounded Voronoi diagram of `sites` inside the convex polygon `poly`.

    cells[i]  list of (corner, label) in counter clockwise order; `corner` is a
              homogeneous integer triple and `label` says what the side leaving the
              corner separates the cell from: an int j >= 0 is site j, and -1-k is
              side k of the polygon.
    """

    def __init__(self, poly, sites, only=None, straight=False):
        fr_poly = [(exact(x), exact(y)) for x, y in poly]
        fr_sites = [(exact(x), exact(y)) for x, y in sites]
        den = 1
        for x, y in fr_poly + fr_sites:
            for v in (x, y):
                den = den * v.denominator // gcd(den, v.denominator)
        self.den = den
        self.poly = hull_ccw([(int(x * den), int(y * den)) for x, y in fr_poly], straight)
        self.sites = [(int(x * den), int(y * den)) for x, y in fr_sites]
        n = len(self.poly)
        self.sides = []
        for k in range(n):
            (x0, y0), (x1, y1) = self.poly[k], self.poly[(k + 1) % n]
            # inside: a x + b y <= c
            a, b = y1 - y0, x0 - x1
            self.sides.append((a, b, a * x0 + b * y0))
        xs, ys = [p[0] for p in self.poly], [p[1] for p in self.poly]
        self.size = max(max(xs) - min(xs), max(ys) - min(ys)) / den
        self.magnitude = max(abs(v) for v in xs + ys) / den
        # positions are compared relative to this point, so that floats do not lose what the decimals have
        far = self.magnitude > 1000 * self.size
        self.origin = self.poly[0] if far else (0, 0)
        self.origin_decimal = min((Decimal(str(x)), Decimal(str(y))) for x, y in poly) if far else None
        self.cells = [self._cell(i) for i in range(len(self.sites))] if only is None else None

    # -- exact predicates -------------------------------------------------
    def side_of_polygon(self, point):
        """1 strictly inside, 0 on the boundary, -1 outside (integer point, scaled by den)."""
        x, y = point
        worst = min(c - a * x - b * y for a, b, c in self.sides)
        return (worst > 0) - (worst < 0)

    def on_outline(self, p):
        """Is a vertex on a side of the polygon?"""
        return any(c * p[2] == a * p[0] + b * p[1] for a, b, c in self.sides)

    def is_corner(self, p):
        return any(x * p[2] == p[0] and y * p[2] == p[1] for x, y in self.poly)

    def _cell(self, i):
        n = len(self.poly)
        sx, sy = self.sites[i]
        cur = [((x, y, 1), -1 - k) for k, (x, y) in enumerate(self.poly)]
        order = sorted((j for j in range(len(self.sites)) if j != i),
                       key=lambda j: (self.sites[j][0] - sx) ** 2 + (self.sites[j][1] - sy) ** 2)
        for j in order:
            tx, ty = self.sites[j]
            a, b = 2 * (tx - sx), 2 * (ty - sy)
            c = tx * tx + ty * ty - sx * sx - sy * sy
            cur = _clip(cur, a, b, c, j)
            if not cur:
                break
        return cur

    # -- derived, handed out as floats ------------------------------------
    def xy(self, p):
        ox, oy = self.origin
        return (float(Fraction(p[0] - ox * p[2], p[2] * self.den)),
                float(Fraction(p[1] - oy * p[2], p[2] * self.den)))

    def at(self, c):
        """Where a location of the library is, in the same frame as xy()."""
        if self.origin_decimal is None:
            return c.xy
        x, y = float(c.xd - self.origin_decimal[0]), float(c.yd - self.origin_decimal[1])
        if c.xy != (float(c.xd), float(c.yd)):
            raise ValueError(f"{c!r} is at {c.xd}, {c.yd} but at {c.xy} as floats")
        return (x, y)

    def area(self, i):
        return float(area_exact(self.cells[i]) / (self.den * self.den))

    def polygon_area(self):
        return float(area_exact([((x, y, 1), 0) for x, y in self.poly]) / (self.den * self.den))

    def corners(self, i):
        return [self.xy(p) for p, _ in self.cells[i]]

    def edges(self):
        """{(i, j): (p, q)}: positive-length common boundaries, i < j, p -> q has cell i on its left."""
        out = {}
        for i, cell in enumerate(self.cells):
            m = len(cell)
            for k, (p, label) in enumerate(cell):
                if label > i:
                    out[(i, label)] = (p, cell[(k + 1) % m][0])
        return out

    def borders(self):
        """[(i, side, p, q)]: stretches of polygon side `side` that belong to cell i (counter clockwise)."""
        out = []
        for i, cell in enumerate(self.cells):
            m = len(cell)
            for k, (p, label) in enumerate(cell):
                if label < 0:
                    out.append((i, -1 - label, p, cell[(k + 1) % m][0]))
        return out

    def vertices(self):
        return sorted({p for cell in self.cells for p, _ in cell})

    def distance2(self, p, j):
        x, y = self.sites[j]
        return Fraction((p[0] - x * p[2]) ** 2 + (p[1] - y * p[2]) ** 2, p[2] * p[2])

    def nearest(self, p):
        ds = [self.distance2(p, j) for j in range(len(self.sites))]
        m = min(ds)
        return [j for j, d in enumerate(ds) if d == m]


def area_exact(cell):
    total = Fraction(0)
    m = len(cell)
    for k in range(m):
        x0, y0, w0 = cell[k][0]
        x1, y1, w1 = cell[(k + 1) % m][0]
        total += Fraction(x0 * y1 - x1 * y0, w0 * w1)
    return total / 2


def _clip(cur, a, b, c, label):
    """Cut the labelled convex polygon by a x + b y <= c; the cut gets `label`."""
    ds = [a * p[0] + b * p[1] - c * p[2] for p, _ in cur]
    if all(d <= 0 for d in ds):
        return cur
    if all(d >= 0 for d in ds):
        return []
    out = []
    m = len(cur)
    for k in range(m):
        p, lab = cur[k]
        q, _ = cur[(k + 1) % m]
        dp, dq = ds[k], ds[(k + 1) % m]
        if dp < 0:
            out.append((p, lab))
            if dq > 0:
                out.append((_cut(p, q, dp, dq), label))
        elif dp == 0:
            # p stays; the side leaving it is kept only when it goes inside
            out.append((p, lab if dq < 0 else label))
        else:
            if dq < 0:
                out.append((_cut(q, p, dq, dp), lab))
    return out


def _cut(p, q, dp, dq):
    # dp < 0 < dq, both scaled with their own weight: the zero of the interpolation
    x, y, w = (p[0] * dq - q[0] * dp, p[1] * dq - q[1] * dp, p[2] * dq - q[2] * dp)
    return _norm((x, y, w))
