"""Named finite spaces of diagrams: a convex polygon and a finite pool of candidate sites.

A space is explored completely within its bound: either every subset of the pool with
lo..hi members (the insertion lattice of the pool), or every prefix and every short
window of some fixed longer sequences (chains).  Nothing is drawn at random: the
"irregular" pools come from a fixed recurrence and are constants.

mode   strict  exact structure is compared (inputs with few digits: the rational
               arithmetic of the code is exact enough to separate all vertices)
       coarse  vertices closer than the tolerance may or may not be merged
               (inputs whose 17 digits make cocircular sites cocircular only up to
               rounding, or that are degenerate up to a tiny perturbation)
"""
import math
from decimal import Decimal as D


class Space:
    def __init__(self, name, poly, pool, lo=1, hi=None, mode="strict", chains=None, window=0,
                 quick_hi=None, sizes=None):
        self.name, self.poly, self.pool = name, list(poly), list(pool)
        self.lo, self.hi = lo, (len(self.pool) if hi is None else hi)
        self.mode, self.chains, self.window = mode, chains, window
        self.sizes = sizes     # chains: only prefixes of these lengths
        self.quick_hi = min(self.hi, quick_hi or self.hi)

    def sites(self, indices):
        return [self.pool[i] for i in indices]

    # -- enumeration ------------------------------------------------------
    def jobs(self, tier="thorough", hi=None):
        """Disjoint work items that cover the space."""
        if self.chains:
            for c in range(len(self.chains)):
                n = len(self.chains[c])
                if self.sizes:
                    yield from ((self.name, "prefix", c, k - 1, k) for k in self.sizes)
                    continue
                # long prefixes are the expensive ones: split them up
                for start in range(0, n, 8):
                    yield (self.name, "prefix", c, start, min(n, start + 8))
                if self.window:
                    yield (self.name, "window", c, 0, n)
            return
        n = len(self.pool)
        hi = min(self.hi, hi) if hi else (self.quick_hi if tier == "quick" else self.hi)
        for i in range(n):
            if self.lo <= 1:
                yield (self.name, "single", (i,), hi)
            if hi >= 2:
                for j in range(i + 1, n):
                    yield (self.name, "tree", (i, j), hi)

    def walk(self, job):
        """Index tuples of one work item in depth first order (a parent precedes its children)."""
        kind = job[1]
        if kind == "prefix":
            _, _, c, start, stop = job
            for k in range(start, stop):
                yield tuple(self.chains[c][:k + 1])
        elif kind == "window":
            c = self.chains[job[2]]
            for i in range(1, len(c)):
                for w in range(1, self.window + 1):
                    if i + w <= len(c):
                        yield tuple(c[i:i + w])
        elif kind == "single":
            yield job[2]
        else:
            stack = [job[2]]
            while stack:
                item = stack.pop()
                if len(item) >= self.lo:
                    yield item
                if len(item) < job[3]:
                    stack.extend(item + (k,) for k in range(len(self.pool) - 1, item[-1], -1))


def box(x0, x1, y0, y1):
    return [(x0, y1), (x1, y1), (x1, y0), (x0, y0)]


def grid(nx, ny, dx=0, dy=0, step=1):
    return [(x * step + dx, y * step + dy) for y in range(ny) for x in range(nx)]


def circle(r):
    """All lattice points at distance r from the origin, clockwise from the top."""
    pts = [(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1) if x * x + y * y == r * r]
    return sorted(pts, key=lambda p: -math.atan2(p[1], p[0]))


def move(pts, dx=0, dy=0, k=1):
    return [(x * k + dx, y * k + dy) for x, y in pts]


def noise(n, seed, lo, hi, digits):
    """n distinct points of a fixed irregular sequence, as short decimals."""
    s, out = seed * 2654435761 % 2 ** 32, []
    scale = 10 ** digits
    while len(out) < n:
        vals = []
        for _ in range(2):
            s = (s * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            vals.append(D(int(lo * scale) + (s >> 33) % int((hi - lo) * scale + 1)) / scale)
        p = tuple(float(v) for v in vals)
        if p not in out:
            out.append(p)
    return out


def interleave(pts, step):
    n = len(pts)
    return [(i * step) % n for i in range(n)]


OCTAGON = [(2.5, 10), (5, 10), (10, 5), (10, 2.5), (5, 0), (2.5, 0), (0, 2.5), (0, 5)]
README_SITES = [(2.5, 2.5), (4, 7.5), (7.5, 2.5), (6, 7.5), (4, 4), (3, 3), (6, 3)]
TRI_UP = [(-2, -1), (8, -1), (3, 9)]
TRI_DOWN = [(-2, 4), (8, 4), (3, -6)]
TRI_LEFT = [(-6, 1), (5, 7), (5, -5)]
TRI_RIGHT = [(9, 2), (-1, 7), (-1, -4)]
RIGHT_TRIS = {
    "bl": [(-1, -1), (7, -1), (-1, 7)], "br": [(4, -1), (4, 7), (-4, -1)],
    "tl": [(-1, 4), (7, 4), (-1, -4)], "tr": [(4, 4), (-4, 4), (4, -4)],
}
KITE = [(1.5, 6), (5, 2), (1.5, -3), (-2, 2)]
QUAD = [(-1, -2), (5, -1), (4, 5), (-2, 4)]
PENTA = [(-1, -1), (4, -2), (6, 2), (2, 6), (-2, 3)]
HEXA = [(-2, 1.5), (0, 5), (3, 5), (5, 1.5), (3, -2), (0, -2)]
DODECA = [(x + 1.5, y + 1.5) for x, y in circle(5)]
SLIVER = [(-1, -1.5), (4.5, 4), (4, 4.5), (-1.5, -1)]
FLAT = box(-20, 23, -0.25, 3.25)
TALL = box(-0.25, 3.25, -20, 23)

G44, G33, G43, G34, G55 = grid(4, 4), grid(3, 3), grid(4, 3), grid(3, 4), grid(5, 5)
C5 = circle(5)
HEX = [(x + 0.5 * (y % 2), y * 0.75) for y in range(4) for x in range(3)]
IRR = noise(12, 7, 0, 3, 1)
IRR2 = noise(12, 11, -3, 3, 2)
HLINE = [(x, 1) for x in range(8)]
VLINE = [(1, y) for y in range(8)]
DLINE = [(x * 0.5, x * 0.75) for x in range(8)]
ALINE = [(x * 0.75, -x * 0.5) for x in range(8)]
TWOROWS = [(x, y) for y in (0, 2) for x in range(6)]
TWOCOLS = [(x, y) for x in (0, 2) for y in range(6)]
CROSS = [(x, 0) for x in range(-3, 4)] + [(0, y) for y in (-3, -2, -1, 1, 2, 3)]
RINGS = circle(5)[::3] + [(2 * x, 2 * y) for x, y in circle(5)[1::3]] + [(0, 0)] + [(1, 0), (0, 1), (-1, 0), (0, -1)]
VEE = [(x, abs(x) * 0.5) for x in range(-5, 6)]
ARCH = [(x, -0.25 * x * x) for x in range(-5, 6)]
BOWL = [(x, 0.25 * x * x) for x in range(-5, 6)]

SPACES = {}


def add(name, *args, **kwargs):
    assert name not in SPACES
    SPACES[name] = Space(name, *args, **kwargs)


# -- small subsets of grids in many polygons ------------------------------
add("g44-box", box(-1, 4, -1, 4), G44, hi=4)
add("g44-tight", box(0, 3, 0, 3), G44, hi=4)
add("g44-half", box(-0.5, 3.5, -0.5, 3.5), G44, hi=4, quick_hi=3)
add("g44-far", box(-40, 50, -60, 30), G44, hi=4, quick_hi=3)
add("g44-flat", FLAT, G44, hi=4, quick_hi=3)
add("g44-tall", TALL, G44, hi=4, quick_hi=3)
add("g44-top0", box(-1, 4, -4, 0), move(G44, 0, -3), hi=4, quick_hi=3)
add("g44-neg", box(-14, -9, -24, -19), move(G44, -13, -23), hi=4, quick_hi=3)
add("g44-off", box(995, 1010, 1995, 2009), move(G44, 1000, 2000), hi=4, quick_hi=3)
add("g44-triup", TRI_UP, G44, hi=4, quick_hi=3)
add("g44-tridown", TRI_DOWN, grid(4, 3, 1.5, 0), hi=4, quick_hi=3)
add("g44-trileft", TRI_LEFT, grid(4, 4, 0.5, -0.5), hi=4, quick_hi=3)
add("g44-triright", TRI_RIGHT, G44[:12], hi=4, quick_hi=3)
for _k, _t in RIGHT_TRIS.items():
    add("g33-rt" + _k, _t, grid(3, 3, 0.5, 0.5), hi=4)
add("g44-octagon", OCTAGON, grid(4, 4, 2.5, 2.5, 1.25), hi=4, quick_hi=3)
add("g44-kite", KITE, grid(3, 4, 0.5, 0.5, 0.75), hi=4, quick_hi=3)
add("g44-quad", QUAD, G44, hi=4, quick_hi=3)
add("g44-penta", PENTA, G44, hi=4, quick_hi=3)
add("g44-hexa", HEXA, G44, hi=4, quick_hi=3)
add("g44-dodeca", DODECA, G44, hi=4, quick_hi=3)
add("g55-box", box(-1, 5, -1, 5), G55, hi=3)
add("g55-diamond", [(2, 8), (8, 2), (2, -4), (-4, 2)], G55, hi=3)
add("tri-closed", [(0, 0), (8, 0), (4, 8)],
    [(0, 0), (4, 0), (8, 0), (2, 4), (6, 4), (4, 8), (4, 3), (3, 2), (1, 2), (6, 0)], hi=5)
add("tri-closed-zero", [(0, 0), (0, -8), (8, -4)],
    [(0, 0), (0, -4), (0, -8), (4, -2), (4, -6), (8, -4), (3, -4), (2, -3), (2, -1), (0, -6)], hi=5, quick_hi=4)
add("tri-closed-down", [(0, 0), (8, 0), (4, -8)],
    [(0, 0), (4, 0), (8, 0), (2, -4), (6, -4), (4, -8), (4, -3), (3, -2), (1, -2), (6, 0)], hi=5, quick_hi=4)
add("dodeca-closed", circle(5), circle(5)[::2] + [(0, 0), (1, 2), (-3, 0), (0, -2)] + circle(5)[1::6], hi=4)
add("penta-closed", PENTA, PENTA + [(1.5, -1.5), (0, 4.5), (-1.5, 1), (2, 1), (1, 2), (4, 4)], hi=4)
# -- sites outside the polygon: only their part inside counts -------------
add("outside-box", box(0.6, 2.3, 0.7, 2.2), G44, hi=3)
add("outside-tri", [(0.2, 0.1), (4, 1.1), (0.9, 4)], G44, hi=3)
add("outside-far", box(-3, -1.2, -1.1, 4.1), G44, hi=3)
# -- all subsets of small pools -------------------------------------------
add("g33-all", box(-1, 3, -1, 3), G33)
add("g33-all-tight", box(0, 2, 0, 2), G33)
add("g43-all", box(-1, 4, -1, 3), G43)
add("g34-all", [(-2, -2), (4, -2), (5, 5), (-1, 6)], G34, quick_hi=5)
add("hex-all", box(-0.5, 3, -0.5, 3), HEX, quick_hi=5)
add("irr-all", box(-0.5, 3.5, -0.5, 3.5), IRR)
add("irr-penta", [(-4, -4), (4, -5), (6, 1), (1, 6), (-5, 3)], IRR2, quick_hi=5)
add("c5-all", box(-7, 7, -7, 7), C5, quick_hi=5)
add("c5-tight", box(-5, 5, -5, 5), C5)
add("c5-off", box(-6, 20, -9, 7), C5, quick_hi=5)
add("hline-all", box(-1, 8, -1, 3), HLINE)
add("hline-tri", [(-1, 0), (9, 0), (4, 30)], HLINE)
add("vline-all", box(-1, 3, -1, 8), VLINE)
add("dline-all", box(-1, 5, -1, 7), DLINE)
add("aline-all", box(-1, 7, -5, 1), ALINE)
add("tworows-all", box(-1, 6, -1, 3), TWOROWS, quick_hi=5)
add("twocols-all", box(-1, 3, -1, 6), TWOCOLS, quick_hi=5)
add("cross-all", box(-4, 4, -4, 4), CROSS, hi=5, quick_hi=4)
add("rings-all", box(-11, 11, -11, 11), RINGS, hi=5, quick_hi=4)
add("vee-all", box(-6, 6, -1, 4), VEE, quick_hi=5)
add("arch-all", box(-6, 6, -8, 1), ARCH, quick_hi=5)
add("bowl-all", box(-6, 6, -1, 8), BOWL, quick_hi=5)
add("readme-all", OCTAGON, README_SITES)
add("sliver", SLIVER, [(D(k) / 4, D(k) / 4 + D(j) / 4) for k in range(0, 14, 2) for j in (-1, 0, 1)], hi=4, quick_hi=3)
# -- scales and number formats --------------------------------------------
add("tiny", [(x * 1e-6, y * 1e-6) for x, y in box(-1, 4, -1, 3)],
    [(D(x).scaleb(-6), D(y).scaleb(-6)) for x, y in G43], hi=4)
add("huge", move(box(-1, 4, -1, 3), k=10 ** 7), move(G43, k=10 ** 7), hi=4)
add("mega-offset", box(10 ** 6 - 1, 10 ** 6 + 4, -10 ** 6 - 1, -10 ** 6 + 3), move(G43, 10 ** 6, -10 ** 6), hi=4)
add("aniso", box(-1000, 4000, -1, 3), [(1000 * x, y) for x, y in G43], hi=4)
add("tenths", box(-0.1, 0.4, -0.1, 0.3), [(0.1 * x, 0.1 * y) for x, y in G43], hi=5, mode="coarse", quick_hi=4)
add("sevenths", box(-0.2, 1, -0.1, 1), [(x / 7, y / 7) for x, y in G43], hi=5, mode="coarse", quick_hi=4)
add("thirds-circle", box(-3, 3, -3, 3), [(x / 3, y / 3) for x, y in C5], hi=5, mode="coarse", quick_hi=4)
add("thirds-decimal", box(-3, 3, -3, 3), [(D(x) / 3, D(y) / 3) for x, y in C5], hi=5, mode="coarse", quick_hi=4)
for _e in (3, 6, 9):
    _d = [D(((i * i * 7 + i * 3) % 11) - 5).scaleb(-_e) for i in range(24)]
    add(f"nearly-circle-{_e}", box(-7, 7, -7, 7),
        [(D(x) + _d[2 * i], D(y) + _d[2 * i + 1]) for i, (x, y) in enumerate(C5)], hi=5, mode="coarse", quick_hi=4)
    add(f"nearly-grid-{_e}", box(-1, 4, -1, 3),
        [(D(x) + _d[2 * i], D(y) + _d[2 * i + 1]) for i, (x, y) in enumerate(G43)], hi=5, mode="coarse", quick_hi=4)
# -- far from the origin, very small and very large --------------------------


def exactly(pts, dx=0, dy=0, e=0):
    """Moved and scaled by a power of ten, as decimals with all their digits."""
    return [((D(str(x)) + D(dx)).scaleb(e), (D(str(y)) + D(dy)).scaleb(e)) for x, y in pts]


add("giga", move(box(-0.5, 3.5, -0.5, 3.5), 10 ** 9, -3 * 10 ** 9),
    [(float(D(10 ** 9) + D(str(x))), float(D(-3 * 10 ** 9) + D(str(y)))) for x, y in IRR], hi=4, quick_hi=3)
add("tera-grid", exactly(TRI_UP, 10 ** 13, 2 * 10 ** 13), exactly(G44, 10 ** 13, 2 * 10 ** 13), hi=4, quick_hi=3)
add("far-irr", exactly(TRI_UP, 3 * 10 ** 8, -5 * 10 ** 8), exactly([(D(str(x)) + D(i * i % 7).scaleb(-9), D(str(y)) + D(i * i % 5).scaleb(-10)) for i, (x, y) in enumerate(IRR)], 3 * 10 ** 8, -5 * 10 ** 8), hi=4, quick_hi=3)
add("deep-circle", exactly(box(-6, 7, -6, 7), -10 ** 15, 10 ** 15), exactly(C5, -10 ** 15, 10 ** 15), hi=5, quick_hi=3)
add("deep-grid", exactly(box(-1, 4, -1, 3), 3 * 10 ** 16, -5 * 10 ** 16), exactly(G43, 3 * 10 ** 16, -5 * 10 ** 16), hi=4, quick_hi=3)
add("deep-irr", exactly(TRI_UP, 3 * 10 ** 16, -5 * 10 ** 16), exactly(IRR, 3 * 10 ** 16, -5 * 10 ** 16), hi=4, quick_hi=2)
add("pico-irr", exactly(box(-0.5, 3.5, -0.5, 3.5), e=-12), exactly(IRR, e=-12), hi=4, quick_hi=3)
add("atto-grid", exactly(box(-1, 4, -1, 3), e=-20), exactly(G43, e=-20), hi=4, quick_hi=3)
add("pico-circle", exactly(box(-7, 7, -7, 7), e=-9), exactly(C5, e=-9), hi=5, quick_hi=3)
add("vast-irr", exactly(PENTA, e=24), exactly([(1, 1), (2, 1.5), (0.3, 0.7), (3, 2.2), (1.9, -0.4), (0.1, 2.9), (2.7, 3.1)], e=24))
# sites that are almost in the same place, or almost level, next to others
_T = D("1e-9")
add("pairs", box(-1, 4, -1, 4),
    [(1, 1), (1 + _T, 1), (1, 1 + _T), (2, 2), (2 - _T, 2 + 3 * _T), (3, 1 + _T), (0, 3), (_T, 3 + 2 * _T), (3, 3)],
    hi=5, quick_hi=4, mode="coarse")
add("pairs-tight", box(0, 3, 0, 3),
    [(0, 0), (_T, 0), (3, 3), (3, 3 - _T), (1, _T), (2, 0), (1 + _T, 3), (1, 2), (1 + 2 * _T, 2 + _T)],
    hi=5, quick_hi=4, mode="coarse")
# sites far outside of a small polygon, whose cells reach or do not reach into it
RING = [(0.5, 12), (8, 8), (12, 0.75), (7, -7.5), (0.25, -11), (-9, -8), (-10, 0.5), (-6.5, 8), (0.5, 0.5), (3, 4), (-1, 2.5),
        (2.5, -1)]
add("outside-ring", box(0, 1, 0, 1), RING, hi=4, quick_hi=3)
add("outside-ring-tri", [(0, 0), (2, 0.5), (0.5, 1.75)], RING, hi=4, quick_hi=3)
# below a polygon that ends at the x-axis, or around it
add("outside-ring-zero", box(-1, 0, -1, 0), [(-y, -x) for x, y in RING], hi=4, quick_hi=3)
add("distant-below", box(-700, 600, -1300, 0), move(IRR, 3, -5000), hi=4, quick_hi=2)
add("outside-chain", box(0, 2, 0, 1), [(round(1 + 5 * math.cos(k * 1.1) + k / 8, 2), round(5 * math.sin(k * 1.1) - k / 16, 2)) for k in range(24)],
    chains=[list(range(24)), list(range(23, -1, -1))], window=8)
# a polygon a long way from the sites, in every direction
for _k, (_x, _y) in dict(right=(5000, 1), up=(2, 5000), left=(-5000, -300), down=(700, -5000), corner=(3000, 4000)).items():
    add("distant-" + _k, box(_x - 700, _x + 700, _y - 650, _y + 750), IRR, hi=4, quick_hi=3)
# polygons with many corners
add("corners36", circle(65), noise(24, 41, -40, 40, 0), chains=[list(range(24)), interleave(range(24), 7)], window=6)
add("corners41", [(D(k), D(k * k) / 16) for k in range(-20, 21)], [(D(x), D(y) + 14) for x, y in noise(24, 43, -8, 8, 1)],
    chains=[list(range(24)), interleave(range(24), 5)], window=6)
add("corners20-closed", circle(25), circle(25) + [(0, 0), (3, 4), (-9, 2)], chains=[interleave(range(23), 5), interleave(range(23), 9)], window=6)
# -- longer sequences ------------------------------------------------------
_G66 = grid(6, 6)
add("grid66", box(-1, 6, -1, 6), _G66, chains=[list(range(36)), interleave(_G66, 5), interleave(_G66, 7)[::-1]], window=9)
add("giga-noise", move(box(0, 10, 0, 10), -10 ** 9, 2 * 10 ** 9), [(float(D(-10 ** 9) + D(str(x))), float(D(2 * 10 ** 9) + D(str(y))))
                                                                for x, y in noise(32, 3, 0, 10, 2)],
    chains=[list(range(32))], window=8)
_G88 = grid(8, 8)
add("grid88", box(0, 7, 0, 7), _G88, chains=[interleave(_G88, 11)])
_C65 = circle(65)
add("circle65", box(-70, 70, -70, 70), _C65, chains=[list(range(len(_C65))), interleave(_C65, 5)], window=9)
_HX = [(x + 0.5 * (y % 2), y * 0.875) for y in range(6) for x in range(6)]
add("hexgrid", box(-1, 6.5, -1, 5.5), _HX, chains=[list(range(36)), interleave(_HX, 13)], window=9)
for _s, _dg in ((1, 1), (2, 2), (3, 3)):
    _p = noise(48, _s, 0, 10, _dg)
    add(f"noise{_s}-box", box(0, 10, 0, 10), _p, chains=[list(range(48)), list(range(47, -1, -1))], window=9)
_p = [q for q in noise(120, 5, 0, 10, 2) if sum(
    (bx - ax) * (q[1] - ay) - (by - ay) * (q[0] - ax) < 0
    for (ax, ay), (bx, by) in zip(OCTAGON, OCTAGON[1:] + OCTAGON[:1])) == 8][:48]
add("noise-octagon", OCTAGON, _p, chains=[list(range(len(_p))), interleave(_p, 7 if len(_p) % 7 else 5)], window=9)
_p = [(D(k * k % 61) / 4, D(k)) for k in range(40)]
add("zigzag", box(-1, 16, -1, 41), _p, chains=[list(range(40)), interleave(_p, 9)], window=9)
_p = [(D(k), D(k * k % 61) / 4) for k in range(40)]
add("zagzig", box(-1, 41, -1, 16), _p, chains=[list(range(40)), interleave(_p, 9)], window=9)
_p = [(round(k * math.cos(k) / 4, 3), round(k * math.sin(k) / 4, 3)) for k in range(1, 49)]
add("spiral", box(-13, 13, -13, 13), _p, chains=[list(range(48)), interleave(_p, 5)], window=9)
_p = [(x / 10, (x * x) / 100) for x in range(-20, 21)]
add("parabola", box(-3, 3, -1, 5), _p, chains=[interleave(_p, 4), interleave(_p, 9)], window=6, mode="coarse")
# many sites
add("big-noise", box(0, 100, 0, 100), noise(300, 77, 0, 100, 2), chains=[list(range(300))], sizes=(100, 170, 300))
add("big-grid", box(-1, 17, -1, 17), grid(17, 17), chains=[interleave(grid(17, 17), 12)], sizes=(120, 289))
add("big-row", box(-1, 200, -3, 9), [(k, (k * k % 7) // 6) for k in range(200)], chains=[interleave(range(200), 7)], sizes=(90, 200))
# cells with very many neighbours, a polygon with very many corners, and very many sites above each other
_p = [(0.25, 0.5)] + [(round(100 * math.cos(k * 2 * math.pi / 260), 2), round(100 * math.sin(k * 2 * math.pi / 260), 2)) for k in range(260)]
add("wheel", box(-300, 250, -200, 400), _p, chains=[[0] + [1 + (7 * k) % 260 for k in range(260)]], sizes=(60, 131, 261))
add("crowd", box(0, 1000, 0, 1000), noise(1200, 91, 0, 1000, 1), chains=[list(range(1200))], sizes=(1200,))
add("corners108", circle(1105), noise(12, 53, -700, 700, 0), chains=[list(range(12))], sizes=(1, 2, 5, 12))
add("big-column", box(-3, 9, -1, 160), [((k * k % 7) // 6, k) for k in range(160)], chains=[interleave(range(160), 7)], sizes=(90, 160))

# -- more, for the thorough tier ------------------------------------------
add("g44-five", box(-1, 4, -1, 4), G44, lo=5, hi=6)
add("g44-five-tight", box(0, 3, 0, 3), G44, lo=5, hi=6)
add("g44-five-tri", TRI_UP, G44, lo=5, hi=5)
add("g44-five-dodeca", DODECA, G44, lo=5, hi=5)
add("g44-five-quad", QUAD, G44, lo=5, hi=5)
add("g55-four", box(-1, 5, -1, 5), G55, lo=4, hi=4)
add("g66-three", box(-0.5, 5.5, -0.5, 5.5), _G66, hi=3)
add("rings-six", box(-11, 11, -11, 11), RINGS, lo=6, hi=7)
add("cross-six", box(-4, 4, -4, 4), CROSS, lo=6, hi=13)
add("irr14", box(-0.5, 3.5, -0.5, 3.5), noise(14, 19, 0, 3, 2))
add("irr15-tri", TRI_UP, noise(15, 23, 0, 3, 1))
add("circle25", box(-30, 30, -30, 30), circle(25), hi=5)
add("thirds-all", box(-3, 3, -3, 3), [(D(x) / 3, D(y) / 3) for x, y in C5], mode="coarse")
for _s in range(31, 39):
    _p = noise(90, _s, 0, 20, 1 + _s % 3)
    add(f"noise{_s}", box(-1, 21, -2, 22), _p, chains=[list(range(90))], window=9)
    _p = noise(64, _s, 0, 8, 0)
    add(f"lattice{_s}", box(-1, 9, -1, 9), _p, chains=[list(range(64))], window=9)

DEEP = [n for n in list(SPACES)[list(SPACES).index("g44-five"):]]
# So far away that a formula that squares coordinates first no longer has the digits: only C09 asks for these
REMOTE = ["deep-circle", "deep-grid", "deep-irr"]
BASE = [n for n in SPACES if n not in DEEP and n not in REMOTE]
STRICT = [n for n in BASE if SPACES[n].mode == "strict"]
CHAINS = [n for n in BASE if SPACES[n].chains]
SMALL = ["g44-box", "g44-tight", "g44-top0", "g44-triup", "g44-kite", "g33-rttr", "g33-all", "readme-all",
         "c5-tight", "hline-all", "irr-all"]


def spaces_for(tier, quick=None, modes=("strict", "coarse")):
    names = list(quick or BASE)
    if tier == "thorough":
        names = BASE + DEEP
    return [SPACES[n] for n in names if SPACES[n].mode in modes]


def describe(tier, quick=None, modes=("strict", "coarse")):
    parts = []
    for s in spaces_for(tier, quick, modes):
        if s.chains:
            parts.append(f"{s.name}: {'all prefixes' if not s.sizes else 'the prefixes of ' + ', '.join(map(str, s.sizes)) + ' sites'} of {len(s.chains)} sequences of {len(s.pool)} sites"
                         + (f", all windows of <= {s.window}" if s.window else ""))
        else:
            parts.append(f"{s.name}: all subsets of {len(s.pool)} sites of size {s.lo}..{s.quick_hi if tier == 'quick' else s.hi}")
    return "; ".join(parts)
