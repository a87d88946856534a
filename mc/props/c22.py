"""C22: a circle can bound a diagram: its point test is exact, and the edges end where they meet the circle."""
import itertools
import math
import warnings
from decimal import Decimal as D, localcontext
from fractions import Fraction as F

from .. import core, impl, ref
from foronoi.graph import Coordinate, Point, Vertex

CENTERS = [(0, 0), (1.5, 1.5), (-3, 2), (0.1, -0.7), (1000, -2000)]
RADII = [0.5, 1, 2.5, 3, 5, 0.3]
# very small and very large ones, and far away
SCALES = [(0, 0, 1e-5), (0, 0, D("1e-9")), (0.1, -0.7, D("1e-12")), (0, 0, D("3e-20")), (1e-7, 1e-7, 2.5e-7), (0, 0, 10 ** 9), (5e20, -10 ** 20, 10 ** 20),
          (10 ** 9, -3 * 10 ** 9, 2.5), (D("1234567890.123456789"), D("-0.000000001"), D("1.5"))]
SITES = {"quick": (3, 3, 4), "thorough": (4, 4, 5)}
ROUND = [(1.5, 1.5, 4), (1.25, 1.5, 1.25), (1, 1, 2.5), (0, 0, 1), (1, 1, 0.5), (0, 3, 10), (1, 1, 1), (2, 1, 0.25), (0.7, 1.9, 3.3), (1.5, 1.5, 200), (-4, 1, 3.5),
         (0, 0, D("0.5000001")), (1, 1, D("0.50000000000000001")), (0.5, 0.5, D("1.00000000001"))]
VIEWS = {"plain": (1, 0, 0), "moved": (D("0.1"), D("-7.3"), D("0.2")), "tiny": (D("1e-9"), 0, 0), "huge": (10 ** 7, 3 * 10 ** 7, -10 ** 8), "remote": (1, 5000, -9000),
         "turned": (-1, 0, 0)}
LONG = {
    "row": [(k, 0) for k in range(30)],
    "column": [(0, k) for k in range(30)],
    "slope": [(k, D(k) / 100) for k in range(30)],
    "leaning": [(k, D(k * k % 11).scaleb(-7)) for k in range(12)],
    "steep": [(D(k * k % 7).scaleb(-10), k) for k in range(12)],
    "ring": [(D(round(1000 * math.cos(k * math.pi / 15))) / 100, D(round(1000 * math.sin(k * math.pi / 15))) / 100) for k in range(30)] + [(0, 0)],
    "noise": [(k * 37 % 101, k * 61 % 97) for k in range(60)],
    "grid": [(x, y) for x in range(7) for y in range(7)],
}
AROUND = [(0, 0, 3), (4, 4, 2), (3, 3, 4.25), (14, 0, 9), (0, 15, 15), (50, 48, 40), (50, 48, 90), (10, 10, 1000), (-30, 10, 29), (6, 6, D("0.001"))]
BOUNDS = {t: f"all circles with a center out of {CENTERS} and a radius out of {RADII}, and {len(SCALES)} that are far, very small or very large, every point of a grid of a quarter of the radius around them and "
             f"next to the circle; all sets of <= {k} sites of a {x} x {y} grid with {len(ROUND)} circles around, through and beside them, those of <= 3 also in {len(VIEWS)} sizes and places, with and without the removal of "
             f"edges of length zero, and in a circle that was used before; prefixes of {len(LONG)} sequences of up to 60 sites with {len(AROUND)} circles" for t, (x, y, k) in SITES.items()}
ASSUMPTIONS = ["points on the circle are not specified", "how the circle itself is divided into edges is not specified"]
KINDS = [Coordinate, Point, Vertex]


def circle_of(*args):
    from foronoi.contrib import BoundingCircle
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return BoundingCircle(*args)


def jobs(tier):
    for c, r in itertools.product(CENTERS, RADII):
        yield ("inside", c[0], c[1], r)
        yield ("figure", c[0], c[1], r)
    nx, ny, most = SITES[tier]
    for circle in ROUND:
        for first in range(nx * ny):
            yield ("diagram", circle, nx, ny, most, first)
    for name in LONG:
        for circle in AROUND:
            yield ("long", circle, name)
    for k, style in itertools.product(range(len(PICTURED)), STYLES):
        yield ("pictures", k, style)
    for cx, cy, r in SCALES:
        yield ("inside", cx, cy, r)


def check_inside(cx, cy, r, out=None):
    ex, ey, er = ref.exact(cx), ref.exact(cy), ref.exact(r)
    circle, complaint = core.attempt(circle_of, cx, cy, r)
    if complaint:
        return [complaint]
    bad = []
    pts = [(D(str(cx)) + D(kx) * D(str(r)) / 4, D(str(cy)) + D(ky) * D(str(r)) / 4) for kx in range(-6, 7) for ky in range(-6, 7)]
    for a, b in ((3, 4), (4, 3), (0, 5), (5, 0)):
        for sa, sb, f in itertools.product((1, -1), (1, -1), (D("0.999999"), D("1.000001"))):
            pts.append((D(str(cx)) + sa * a * f * D(str(r)) / 5, D(str(cy)) + sb * b * f * D(str(r)) / 5))
    for k, (x, y) in enumerate(pts):
        d = (ref.exact(x) - ex) ** 2 + (ref.exact(y) - ey) ** 2 - er ** 2
        if d == 0:
            continue
        got, complaint = core.attempt(circle.inside, KINDS[k % 3](x, y))
        if out is not None:
            out.state()
            out.transition()
            out.outcome((cx, cy, r, d < 0))
        if complaint or bool(got) != (d < 0):
            bad.append(f"({x}, {y}) lies {'inside' if d < 0 else 'outside'} of the circle, the test says {got!r} {complaint or ''}")
    return bad


def check_figure(cx, cy, r):
    from .. import figures

    def run():
        circle = circle_of(cx, cy, r)
        v = impl.Voronoi(circle)
        vis = figures.Visualizer(v, canvas_offset=1)
        vis.plot_polygon()
        got = figures.shown(vis.get_canvas())
        figures.close_all()
        bad = []
        if len(got["circles"]) != 1:
            return [f"{len(got['circles'])} circles are shown instead of one"]
        (x, y), radius = got["circles"][0]
        if not abs(x - cx) + abs(y - cy) <= 1e-9 * (1 + abs(cx) + abs(cy)) or radius not in (r, 2 * r) and not abs(radius - r) <= 1e-9:
            bad.append(f"a circle around {(x, y)} with radius {radius} is shown instead of one around {(cx, cy)} with radius {r}")
        x0, x1, y0, y1 = got["limits"]
        if not (x0 <= cx - r and x1 >= cx + r and y0 <= cy - r and y1 >= cy + r):
            bad.append(f"the figure shows {got['limits']}, not the whole circle around {(cx, cy)} with radius {r}")
        return bad
    bad, complaint = core.attempt(run, seconds=20)
    return [complaint] if complaint else bad


def check_pictures(circle, sites, opts, out=None):
    """The figure at every message of a run."""
    from .. import figures
    bad = []

    class Artist(impl.foronoi.observers.observer.Observer):
        def update(self, subject, message, **kwargs):
            if message.name == "DEBUG" or bad:
                return
            vis = figures.Visualizer(subject, canvas_offset=1).plot_all(**opts)
            found = figures.compare(subject, figures.shown(vis.get_canvas()), figures.expected(subject, 1, opts))
            figures.close_all()
            bad.extend(f"after {message}: {b}" for b in found)
            if out is not None:
                out.transition()

    def run():
        v = impl.Voronoi(circle_of(*circle))
        v.attach_observer(Artist())
        v.create_diagram(sites)

    _, complaint = core.attempt(run, seconds=60)
    return [complaint] if complaint else bad


PICTURED = [(((1.5, 1.5, 4)), ((0, 0), (2, 1), (1, 3))), ((1, 1, 0.5), ((0, 2), (2, 0), (1, 1))), ((0, 0, 1), ((0, 0), (2, 3))), ((1, 1, 0.1), ((0, 2), (2, 0), (2, 2))),
            ((-3, 2, 2.5), ((-4, 2), (-2, 2.5), (-3, 0), (-1, 4))), ((0.1, -0.7, 5), ((1, 1),)), ((10, 10, 30), tuple(LONG["noise"][:12]))]
STYLES = {"plain": dict(polygon=True), "all": dict(polygon=True, events=True, beach_line=True, sweep_line=True, arcs=True, site_labels=True, edge_labels=True,
                                                    outgoing_edges=True, border_to_site=True, triangles=True)}


def wanted(circle, sites):
    """The edges of the Voronoi diagram that are cut off by the circle, {sites: (end, end)}."""
    cx, cy, r = map(ref.exact, circle)
    pts = [tuple(map(ref.exact, p)) for p in sites]
    # a square that is much larger than everything; an edge through it is as good as an edge without an end
    size = max([r] + [max(abs(x - cx), abs(y - cy)) for x, y in pts])
    far = [(cx + a * size * 10 ** 6, cy + b * size * 10 ** 6) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    m = ref.Model([tuple(map(_decimal, p)) for p in far], sites)
    want = {}
    with localcontext() as context:
        context.prec = 60
        for key, ends in m.edges().items():
            p, q = [(F(x, w * m.den), F(y, w * m.den)) for x, y, w in ends]
            dx, dy, fx, fy = q[0] - p[0], q[1] - p[1], p[0] - cx, p[1] - cy
            a, b, c = dx * dx + dy * dy, 2 * (fx * dx + fy * dy), fx * fx + fy * fy - r * r
            disc = b * b - 4 * a * c
            if disc <= 0:
                continue
            a, b, root = _decimal(a), _decimal(b), _decimal(disc).sqrt()
            t0, t1 = max((-b - root) / (2 * a), D(0)), min((-b + root) / (2 * a), D(1))
            if t1 > t0:
                want[key] = [(_decimal(p[0]) + t * _decimal(dx), _decimal(p[1]) + t * _decimal(dy)) for t in (t0, t1)]
    return want


def _decimal(f):
    return D(f.numerator) / D(f.denominator)


def check_diagram(circle, sites, clean=True, before=None):
    """With `before`, the circle has been used for other sites."""
    cx, cy, r = circle
    def run():
        poly = circle_of(cx, cy, r)
        if before:
            impl.Voronoi(poly).create_diagram(before)
        v = impl.Voronoi(poly, remove_zero_length_edges=clean)
        v.create_diagram(sites)
        return v

    v, complaint = core.attempt(run)
    if complaint:
        return [f"sites {_show(sites)[:8]} in the circle {tuple(map(float, circle))}: {complaint}"]
    want = wanted(circle, sites)
    r = D(str(r))
    index = {id(s): i for i, s in enumerate(v.sites)}
    listed = {id(p) for p in v.vertices}
    tiny, got, bad = r * D("1e-9"), {}, []
    for e in v.edges:
        i, j = index.get(id(e.incident_point)), index.get(id(e.twin.incident_point))
        if i is None or j is None:
            continue
        ends = [(e.origin.xd, e.origin.yd), (e.target.xd, e.target.yd)]
        if dist(*ends) > tiny:
            if (min(i, j), max(i, j)) in got:
                bad.append(f"the edge between {i} and {j} is listed twice")
            got[(min(i, j), max(i, j))] = ends
        if not (id(e.origin) in listed and id(e.target) in listed):
            bad.append(f"an end of the edge between {i} and {j} is not among the vertices")
    sided = side_checked(v, got, index)
    for key in sorted(set(got) | set(want)):
        g, w = got.get(key), want.get(key)
        if g is None:
            if dist(*w) > 3 * tiny:
                bad.append(f"there is no edge between sites {key}, it should be {_show(w)}")
        elif w is None:
            bad.append(f"there is an edge {_show(g)} between sites {key}")
        elif min(max(dist(g[0], w[0]), dist(g[1], w[1])), max(dist(g[0], w[1]), dist(g[1], w[0]))) > tiny:
            bad.append(f"the edge between sites {key} is {_show(g)}, should be {_show(w)}")
        elif key not in sided:
            bad.append(f"the sites of the edge between {key} are on the wrong sides")
    return bad + (loops(v, {key for key, w in want.items() if dist(*w) > 3 * tiny}, index) if not near(v, circle) else [])


def side_checked(v, got, index):
    """The edges with their own site on the right."""
    good = set()
    for e in v.edges:
        i, j = index.get(id(e.incident_point)), index.get(id(e.twin.incident_point))
        if i is not None and j is not None:
            a, b, s = e.origin, e.target, e.incident_point
            if (b.xd - a.xd) * (s.yd - a.yd) - (b.yd - a.yd) * (s.xd - a.xd) < 0:
                good.add((min(i, j), max(i, j)))
    return good


def near(v, circle):
    """Different edges meet the circle in the same place."""
    cx, cy, r = (D(str(c)) for c in circle)
    spots = [(e.origin.xd, e.origin.yd) for edge in v.edges for e in (edge, edge.twin)
             if e.incident_point is not None and e.twin.incident_point is not None and abs(dist((e.origin.xd, e.origin.yd), (cx, cy)) - r) < r * D("1e-9")]
    return any(dist(p, q) < r * D("1e-9") for p, q in itertools.combinations(spots, 2))


def loops(v, want, index):
    """Around each site, the edges of its cell are linked to a closed loop."""
    bad = []
    for i, site in enumerate(v.sites):
        mine = {key for key in want if i in key}
        if site.first_edge is None:
            if mine:
                bad.append(f"site {i} has no edges, it should have {sorted(mine)}")
            continue
        found, e = set(), site.first_edge
        for _ in range(4 * len(v.edges) + 4):
            if e.incident_point is not site:
                bad.append(f"a border of site {i} is one of another site")
                break
            j = index.get(id(e.twin.incident_point))
            if j is not None:
                found.add((min(i, j), max(i, j)))
            after = e.next
            if after is None or after.prev is not e or after.origin is not e.twin.origin:
                bad.append(f"the borders of site {i} are not linked: {e} is followed by {after}")
                break
            e = after
            if e is site.first_edge:
                break
        else:
            bad.append(f"the borders of site {i} are no closed loop")
        if mine - found:
            bad.append(f"the borders of site {i} lack {sorted(mine - found)}")
    return bad


def dist(p, q):
    return ((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2).sqrt()


def _show(ends):
    return [tuple(map(float, p)) for p in ends]


def work(job, out):
    if job[0] == "inside":
        bad = check_inside(*job[1:], out)
        out.trace()
        if bad:
            out.violation(dict(kind="inside", circle=list(map(str, job[1:]))), bad, 1)
        out.sample(dict(circle=list(map(str, job[1:]))))
    elif job[0] == "figure":
        bad = check_figure(*job[1:])
        out.state()
        out.trace()
        if bad:
            out.violation(dict(kind="figure", circle=list(job[1:])), bad, 2)
    elif job[0] == "pictures":
        _, k, style = job
        bad = check_pictures(*PICTURED[k], STYLES[style], out)
        out.state()
        out.trace()
        if bad:
            out.violation(dict(kind="pictures", which=k, style=style), bad, 2)
    elif job[0] == "long":
        _, circle, name = job
        sites = LONG[name]
        for n in sorted({1, 2, 3, 5, 8, 13, 21, len(sites)}):
            for view in ("plain", "moved", "turned"):
                _diagram(out, view, circle, sites[:n])
        out.sample(dict(circle=list(map(str, circle)), sites=name))
    else:
        _, circle, nx, ny, most, first = job
        pool = [(x, y) for x in range(nx) for y in range(ny)]
        for n in range(most):
            for rest in itertools.combinations(pool[first + 1:], n):
                sites = (pool[first],) + rest
                _diagram(out, "plain", circle, sites)
                if n < 3:
                    for view in VIEWS:
                        _diagram(out, view, circle, sites, clean=False)
                        if view != "plain":
                            _diagram(out, view, circle, sites)
                    _diagram(out, "plain", circle, sites, before=((2, 0), (0, 1), (1, 3), (0, 4)))
                if out.full:
                    return


def _diagram(out, view, circle, sites, clean=True, before=None):
    k, dx, dy = VIEWS[view]
    seen = [(D(str(x)) * k + dx, D(str(y)) * k + dy) for x, y in sites]
    ring = (D(str(circle[0])) * k + dx, D(str(circle[1])) * k + dy, D(str(circle[2])) * abs(k))
    bad = check_diagram(ring, seen, clean, before)
    out.state()
    out.trace()
    out.transition()
    out.outcome((len(sites), len(wanted(circle, sites)) if view == "plain" and clean and not before else 0))
    if bad:
        out.violation(dict(kind="diagram", circle=list(map(str, ring)), sites=[list(map(str, p)) for p in seen], clean=clean,
                           before=[list(p) for p in before or ()]), bad, 3 + len(sites))


def replay(case):
    if case["kind"] == "inside":
        return check_inside(*map(D, case["circle"]))
    if case["kind"] == "figure":
        return check_figure(*case["circle"])
    if case["kind"] == "pictures":
        return check_pictures(*PICTURED[case["which"]], STYLES[case["style"]])
    return check_diagram(tuple(map(D, case["circle"])), [tuple(map(D, p)) for p in case["sites"]], case["clean"], [tuple(p) for p in case["before"]])
