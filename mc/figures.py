"""What a figure should show, computed from the state of the diagram, and what a figure does show."""
import math
from decimal import Decimal

import matplotlib.pyplot as plt
from matplotlib import colors as mcolors
from matplotlib import patches

from . import impl, steps
from foronoi.visualization.visualizer import Colors, Presets, Visualizer  # noqa: F401

DEFAULTS = dict(polygon=False, edges=True, vertices=True, sites=True, outgoing_edges=False, border_to_site=False, scale=1,
                edge_labels=False, site_labels=False, triangles=False, arcs=False, sweep_line=False, events=False,
                arc_labels=False, beach_line=False)
FLAGS = [k for k in DEFAULTS if k != "scale"]
CONSTRUCTION = dict(polygon=True, events=True, beach_line=True, sweep_line=True)
CLIPPING = dict(polygon=True)
FINAL = {}
NOTHING = {k: False for k in FLAGS}


def near(a, b, tol):
    return abs(a - b) <= tol or (math.isinf(a) and a == b)


# -- what is there -----------------------------------------------------------------

def rgb(c):
    return tuple(round(v, 6) for v in mcolors.to_rgb(c))


def shown(fig):
    ax = fig.axes[0]
    out = dict(lines=[], curves=[], points=[], texts=[], arrows=[], circles=[], polygons=[])
    for line in ax.lines:
        xs, ys = [float(v) for v in line.get_xdata()], [float(v) for v in line.get_ydata()]
        style = ("--" if line.get_linestyle() == "--" else "-", rgb(line.get_color()))
        out["lines" if len(xs) == 2 else "curves"].append((style, xs, ys))
    for c in ax.collections:
        face = c.get_facecolor()
        for x, y in c.get_offsets():
            out["points"].append((rgb(face[0]) if len(face) else None, float(x), float(y)))
    for t in ax.texts:
        if getattr(t, "arrow_patch", None) is not None:
            out["arrows"].append(([float(v) for v in t.xyann], [float(v) for v in t.xy]))
        else:
            x, y = t.xy if hasattr(t, "xy") else t.get_position()
            out["texts"].append((t.get_text(), float(x), float(y)))
    for p in ax.patches:
        if isinstance(p, patches.Circle):
            out["circles"].append((tuple(float(v) for v in p.center), float(p.width) / 2))
        elif isinstance(p, patches.Polygon):
            pts = [(float(x), float(y)) for x, y in p.get_xy()]
            if len(pts) > 1 and pts[0] == pts[-1]:
                pts.pop()
            out["polygons"].append(sorted(pts))
    out["limits"] = tuple(map(float, ax.get_xlim() + ax.get_ylim()))
    out["size"] = tuple(map(float, fig.get_size_inches()))
    out["title"] = ax.get_title()
    return out


# -- what should be there ------------------------------------------------------------

def swept(v):
    """The sites that were handled so far."""
    return [s for s in getattr(v, "all_sites", v.sites) if s.name is not None]


def spot(v, origin, l, top):
    """Where an end of an edge is, None if it is nowhere; `origin` is a vertex or a breakpoint."""
    if hasattr(origin, "breakpoint"):
        if l is None:
            return None
        i, j = (steps.xy(p) for p in origin.breakpoint)
        l = Decimal(l)
        with steps.precise():
            x = steps.breakpoint_x(i, j, l)
            if i[1] == j[1] and j[0] < i[0]:
                return float(x), float(top)
            p = j if i[1] == l else i
            if p[1] == l:
                return float(x), math.inf
            return float(x), float(steps.parabola(p, l, x))
    if origin is None or origin.xd is None:
        return None
    return float(origin.xd), float(origin.yd)


def expected(v, offset, opts):
    """The figure for the present state of v."""
    o = {**DEFAULTS, **opts}
    poly = v.bounding_poly
    ring = hasattr(poly, "radius")
    corners = ([(float(x), float(y)) for x in (poly.min_x, poly.max_x) for y in (poly.min_y, poly.max_y)] if ring else
               [(float(x), float(y)) for x, y in poly.get_coordinates()])
    x0, x1 = min(c[0] for c in corners) - offset, max(c[0] for c in corners) + offset
    y0, y1 = min(c[1] for c in corners) - offset, max(c[1] for c in corners) + offset
    l = v.sweep_line
    want = dict(lines=[], points=[], texts=[], arrows=[], circles=[], polygons=[], limits=(x0, x1, y0, y1))
    if o["sweep_line"]:
        want["lines"].append((("-", rgb(Colors.SWEEP_LINE)), [x0, x1], [float(l)] * 2))
    if o["polygon"] and ring:
        want["circles"].append(((float(poly.xd), float(poly.yd)), float(poly.radius)))
    elif o["polygon"]:
        want["polygons"].append(sorted(corners))
    ends = {}

    def both(edge):
        if id(edge) not in ends:
            ends[id(edge)] = (spot(v, edge.origin, l, y1), spot(v, edge.twin.origin, l, y1))
        return ends[id(edge)]

    if o["edges"]:
        for e in v.edges:
            for h in (e, e.twin):
                a, b = both(h)
                if a and b:
                    want["lines"].append((("-", rgb(Colors.EDGE)), [a[0], b[0]], [a[1], b[1]]))
            a, b = both(e)
            if o["edge_labels"] and a and b:
                name = f"P{e.incident_point.name}" if e.incident_point is not None else "None"
                other = e.twin.incident_point
                want["texts"].append((f"{name}/{'-' if other is None else f'P{other.name}'}", (a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
    if o["border_to_site"]:
        for e in v.edges:
            for h in (e, e.twin):
                a, b = both(h)
                s = h.incident_point
                if a and b and s is not None:
                    color = Colors.FIRST_EDGE if s.first_edge is h else Colors.INCIDENT_POINT_POINTER
                    want["lines"].append((("--", rgb(color)), [(a[0] + b[0]) / 2, s.x], [(a[1] + b[1]) / 2, s.y]))
    if o["vertices"]:
        want["points"] += [(rgb(Colors.VERTICES), p.x, p.y) for p in v.vertices]
    if o["sites"]:
        for s in v.sites:
            want["points"].append((rgb(Colors.CELL_POINTS), s.x, s.y))
            if o["site_labels"]:
                want["texts"].append((f"P{'' if s.name is None else s.name}", s.x, s.y))
    if o["outgoing_edges"]:
        for p in v.vertices:
            for h in p.connected_edges:
                a, b = spot(v, h.origin, None, y1), spot(v, h.twin.origin, None, y1)
                if a and b and a != b:
                    length = math.hypot(b[0] - a[0], b[1] - a[1])
                    k = float(o["scale"]) / length
                    want["arrows"].append(([a[0], a[1]], [a[0] + (b[0] - a[0]) * k, a[1] + (b[1] - a[1]) * k]))
    event = v.event
    if o["events"] and event is not None and event.circle_event:
        a, b, c = event.point_triple
        with steps.precise():
            (ax, ay), (bx, by), (cx, cy) = steps.xy(a), steps.xy(b), steps.xy(c)
            ux, uy, wx, wy = bx - ax, by - ay, cx - ax, cy - ay
            d = 2 * (ux * wy - uy * wx)
            p, q = ux * ux + uy * uy, wx * wx + wy * wy
            x, y = (wy * p - uy * q) / d, (ux * q - wx * p) / d
            want["circles"].append(((float(x + ax), float(y + ay)), float((x * x + y * y).sqrt())))
        want["points"] += [(rgb(Colors.VALID_CIRCLE), s.x, s.y) for s in (a, b, c)]
        if o["triangles"]:
            want["polygons"].append(sorted(s.xy for s in (a, b, c)))
    want["beach"] = bool(o["beach_line"])
    want["arcs"] = bool(o["beach_line"] and o["arcs"])
    want["arc_labels"] = bool(o["beach_line"] and o["arc_labels"])
    want["extent"] = max(x1 - x0, y1 - y0)
    return want


def _match(kind, got, want, same):
    """Multisets of things that are the same up to rounding."""
    left = list(got)
    missing = []
    for w in want:
        for k, g in enumerate(left):
            if same(g, w):
                left.pop(k)
                break
        else:
            missing.append(w)
    bad = []
    if missing:
        bad.append(f"{len(missing)} {kind} missing: {str(missing[0])[:160]}")
    if left:
        bad.append(f"{len(left)} {kind} too many: {str(left[0])[:160]}")
    return bad


def compare(v, got, want):
    eps = 1e-7 * want["extent"]

    def close(a, b):
        return near(a, b, eps + 1e-9 * abs(b) if math.isfinite(b) else 0)

    def all_close(xs, ys):
        return len(xs) == len(ys) and all(close(a, b) for a, b in zip(xs, ys))

    bad = []
    lines = list(got["lines"])
    vertical = []
    if want["arcs"]:
        # a site on the sweep line is shown as a vertical line through the whole figure
        vertical = [g for g in lines if g[0] == ("-", rgb(Colors.SWEEP_LINE))
                    and g[1][0] == g[1][1] and g[2] == [0.0, 1.0]]
        lines = [g for g in lines if g not in vertical]
    bad += _match("lines", lines, want["lines"], lambda g, w: g[0] == w[0] and all_close(g[1], w[1]) and all_close(g[2], w[2]))
    bad += _match("points", got["points"], want["points"], lambda g, w: g[0] == w[0] and all_close(g[1:], w[1:]))
    bad += _match("arrows", got["arrows"], want["arrows"], lambda g, w: all_close(g[0], w[0]) and all_close(g[1], w[1]))
    bad += _match("circles", got["circles"], want["circles"], lambda g, w: all_close(g[0], w[0]) and close(g[1], w[1]))
    bad += _match("polygons", got["polygons"], want["polygons"],
                  lambda g, w: len(g) == len(w) and all(all_close(p, q) for p, q in zip(g, w)))
    if not all_close(got["limits"], want["limits"]):
        bad.append(f"the figure shows {got['limits']} instead of {want['limits']}")
    texts = list(got["texts"])
    labels = []
    if want["arc_labels"]:
        named = [t for t in texts if t[0].isdigit()]
        texts = [t for t in texts if t not in named]
        labels = named
    bad += _match("texts", texts, want["texts"], lambda g, w: g[0] == w[0] and all_close(g[1:], w[1:]))
    bad += beach(v, got, want, vertical, labels)
    return bad


def beach(v, got, want, vertical, labels):
    curves = got["curves"]
    if not want["beach"]:
        return [f"{len(curves)} unexpected curves"] if curves else []
    bad = []
    l = float(v.sweep_line)
    some = getattr(v, "shown_arcs", None)      # those of the diagram, if none were chosen
    shown_sites = [a.origin for a in some] if some else swept(v)
    above = [s for s in shown_sites if s.yd > v.sweep_line]
    lowest = [c for c in curves if c[0][0] == "-"]
    single = [c for c in curves if c[0][0] == "--"]
    if bool(above) != (len(lowest) == 1):
        return [f"{len(lowest)} beach lines"]

    def height(s, x):
        return (x - s.x) ** 2 / (2 * (s.y - l)) + (s.y + l) / 2

    def close(a, b, x):
        # a parabola that has just opened is steep
        slack = 1e-7 * want["extent"] + 1e-7 * abs(b)
        return abs(a - b) <= slack

    x0, x1 = want["limits"][:2]
    for _, xs, ys in lowest:
        if not (abs(xs[0] - x0) <= 1e-9 * want["extent"] and abs(xs[-1] - x1) <= 1e-9 * want["extent"]):
            bad.append(f"the beach line goes from {xs[0]} to {xs[-1]}")
        for x, y in zip(xs, ys):
            low = min(height(s, x) for s in above)
            if not close(y, low, x):
                bad.append(f"the beach line is at y={y} for x={x}, not at {low}")
                break
    if want["arcs"]:
        if some:
            needed = set(shown_sites)
        else:
            leaves, _ = steps.leaves_and_breakpoints(v.status_tree)
            needed = {n.get_value().origin for n in leaves}
        for _, xs, ys in single:
            fits = [s for s in above if all(close(y, height(s, x), x) for x, y in list(zip(xs, ys))[::37])]
            if not fits:
                bad.append("there is an arc that belongs to none of the sites")
            for s in fits:
                needed.discard(s)
        for g in vertical:
            for s in shown_sites:
                if s.yd == v.sweep_line and abs(s.x - g[1][0]) <= 1e-9 * want["extent"]:
                    needed.discard(s)
        if needed:
            bad.append(f"no arcs for {sorted(s.xy for s in needed)}")
    elif single:
        bad.append("unexpected arcs")
    if want["arc_labels"] and above:
        top = want["limits"][3]
        grid = lowest[0][1]
        visible = {}
        for x in grid:
            hs = sorted((height(s, x), s.name) for s in above)
            if hs[0][0] < top and (len(hs) < 2 or hs[1][0] - hs[0][0] > 1e-6 * want["extent"]):
                visible[str(hs[0][1])] = visible.get(str(hs[0][1]), 0) + 1
        names = [t[0] for t in labels]
        if len(set(names)) != len(names):
            bad.append(f"the arcs have the labels {names}")
        for name, n in visible.items():
            if n >= 3 and name not in names:
                bad.append(f"no label for the arc of P{name}")
        for name, x, y in labels:
            if not math.isfinite(x):
                continue
            s = next((s for s in above if str(s.name) == name), None)
            if s is None or not close(y, height(s, x), x):
                bad.append(f"the label {name} is not on its arc")
                continue
            inside = [g for g in grid if height(s, g) <= min(height(t, g) for t in above) + 1e-6 * want["extent"] and height(s, g) < top]
            if inside and not min(inside) - 1e-9 <= x <= max(inside) + 1e-9:
                bad.append(f"the label {name} is not on its own part of the beach line")
    return bad


def close_all():
    plt.close("all")
