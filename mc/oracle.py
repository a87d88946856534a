"""Comparison of a finished diagram with the reference model.

Every function returns a list of complaints; an empty list means agreement.
Only the public surface of the finished diagram is read: sites, edges, vertices,
area(), borders(), vertices(), origin/target/twin/next/prev/incident_point,
connected_edges, first_edge, x/y/xd/yd.
"""
import math

LIMIT = 100000  # longer than any walk around a face in any explored diagram


class Tol:
    def __init__(self, model):
        # end points are on the outline or equal if they are within 1e-10 of the extent
        self.pos = 1e-9 * model.size
        self.area = 1e-9 * model.size ** 2


def near(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def walk(site):
    """Half-edges around a site by following next; None if it does not close."""
    first = site.first_edge
    if first is None:
        return None
    out, e = [first], first.next
    while e is not first:
        if e is None or len(out) > LIMIT:
            return None
        out.append(e)
        e = e.next
    return out


def area(v, m, tol):
    bad = []
    total = 0.0
    for i, site in enumerate(v.sites):
        got, want = site.area(), m.area(i)
        total += got
        if not abs(got - want) <= tol.area:
            bad.append(f"area of the cell of site {i} {site.xy} is {got!r}, should be {want!r}")
    if not bad and not abs(total - m.polygon_area()) <= tol.area * max(1, len(v.sites)):
        bad.append(f"areas add up to {total!r}, the polygon has {m.polygon_area()!r}")
    return bad


def _drop_repeats(pts, tol, straight=False):
    """Remove consecutive repeats and, if asked, corners that lie between their neighbours."""
    out = []
    for p in pts:
        if not out or not near(out[-1], p, tol):
            out.append(p)
    while len(out) > 1 and near(out[0], out[-1], tol):
        out.pop()
    k = 0
    while straight and len(out) > 2 and k < len(out):
        a, p, b = out[k - 1], out[k], out[(k + 1) % len(out)]
        length = math.hypot(b[0] - a[0], b[1] - a[1])
        across = abs((p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0]))
        if across <= 4 * tol * max(length, tol):
            out.pop(k)
            k = max(0, k - 2)
        else:
            k += 1
    return out


def _covered(got, want, tol):
    """Every point of `got` is near some point of `want`, or near the outline of `want`."""
    n = len(want)
    for p in got:
        for k in range(n):
            a, b = want[k], want[(k + 1) % n]
            dx, dy = b[0] - a[0], b[1] - a[1]
            length = math.hypot(dx, dy)
            if length == 0:
                distance = math.hypot(p[0] - a[0], p[1] - a[1])
            else:
                t = min(1.0, max(0.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / (length * length)))
                distance = math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)
            if distance <= tol:
                break
        else:
            return False
    return True


def _match_cycle(got, want, tol):
    """got and want are the same cyclic sequence (same direction)."""
    if len(got) != len(want):
        return False
    n = len(want)
    if n == 0:
        return True
    for s in range(n):
        if near(got[0], want[s], tol):
            if all(near(got[k], want[(s + k) % n], tol) for k in range(n)):
                return True
    return False


def signed_area(pts):
    return sum(pts[k - 1][0] * pts[k][1] - pts[k][0] * pts[k - 1][1] for k in range(len(pts))) / 2


def regions(v, m, tol, exact_count=True, coarse=False):
    """vertices()/borders() of each site walk exactly around its region, clockwise."""
    bad = []
    for i, site in enumerate(v.sites):
        borders = site.borders()
        got = [m.at(vertex) for vertex in site.vertices()]
        if len(got) != len(borders):
            bad.append(f"site {i}: {len(borders)} borders but {len(got)} vertices")
            continue
        for b, p in zip(borders, got):
            if b.incident_point is not site:
                bad.append(f"site {i}: a border belongs to {b.incident_point}")
            if m.at(b.origin) != p:
                bad.append(f"site {i}: border does not start at the listed vertex")
        want = m.corners(i)[::-1]
        if coarse:
            # same outline up to the tolerance: every corner of one lies on the outline of the other,
            # it is walked in the same direction and encloses the same area
            if not (_covered(got, want, 4 * tol.pos) and _covered(want, got, 4 * tol.pos)
                    and abs(signed_area(got) - signed_area(want)) <= tol.area):
                bad.append(f"site {i} {site.xy}: corners {got} should be {want} (up to repeated corners)")
            continue
        if not exact_count:
            got = _drop_repeats(got, tol.pos)
        if not _match_cycle(got, want, tol.pos):
            bad.append(f"site {i} {site.xy}: corners {got} should be {want} (cyclic)")
    return bad


def _key_edges(v):
    """(inner, outer): edges between two sites, edges between a site and the outside."""
    index = {id(s): i for i, s in enumerate(v.sites)}
    inner, outer, bad = [], [], []
    for e in v.edges:
        a, b = e.incident_point, e.twin.incident_point
        if a is None and b is None:
            bad.append("an edge has no incident point on either side")
            continue
        if a is None:
            e, a, b = e.twin, b, a
        if id(a) not in index or (b is not None and id(b) not in index):
            bad.append("an edge is incident to a point that is not one of the sites")
            continue
        if b is None:
            outer.append((index[id(a)], e))
        else:
            inner.append((index[id(a)], index[id(b)], e))
    return inner, outer, bad


def _close(p, q, tol):
    return math.hypot(p[0] - q[0], p[1] - q[1]) <= tol


def _edges_coarse(v, m, tol):
    """As edges(), but stretches that are shorter than the tolerance may be there or not."""
    inner, outer, bad = _key_edges(v)
    slack = 8 * tol.pos
    want = {k: (m.xy(p), m.xy(q)) for k, (p, q) in m.edges().items()}
    seen = set()
    for i, j, e in inner:
        p, q = m.at(e.origin), m.at(e.target)
        if _close(p, q, slack):
            continue
        key = (min(i, j), max(i, j))
        if key not in want or key in seen:
            bad.append(f"edge {p} -> {q} between sites {key} " + ("is there twice" if key in seen else "should not exist"))
            continue
        seen.add(key)
        a, b = want[key] if i != key[0] else want[key][::-1]
        if not (_close(p, a, slack) and _close(q, b, slack)):
            bad.append(f"edge of site {i} with {j} runs {p} -> {q}, should be {a} -> {b}")
    for key, (a, b) in want.items():
        if key not in seen and not _close(a, b, 2 * slack):
            bad.append(f"no edge between the touching cells of sites {key}: {a} - {b}")
    todo = [(i, m.xy(q), m.xy(p)) for i, _, p, q in m.borders()]
    for i, e in outer:
        p, q = m.at(e.origin), m.at(e.target)
        if _close(p, q, slack):
            continue
        for item in todo:
            if item[0] == i and _close(item[1], p, slack) and _close(item[2], q, slack):
                todo.remove(item)
                break
        else:
            bad.append(f"polygon edge of site {i} runs {p} -> {q}, which is not a stretch of the polygon in its cell")
    for i, p, q in todo:
        if not _close(p, q, 2 * slack):
            bad.append(f"no polygon edge of site {i} from {p} to {q}")
    return bad


def edges(v, m, tol, zero_ok=False, coarse=False):
    """The edges are exactly the common boundaries of cells and the stretches of the polygon."""
    if coarse:
        return _edges_coarse(v, m, tol)
    inner, outer, bad = _key_edges(v)
    want = m.edges()
    seen = set()
    for i, j, e in inner:
        p, q = m.at(e.origin), m.at(e.target)
        if zero_ok and near(p, q, tol.pos):
            continue
        key = (min(i, j), max(i, j))
        if key not in want:
            bad.append(f"edge between sites {key}, whose cells do not touch: {p} {q}")
            continue
        if key in seen:
            bad.append(f"more than one edge between sites {key}")
            continue
        seen.add(key)
        a, b = (m.xy(x) for x in want[key])  # cell key[0] on the left of a -> b
        # clockwise cells: the incident point is on the right of the half-edge
        if i == key[0]:
            a, b = b, a
        if not (near(p, a, tol.pos) and near(q, b, tol.pos)):
            bad.append(f"edge of site {i} with {j} runs {p} -> {q}, should be {a} -> {b}")
    for key in want:
        if key not in seen:
            bad.append(f"no edge between the touching cells of sites {key}")
    todo = [(i, m.xy(q), m.xy(p)) for i, _, p, q in m.borders()]
    for i, e in outer:
        p, q = m.at(e.origin), m.at(e.target)
        if zero_ok and near(p, q, tol.pos):
            continue
        for item in todo:
            if item[0] == i and near(item[1], p, tol.pos) and near(item[2], q, tol.pos):
                todo.remove(item)
                break
        else:
            bad.append(f"polygon edge of site {i} runs {p} -> {q}, which is not a stretch of the polygon in its cell")
    for i, p, q in todo:
        bad.append(f"no polygon edge of site {i} from {p} to {q}")
    return bad


def vertices(v, m, tol, coarse=False):
    """The vertices are exactly the corners of all regions, each once."""
    bad = []
    want = [m.xy(p) for p in m.vertices()]
    if coarse:
        got = [m.at(vertex) for vertex in v.vertices]
        bad += [f"vertex {p} is not a corner of any region" for p in got
                if not any(_close(p, q, 8 * tol.pos) for q in want)]
        bad += [f"no vertex at {q}" for q in want if not any(_close(p, q, 8 * tol.pos) for p in got)]
        return bad
    left = list(want)
    for vertex in v.vertices:
        p = m.at(vertex)
        for q in left:
            if near(p, q, tol.pos):
                left.remove(q)
                break
        else:
            known = any(near(p, q, tol.pos) for q in want)
            bad.append(f"vertex {p} " + ("is listed more than once" if known else "is not a corner of any region"))
    bad += [f"no vertex at {q}" for q in left]
    return bad


def dcel(v, m=None):
    """Doubly connected edge list: purely structural, exact, by identity.

    With a model, sites without a cell (outside the polygon) are known.
    """
    hidden = {i for i, c in enumerate(m.cells) if not c} if m is not None else set()
    bad = []
    full = list(v.edges)
    halves, ids = [], set()
    for e in full:
        for h in (e, e.twin):
            if h is None:
                bad.append(f"edge {e} has no twin")
                return bad
            if id(h) in ids:
                bad.append("a half-edge occurs twice in the edge list")
            ids.add(id(h))
            halves.append(h)
    vertex_ids = {}
    for x in v.vertices:
        if id(x) in vertex_ids:
            bad.append(f"vertex {x.xy} is listed twice")
        vertex_ids[id(x)] = x
    site_ids = {id(s): i for i, s in enumerate(v.sites)}
    per_site = {i: [] for i in range(len(v.sites))}
    leaving = {k: [] for k in vertex_ids}
    for h in halves:
        if h.twin is None or h.twin.twin is not h or h.twin is h:
            bad.append("twin is not an involution")
        if id(h.origin) not in vertex_ids:
            bad.append(f"a half-edge starts at {h.origin!r}, which is not in the list of vertices")
            continue
        if h.target is not h.twin.origin:
            bad.append("target is not the origin of the twin")
        leaving[id(h.origin)].append(h)
        if h.incident_point is None:
            if h.twin.incident_point is None:
                bad.append("an edge has the outside on both sides")
            continue
        if id(h.incident_point) not in site_ids:
            bad.append("a half-edge belongs to something that is not a site")
            continue
        per_site[site_ids[id(h.incident_point)]].append(h)
        n, p = h.next, h.prev
        if n is None or p is None:
            bad.append(f"a border of site {site_ids[id(h.incident_point)]} has no next or no prev")
            continue
        if id(n) not in ids or id(p) not in ids:
            bad.append("next or prev is not one of the diagram's half-edges")
        if n.prev is not h:
            bad.append("next.prev is not the half-edge itself")
        if p.next is not h:
            bad.append("prev.next is not the half-edge itself")
        if n.origin is not h.target:
            bad.append("next does not start where the half-edge ends")
        if p.target is not h.origin:
            bad.append("prev does not end where the half-edge starts")
        if n.incident_point is not h.incident_point or p.incident_point is not h.incident_point:
            bad.append("next or prev belongs to another site")
    for k, x in vertex_ids.items():
        got = [id(h) for h in x.connected_edges]
        want = sorted(id(h) for h in leaving[k])
        if sorted(got) != want:
            bad.append(f"vertex {x.xy}: {len(got)} connected edges listed ({len(set(got))} distinct), "
                       f"{len(want)} half-edges leave it")
        if not want:
            bad.append(f"vertex {x.xy} has no edges")
    for i, site in enumerate(v.sites):
        if i in hidden:
            if per_site[i] or site.borders() or site.vertices():
                bad.append(f"site {i} has no cell, but {len(site.borders())} borders")
            continue
        loop = walk(site)
        if loop is None:
            bad.append(f"site {i}: following next from the first edge does not lead back to it")
            continue
        if {id(h) for h in loop} != {id(h) for h in per_site[i]} or len(loop) != len(per_site[i]):
            bad.append(f"site {i}: the walk around it meets {len(loop)} half-edges, {len(per_site[i])} belong to it")
        if [id(h) for h in site.borders()] != [id(h) for h in loop]:
            bad.append(f"site {i}: borders() is not the walk around the site")
        back = [h.prev for h in loop]
        if [id(h) for h in back[1:] + back[:1]] != [id(h) for h in loop]:
            bad.append(f"site {i}: following prev is not the reverse walk")
    if not bad and len(vertex_ids) - len(full) + len(v.sites) - len(hidden) != 1:
        bad.append(f"Euler: {len(vertex_ids)} vertices - {len(full)} edges + {len(v.sites) - len(hidden)} cells != 1")
    return bad


def zero_length(v, m, tol):
    """No edge without length, no two vertices in one place."""
    bad = []
    for e in v.edges:
        if near(m.at(e.origin), m.at(e.target), tol.pos):
            bad.append(f"edge of zero length at {e.origin.xy}")
    pts = sorted(m.at(x) for x in v.vertices)
    for i, p in enumerate(pts):
        for q in pts[i + 1:i + 40]:
            if q[0] - p[0] > tol.pos:
                break
            if near(p, q, tol.pos):
                bad.append(f"two vertices at {p}")
    return bad


def everything(v, m, tol, cleaned=True, coarse=False):
    bad = area(v, m, tol) + regions(v, m, tol, exact_count=cleaned, coarse=coarse)
    bad += edges(v, m, tol, zero_ok=not cleaned, coarse=coarse) + dcel(v, m)
    if coarse:
        bad += vertices(v, m, tol, coarse=True)
    elif cleaned:
        bad += vertices(v, m, tol) + zero_length(v, m, tol)
    return bad
