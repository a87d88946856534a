"""C13: watching or reading a diagram does not change it."""
import itertools

from .. import core, dump, impl
from . import c21

SETS = dict(c21.SETS)
QUICK = ["one", "level", "through", "zero", "square", "arch"]
# a closed cell in the middle, cut by boxes in all ways
SITES = [(2, 2), (-6, 2.5), (9, 1), (3, 14), (1, -13), (8, 9), (-5, -6)]
LIMITS = {"quick": [-20, -3.5, 0, 2.75, 6, 21], "thorough": [-20, -9, -6.5, -3.5, 0, 2, 2.75, 6, 9.5, 21]}
WHEN = ["read", "read@STEP_FINISHED", "read@SWEEP_FINISHED"]
ONCE = 4
LARGE = ["many"]   # only one observer or one way to read at a time
WATCHERS = ["record", "debug", "text", "tree", "figure", "read"]
READERS = ["area", "round", "borders", "vertices", "walk", "polygon", "figure", "tree", "lists", "repr"]
DEPTH = {"quick": 2, "thorough": 3}
BOUNDS = {t: f"for the sites {QUICK if t == 'quick' else [k for k in SETS if k not in LARGE]} (and of one for {LARGE}): all sequences of <= {d} observers out of {WATCHERS} "
             f"(the last one reads everything there is at every message), and all sequences of <= {d} ways {READERS} to read a finished diagram"
             f"; seven sites in every box with limits out of {LIMITS[t]}, reading everything at every message, at every step or before the clipping; reading everything at a single message, for every message" for t, d in DEPTH.items()}
ASSUMPTIONS = ["observers only read"]


def read(v, how):
    from .. import figures
    if how == "area":
        return [s.area() for s in v.sites]
    if how == "round":
        return [s.area(digits=1) for s in v.sites]
    if how == "borders":
        return [len(s.borders()) for s in v.sites]
    if how == "vertices":
        return [[p.xy for p in s.vertices()] for s in v.sites]
    if how == "walk":
        return [(repr(h.origin), repr(h.target), h.get_origin(), h.next, h.prev) for e in v.edges for h in (e, e.twin)]
    if how == "polygon":
        p = v.bounding_poly
        return [p.get_coordinates(), [p.inside(s) for s in v.sites]]
    if how == "figure":
        vis = figures.Visualizer(v, canvas_offset=1)
        vis.plot_all(**{k: True for k in figures.FLAGS})
        vis.get_canvas()
        figures.close_all()
        return None
    if how == "tree":
        return [v.status_tree.visualize(), impl.foronoi.TreeVisualizer().plot(v.status_tree)]
    if how == "lists":
        # what is handed out does not give away the diagram itself
        return [list(v.arcs), list(v.vertices), len(v.edges), list(v.get_observers())]
    return [repr(x) for x in list(v.sites) + list(v.edges) + list(v.vertices) + [v.event]]


class Reader(impl.foronoi.observers.observer.Observer):
    """Reads at every message, at those of one kind, or only at message number `at`."""

    def __init__(self, hows, at=None):
        self.hows, self.at, self.count = hows, at, 0

    def update(self, subject, message, **kwargs):
        self.count += 1
        if self.at is not None and self.at != (message.name if isinstance(self.at, str) else self.count - 1):
            return
        for how in self.hows:
            if how == "figure" and message.name == "DEBUG" or subject.event is None or subject.status_tree is None:
                continue
            read(subject, how)


def watcher(kind):
    if kind == "record":
        return Reader([])
    if kind == "debug":
        return impl.foronoi.DebugObserver(callback=lambda text: None)
    if kind == "text":
        return impl.foronoi.TreeObserver(text_based=True, callback=lambda text: None)
    if kind == "tree":
        return impl.foronoi.TreeObserver(callback=lambda observer, dot: None)
    if kind == "figure":
        return impl.foronoi.VoronoiObserver(visualize_before_clipping=True, callback=lambda observer, figure: None,
                                            settings=dict(border_to_site=True, outgoing_edges=True, edge_labels=True))
    at = kind[5:] or None
    return Reader(["area", "borders", "vertices", "walk", "polygon", "tree", "lists", "repr"], int(at) if at and at.isdigit() else at)


def make(name, kinds=()):
    if isinstance(name, str):
        poly, sites = SETS[name]
        v = impl.Voronoi(impl.Polygon(c21.POLYGONS[poly]))
    else:
        v, sites = impl.Voronoi(impl.BoundingBox(*name)), SITES
    for k in kinds:
        v.attach_observer(watcher(k))
    v.create_diagram(sites)
    return v


def watched(name, kinds):
    from .. import figures
    got = dump.diagram(make(name, kinds))
    figures.close_all()
    d = dump.difference(got, dump.diagram(make(name)), f"diagram observed by {list(kinds)}")
    return [d] if d else []


def afterwards(name, hows):
    v = make(name)
    before = dump.diagram(v)
    first = None
    for how in hows:
        value = repr(read(v, how)) if how != "tree" else None
        d = dump.difference(dump.diagram(v), before, f"diagram after reading {how}")
        if d:
            return [d]
        if how != "tree" and value != repr(read(v, how)):
            return [f"reading {how} twice gives two answers"]
    return []


def check(kind, name, words):
    bad, complaint = core.attempt(watched if kind == "watch" else afterwards, name, words, seconds=60)
    return [complaint] if complaint else bad


def jobs(tier):
    for x0, x1 in itertools.combinations(LIMITS[tier], 2):
        yield ("boxes", x0, x1, tuple(LIMITS[tier]))
    for name in QUICK if tier == "quick" else SETS:
        for k in range(ONCE):
            yield ("once", name, k)
    for name in LARGE:
        for first in WATCHERS:
            yield ("watch", name, first, 1)
        for first in READERS:
            yield ("read", name, first, 1)
    for name in QUICK if tier == "quick" else [k for k in SETS if k not in LARGE]:
        for first in WATCHERS:
            yield ("watch", name, first, DEPTH[tier])
        for first in READERS:
            yield ("read", name, first, DEPTH[tier])


def work(job, out):
    if job[0] == "boxes":
        _, x0, x1, limits = job
        for y0, y1 in itertools.combinations(limits, 2):
            for word in WHEN:
                bad = check("watch", (x0, x1, y0, y1), (word,))
                out.state()
                out.transition()
                out.trace()
                out.outcome((x0, x1, y0, y1))
                if bad:
                    out.violation(dict(kind="watch", name=[x0, x1, y0, y1], words=[word]), bad, 9)
        return
    if job[0] == "once":
        eye = Reader([])
        poly, sites = SETS[job[1]]
        v = impl.Voronoi(impl.Polygon(c21.POLYGONS[poly]))
        v.attach_observer(eye)
        v.create_diagram(sites)
        for k in range(job[2], eye.count, ONCE):
            bad = check("watch", job[1], (f"read@{k}",))
            out.state()
            out.transition()
            out.trace()
            out.outcome((job[1], k))
            if bad:
                out.violation(dict(kind="watch", name=job[1], words=[f"read@{k}"]), bad, 9)
        return
    kind, name, first, depth = job
    for n in range(depth):
        for rest in itertools.product(WATCHERS if kind == "watch" else READERS, repeat=n):
            words = (first, *rest)
            bad = check(kind, name, words)
            out.state()
            out.transition(len(words))
            out.trace()
            out.outcome((kind, name, words))
            if bad:
                out.violation(dict(kind=kind, name=name, words=list(words)), bad, len(words))
    out.sample(dict(kind=kind, sites=name, words=list(words)))


def replay(case):
    return check(case["kind"], case["name"] if isinstance(case["name"], str) else tuple(case["name"]), tuple(case["words"]))
