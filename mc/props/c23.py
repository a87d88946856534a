"""C23: the observers that come with the library report every moment they were asked for, as it is at that moment."""
import itertools
import re

from .. import core, impl, steps
from . import c21

SETS = dict(c21.SETS)
QUICK = ["one", "level", "three", "through", "zero"]
SETTINGS = {"none": None, "empty": {}, "labels": dict(site_labels=True, arc_labels=True), "off": dict(polygon=False, edges=False, sweep_line=True),
            "arcs": dict(beach_line=True, arcs=True, triangles=True, events=True)}
BOUNDS = {t: f"for the sites {QUICK if t == 'quick' else [k for k in SETS if k != 'many']}: the figure observer with all 8 combinations of its switches, "
             f"{len(SETTINGS)} settings, alone and next to a second one with other settings in both orders; the tree observer with all "
             "8 combinations of its switches; both without a callback, with stand-ins for windows; the debug observer; every message of the run; one of each in a run of 32 sites; two figure observers "
             "that are given the same settings object" for t in ("quick", "thorough")}
ASSUMPTIONS = ["figures are compared by their contents"]
PRESET = {"STEP_FINISHED": "CONSTRUCTION", "SWEEP_FINISHED": "CLIPPING", "VORONOI_FINISHED": "FINAL"}


class Eye(impl.foronoi.observers.observer.Observer):
    """Attached before and after an observer: tells which message is being delivered."""

    def __init__(self, before):
        self.before = before

    def update(self, subject, message, **kwargs):
        self.before(subject, message, kwargs)


def run(name, observers, before=None):
    poly, sites = SETS[name]
    v = impl.Voronoi(impl.Polygon(c21.POLYGONS[poly]))
    if before:
        v.attach_observer(Eye(before))
    for o in observers:
        v.attach_observer(o)
    v.create_diagram(sites)
    return v


def figure_observers(name, configs):
    """configs: [(steps, clipping, result, settings name, offset, size)]"""
    from .. import figures
    bad, log = [], []
    now, kept = {}, []

    def before(subject, message, kwargs):
        now["v"], now["message"] = subject, message.name
        if message.name != "DEBUG":
            log.append(message.name)

    calls = [[] for _ in configs]
    observers, handed = [], {}
    for k, (a, b, c, settings, offset, size) in enumerate(configs):
        given = SETTINGS[settings]
        if given is not None:
            # (the same object for two observers with the same settings)
            given = handed.setdefault(settings, dict(given))

        def callback(observer, figure, k=k, given=SETTINGS[settings], offset=offset, size=size):
            calls[k].append(now["message"])
            if observer is not observers[k]:
                bad.append("the callback gets another observer")
            if observer.n_messages != len(calls[k]) - 1 or [m.name for m in observer.messages] != calls[k][:-1]:
                bad.append(f"n_messages is {observer.n_messages} at figure {len(calls[k])}")
            opts = {**getattr(figures, PRESET.get(now["message"], "FINAL")), **(given or {})}
            got = figures.shown(figure)
            found = figures.compare(now["v"], got, figures.expected(now["v"], offset, opts))
            bad.extend(f"figure {len(calls[k])} of observer {k} ({now['message']}): {f}" for f in found)
            if got["size"] != tuple(map(float, size)):
                bad.append(f"the figure has the size {got['size']} instead of {size}")
            kept.append((len(calls[k]), k, figure, got))
            if not got["title"].strip():
                bad.append("the figure has no title")

        kwargs = {} if settings == "none" else dict(settings=given)
        observers.append(impl.foronoi.VoronoiObserver(visualize_steps=a, visualize_before_clipping=b, visualize_result=c,
                                                      callback=callback, canvas_offset=offset, figsize=size, **kwargs))
    run(name, observers, before)
    for number, k, figure, got in kept:
        # a figure that was kept still shows the moment it was made for
        if repr(figures.shown(figure)) != repr(got):
            bad.append(f"figure {number} of observer {k} is not what it was any more")
    for k, (a, b, c, settings, *_) in enumerate(configs):
        want = [m for m in log if dict(STEP_FINISHED=a, SWEEP_FINISHED=b, VORONOI_FINISHED=c)[m]]
        if calls[k] != want:
            bad.append(f"observer {k} made figures for {calls[k]} instead of {want}")
        if [m.name for m in observers[k].messages] != want or observers[k].n_messages != len(want):
            bad.append(f"observer {k} counts {observers[k].n_messages} messages instead of {len(want)}")
    for settings, given in handed.items():
        if given != SETTINGS[settings]:
            bad.append(f"the settings {SETTINGS[settings]} that were handed over became {given}")
    figures.close_all()
    return bad


def tree_of(node):
    """(label, left, right) of the live tree; labels are the names of the sites."""
    if node is None:
        return None
    value = node.get_value()
    if node.left is None and node.right is None:
        return (str(value.origin.name), None, None)
    i, j = value.breakpoint
    return (f"{i.name},{j.name}", tree_of(node.left), tree_of(node.right))


def tree_of_text(text):
    """Reads the sideways tree: right above left, four spaces per level."""
    lines = [line for line in text.split("\n") if line.strip()]
    items = [((len(line) - len(line.lstrip())) // 4, line.strip()) for line in lines]

    def build(items, depth):
        if not items:
            return None
        at = [k for k, (d, _) in enumerate(items) if d == depth]
        if len(at) != 1:
            raise ValueError(f"{len(at)} roots at level {depth}")
        k = at[0]
        return (items[k][1], build(items[k + 1:], depth + 1), build(items[:k], depth + 1))

    return build(items, 0)


def tree_of_dot(source):
    labels, children, targets = {}, {}, set()
    for line in source.split("\n"):
        m = re.match(r'\s*"([^"]+)" \[label="?([^"\]]*)"?\]\s*$', line)
        if m:
            labels[m.group(1)] = m.group(2)
        m = re.match(r'\s*"([^"]+)" -> "([^"]+)"\s*$', line)
        if m:
            children.setdefault(m.group(1), []).append(m.group(2))
            targets.add(m.group(2))
    roots = [n for n in labels if n not in targets]
    if len(roots) != 1:
        raise ValueError(f"{len(roots)} roots")

    def build(n):
        kids = children.get(n, [])
        if not kids:
            return (labels[n], None, None)
        if len(kids) != 2:
            raise ValueError("not a binary tree")
        return (labels[n], build(kids[0]), build(kids[1]))

    return build(roots[0])


def tree_observer(name, a, c, text):
    bad, log, calls, now = [], [], [], {}

    def before(subject, message, kwargs):
        now["v"], now["message"] = subject, message.name
        if message.name != "DEBUG":
            log.append(message.name)

    def judge(observer, tree):
        calls.append(now["message"])
        want = tree_of(now["v"].status_tree)
        try:
            got = tree_of_text(tree) if text else tree_of_dot(tree.source)
        except ValueError as error:
            bad.append(f"{error} in {tree if text else tree.source}")
            return
        if got != want:
            bad.append(f"the tree {got} was shown instead of {want}")
        if observer is not None and (observer is not o or observer.n_messages != len(calls) - 1):
            bad.append("the callback gets another observer or a wrong count")

    callback = (lambda t: judge(None, t)) if text else judge
    o = impl.foronoi.TreeObserver(visualize_steps=a, visualize_result=c, text_based=text, callback=callback)
    v = run(name, [o], before)
    want = [m for m in log if (m == "STEP_FINISHED" and a) or (m == "VORONOI_FINISHED" and c and not a)]
    if calls != want:
        bad.append(f"trees for {calls} instead of {want}")
    if [m.name for m in o.messages] != want or o.n_messages != len(want):
        bad.append(f"{o.n_messages} messages are counted instead of {len(want)}")
    if not text:
        shown = tree_of_dot(impl.foronoi.TreeVisualizer().plot(v.status_tree).source)
        if shown != tree_of(v.status_tree):
            bad.append(f"the visualizer shows the tree {shown}")
    return bad


def debug_observer(name, printed):
    import contextlib
    import io
    want, got = [], []

    def before(subject, message, kwargs):
        if message.name == "DEBUG":
            want.append(kwargs["payload"])

    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        run(name, [impl.foronoi.DebugObserver() if printed else impl.foronoi.DebugObserver(callback=got.append)], before)
    if printed:
        got = text.getvalue().split("\n")[:-1]
        want = "\n".join(want).split("\n")
    return [] if got == want and want else [f"{len(got)} messages instead of {len(want)}: {str(got)[:100]}"]


def by_default(name, what):
    """Without a callback: figures are shown in a window, trees in a window or as text.  Windows are replaced by stand-ins."""
    import contextlib
    import io
    from unittest import mock

    import graphviz
    import matplotlib.figure
    import matplotlib.pyplot as plt

    from .. import figures
    bad, moments, shown, now = [], [], [], {}
    text = io.StringIO()

    def collect():
        if text.getvalue():
            shown.append((now["message"], text.getvalue()))
            text.seek(0)
            text.truncate()

    def before(subject, message, kwargs):
        collect()
        now["v"], now["message"] = subject, message.name
        if message.name == "STEP_FINISHED" or what == "figure" and message.name == "VORONOI_FINISHED":
            moments.append((message.name, None if what == "figure" else tree_of(subject.status_tree)))

    def figure(*args, **kwargs):
        shown.append((now["message"], None))
        got = figures.shown(plt.gcf())
        opts = getattr(figures, PRESET.get(now["message"], "FINAL"))
        bad.extend(f"window {len(shown)}: {f}" for f in figures.compare(now["v"], got, figures.expected(now["v"], 1, opts)))

    def render(dot, *args, **kwargs):
        shown.append((now["message"], dot.source))
        if not kwargs.get("view"):
            bad.append("the tree is not shown")

    def view(dot, *args, **kwargs):
        shown.append((now["message"], dot.source))

    observer = impl.foronoi.VoronoiObserver() if what == "figure" else impl.foronoi.TreeObserver(text_based=what == "text")
    with contextlib.redirect_stdout(text), mock.patch.object(plt, "show", figure), \
            mock.patch.object(matplotlib.figure.Figure, "show", figure), \
            mock.patch.object(graphviz.Digraph, "render", render), mock.patch.object(graphviz.Digraph, "view", view):
        run(name, [observer], before)
        collect()
    figures.close_all()
    try:
        got = [(m, None if s is None else tree_of_text(s) if what == "text" else tree_of_dot(s)) for m, s in shown]
    except ValueError as error:
        return bad + [f"{error} in {shown}"]
    if got != moments:
        bad.append(f"{len(got)} windows or texts {str(got)[:200]} instead of {len(moments)}: {str(moments)[:200]}")
    return bad


KINDS = dict(figure=figure_observers, tree=tree_observer, debug=debug_observer, default=by_default)


def cases(tier):
    # a long run
    yield "debug", ("many", False)
    yield "tree", ("many", True, True, True)
    yield "tree", ("many", True, False, False)
    yield "figure", ("many", [(True, True, True, "labels", 1, (8, 8))])
    for name in QUICK if tier == "quick" else [k for k in SETS if k != "many"]:
        for printed in (False, True):
            yield "debug", (name, printed)
        for what in ("figure", "tree", "text"):
            yield "default", (name, what)
        for a, c, text in itertools.product((True, False), repeat=3):
            yield "tree", (name, a, c, text)
        for flags in itertools.product((True, False), repeat=3):
            for s in SETTINGS:
                yield "figure", (name, [(*flags, s, 1, (8, 8))])
        yield "figure", (name, [(True, True, True, "none", 0.5, (4, 3))])
        for s in SETTINGS:
            yield "figure", (name, [(True, True, True, s, 1, (8, 8)), (True, True, True, s, 0.5, (4, 3))])
        for s, t in itertools.permutations(SETTINGS, 2):
            yield "figure", (name, [(True, True, True, s, 1, (8, 8)), (True, True, True, t, 2, (5, 4))])


def check(kind, args):
    bad, complaint = core.attempt(KINDS[kind], *args, seconds=120)
    return [complaint] if complaint else bad


def jobs(tier):
    # the default callbacks and settings are shared state: several cases follow each other in one process
    chunk = 6
    n = sum(1 for _ in cases(tier))
    for k in range(0, n, chunk):
        yield (tier, k, k + chunk)


def work(job, out):
    tier, start, stop = job
    for kind, args in itertools.islice(cases(tier), start, stop):
        bad = check(kind, args)
        out.state()
        out.transition()
        out.trace()
        out.outcome((kind, args))
        out.sample(dict(kind=kind, args=str(args)))
        if bad:
            out.violation(dict(kind=kind, args=list(args)), bad, len(str(args)))


def replay(case):
    args = case["args"]
    if case["kind"] == "figure":
        args = [args[0], [tuple(c[:5]) + (tuple(c[5]),) for c in args[1]]]
    return check(case["kind"], args)
