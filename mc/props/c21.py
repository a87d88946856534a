"""C21: a figure shows the present state of the diagram: what was asked for, where it is, and nothing else."""
import itertools
import types
from decimal import Decimal

from .. import core, diagrams, impl

POLYGONS = {"box": [(0, 0), (5, 0), (5, 5), (0, 5)], "penta": [(-1, -1), (6, -2), (8, 3), (3, 9), (-2, 6)],
            "right": [(40, 7), (47, 8), (45, 13), (41, 12)], "left": [(-30, -9), (-22, -9), (-26, -3)],
           "small": [(0.02, 0.01), (0.05, 0.01), (0.05, 0.04), (0.02, 0.03)],
           "below": [(-1, -9), (7, -9), (7, 0), (-1, 0)]}
SETS = {
    "one": ("box", [(1, 2)]),
    "two": ("penta", [(3, 4), (1, 0.5)]),
    "level": ("box", [(1, 3), (4, 3), (2.5, 1)]),
    "three": ("box", [(1, 4), (4, 3.5), (2.5, 1)]),
    "zero": ("below", [(1, 0), (4, -2), (3, -7), (6, -5)]),
    "through": ("penta", [(0, 3), (4, 0), (2, -1), (1, 5)]),
    "square": ("box", [(1, 1), (4, 1), (1, 4), (4, 4), (2.5, 2.5)]),
    "arch": ("penta", [(1, 4.5), (2, 4.75), (3, 4.75), (4, 4.5), (2.25, 0.5)]),
    "outside": ("box", [(2.5, 8), (3, 2), (7, 1), (2, -3)]),
    "readme": ("penta", [(2.5, 2.5), (4, 5.5), (5.5, 2.5), (3, 5.5), (4, 4), (3, 3), (4, 3)]),
}
# in other places, only with some of the options
PLACES = {
    "right": ("right", [(42, 9), (44, 10), (43, 11.5), (46, 9)]),
    "left": ("left", [(-27, -8), (-25, -5), (-24, -8.5)]),
    "small": ("small", [(0.03, 0.02), (0.04, 0.025), (0.03, 0.0275)]),
}
PLACES["close"] = ("box", [(1, 3), (4, Decimal("2.9999999")), (2.5, 1), (3, Decimal("0.9999999"))])
MANY = [((k * 37 % 41) / 8, (k * 17 % 40) / 8 + k / 100) for k in range(32)]
PLACES["many"] = ("penta", MANY)
SETS.update(PLACES)
QUICK = ["one", "level", "three", "zero", "through", "outside"]
BOUNDS = {"quick": f"the states after every event, before the clipping and at the end, for the sites {QUICK}; "
                   "no options, every single option, every pair of options, all options, the presets, and with the parts and the sweep line given",
          "thorough": f"the states after every event, before the clipping and at the end, for the sites {[k for k in SETS if k not in PLACES]}; "
                      "no options, every one to four options, all but one or two options, all options, the presets, and with the parts and the sweep line given"}
for _t in BOUNDS:
    BOUNDS[_t] += f"; the presets, all options and the separate calls for the sites {list(PLACES)}; what is shown by show()"
ASSUMPTIONS = ["colours are compared with those of the library itself", "the contents of the figures are compared, a part of them is rendered as well"]

# switches that only do something together with another one
NEEDS = {"edge_labels": "edges", "site_labels": "sites", "triangles": "events", "arcs": "beach_line", "arc_labels": "beach_line"}


def option_sets(tier):
    from .. import figures
    flags = figures.FLAGS
    seen = []
    sets = [{}, dict(figures.CONSTRUCTION), dict(figures.CLIPPING)]
    most = 2 if tier == "quick" else 4
    for n in range(0, most + 1):
        for on in itertools.combinations(flags, n):
            opts = dict(figures.NOTHING, **{k: True for k in on})
            sets.append(opts)
            for k in on:
                if k in NEEDS:
                    sets.append(dict(opts, **{NEEDS[k]: True}))
    for n in (0, 1) if tier == "quick" else (0, 1, 2):
        for off in itertools.combinations(flags, n):
            sets.append({k: k not in off for k in flags})
    sets.append(dict(outgoing_edges=True, scale=0.25, border_to_site=True))
    for s in sets:
        if s not in seen:
            seen.append(s)
    return seen


def observe(name, wanted, visit):
    """Calls visit(subject) at the wanted-th message of a run (None: at all of them, and after the run)."""
    poly, sites = SETS[name]
    count = 0

    class Eye(impl.foronoi.observers.observer.Observer):
        def update(self, subject, message, **kwargs):
            nonlocal count
            if message.name != "DEBUG":
                if wanted is None or count == wanted:
                    visit(subject)
                count += 1

    v = impl.Voronoi(impl.Polygon(POLYGONS[poly]))
    v.attach_observer(Eye())
    v.create_diagram(sites)
    return count


def draw(v, opts, offset, how):
    from .. import figures
    vis = figures.Visualizer(v, canvas_offset=offset)
    if how == "show":
        return show(vis, v, opts, offset)
    if how == "all":
        vis.plot_all(**opts)
    elif how in ("given", "given at 0"):
        # the parts themselves, and the height of the sweep line, are handed over
        arcs = list(v.arcs)[::2]
        line = Decimal(0) if how == "given at 0" and v.sweep_line > 0 else v.sweep_line - Decimal("0.75")
        v = types.SimpleNamespace(bounding_poly=v.bounding_poly, edges=v.edges[::2] or v.edges, vertices=list(v.vertices)[1:] or list(v.vertices),
                                  sites=v.sites[1:] or v.sites, all_sites=v.sites, sweep_line=line, event=other_event(v), shown_arcs=arcs)
        opts = dict({k: True for k in figures.FLAGS}, scale=0.25)
        vis.plot_sweep_line(sweep_line=v.sweep_line).plot_sites(points=v.sites, show_labels=True)
        vis.plot_edges(edges=v.edges, sweep_line=v.sweep_line, show_labels=True).plot_border_to_site(edges=v.edges, sweep_line=v.sweep_line)
        vis.plot_vertices(vertices=v.vertices).plot_outgoing_edges(vertices=v.vertices, scale=0.25)
        vis.plot_arcs(arcs=arcs, sweep_line=v.sweep_line, plot_arcs=True, show_labels=True).plot_polygon().plot_event(event=v.event, triangles=True)
    else:
        # one call at a time, chained in the other order
        o = {**figures.DEFAULTS, **opts}
        if o["beach_line"]:
            vis = vis.plot_arcs(plot_arcs=o["arcs"], show_labels=o["arc_labels"])
        if o["events"]:
            vis = vis.plot_event(triangles=o["triangles"])
        if o["outgoing_edges"]:
            vis = vis.plot_outgoing_edges(scale=o["scale"])
        if o["sites"]:
            vis = vis.plot_sites(show_labels=o["site_labels"])
        if o["vertices"]:
            vis = vis.plot_vertices()
        if o["border_to_site"]:
            vis = vis.plot_border_to_site()
        if o["edges"]:
            vis = vis.plot_edges(show_labels=o["edge_labels"])
        if o["polygon"]:
            vis = vis.plot_polygon()
        if o["sweep_line"]:
            vis = vis.plot_sweep_line()
    if how == "calls":
        vis.get_canvas().canvas.draw()
    got = figures.shown(vis.get_canvas())
    return figures.compare(v, got, figures.expected(v, offset, opts))


def other_event(v):
    """Not the present one, if there are sites for another one."""
    from foronoi.events import CircleEvent
    from foronoi.nodes import Arc, LeafNode
    leaves = [LeafNode(Arc(s)) for s in reversed(v.sites)]
    found = (CircleEvent.create_circle_event(*triple, sweep_line=v.sweep_line) for triple in itertools.combinations(leaves, 3))
    return next((e for e in found if e), v.event)


def show(vis, v, opts, offset):
    """Shown on the screen, which is replaced by a stand-in."""
    from .. import figures
    calls, original = [], figures.plt.show

    def screen(*args, **kwargs):
        calls.append((args, kwargs, figures.plt.get_fignums(), figures.shown(figures.plt.gcf())))

    figures.plt.show = screen
    try:
        result = vis.plot_all(**opts).show(block=False)
        vis.show()
    finally:
        figures.plt.show = original
    bad = [] if result is vis else ["show() does not return the visualizer"]
    if [bool(k.get("block", a[0] if a else True)) for a, k, _, _ in calls] != [False, True] or any(len(n) != 1 for _, _, n, _ in calls):
        return bad + [f"the screen was called with {[c[:3] for c in calls]}"]
    return bad + figures.compare(v, calls[0][3], figures.expected(v, offset, opts)) + figures.compare(v, calls[1][3], figures.expected(v, offset, opts))


def check(name, at, opts, offset, how):
    bad = []
    observe(name, at, lambda v: bad.extend(draw(v, opts, offset, how)))
    from .. import figures
    figures.close_all()
    return bad


def jobs(tier):
    chunk = 24
    total = len(option_sets(tier))
    for name in PLACES:
        for at in range(0, 20) if name != "many" else range(0, 120, 4 if tier == "quick" else 1):
            yield (name, at, 0, 0, tier)
    for name in QUICK if tier == "quick" else [k for k in SETS if k not in PLACES]:
        for at in range(0, 24):
            for k in range(0, total, chunk):
                yield (name, at, k, k + chunk, tier)


_counts = {}


def work(job, out):
    from .. import figures
    name, at, start, stop, tier = job
    if name not in _counts:
        count, complaint = core.attempt(observe, name, -1, None)
        if complaint:
            out.violation(dict(set=name, at=0, opts={}, offset=1, how="all"), [complaint])
            return
        _counts[name] = count
    if at >= _counts[name]:
        return
    if name in PLACES:
        todo = [({}, 1, "all"), (figures.CONSTRUCTION, 0.5, "all"), ({k: True for k in figures.FLAGS}, 0.01, "all")]
    else:
        todo = [(opts, 1, "all") for opts in option_sets(tier)[start:stop]]
    if start == 0:
        todo += [({k: True for k in figures.FLAGS}, 1, "calls"), ({}, 0, "calls"), (dict(figures.CONSTRUCTION), 2.5, "calls"), ({}, 1, "given"), ({}, 1, "given at 0"),
                 ({}, 1, "show"), (dict(figures.CONSTRUCTION, site_labels=True), 0.125, "show"),
                 (dict(figures.CONSTRUCTION, site_labels=True, arc_labels=True, arcs=True), 0.5, "calls")]
    bad = []

    def visit(v):
        for opts, offset, how in todo:
            found = draw(v, opts, offset, how)
            out.state()
            out.trace()
            out.transition()
            out.outcome((name, at, len(found)))
            if found:
                bad.append((opts, offset, how, found))
                if len(bad) > 3:
                    return

    _, complaint = core.attempt(observe, name, at, visit, seconds=120)
    figures.close_all()
    for opts, offset, how, found in bad:
        out.violation(dict(set=name, at=at, opts=opts, offset=offset, how=how), found, sum(map(bool, opts.values())) + at / 100)
    if complaint and not bad:
        out.violation(dict(set=name, at=at, opts=todo[0][0], offset=1, how="all", upto=stop, tier=tier), [complaint])
    out.sample(dict(sites=name, message=at, options=len(todo)))


def replay(case):
    if "upto" in case:
        out = core.Out()
        work((case["set"], case["at"], 0, case["upto"], case["tier"]), out)
        return [m for _, _, messages in out.bad for m in messages]
    bad, complaint = core.attempt(check, case["set"], case["at"], case["opts"], case["offset"], case["how"], seconds=60)
    return [complaint] if complaint else bad
