"""Exploration of every intermediate state of the sweep, shared by C09, C10 and C11.

The library is run on every set of sites of the listed spaces with an observer that looks
at the live state after every event; the judge of the property is called on each of these
states.  The polygon plays no part before the sweep is finished, so one space per pool of
sites is enough.
"""
from decimal import Decimal, localcontext

from . import core, diagrams, impl, ref, spaces

QUICK = ["g44-box", "g44-neg", "g44-off", "g55-box", "g33-all", "g43-all", "c5-all", "c5-off", "hex-all", "irr-all", "irr-penta", "hline-all",
         "vline-all", "dline-all", "aline-all", "tworows-all", "twocols-all", "cross-all", "rings-all", "vee-all",
         "arch-all", "bowl-all", "readme-all", "sliver", "tri-closed", "tiny", "huge", "mega-offset", "aniso", "tenths", "sevenths",
         "thirds-circle", "thirds-decimal", "nearly-circle-3", "nearly-grid-3", "nearly-circle-6", "nearly-grid-6",
         "nearly-circle-9", "nearly-grid-9", "grid66", "grid88", "circle65", "hexgrid", "noise1-box", "noise2-box",
         "noise-octagon", "zigzag", "zagzig", "spiral", "parabola",
         "giga", "giga-noise", "tera-grid", "far-irr", "pico-irr", "atto-grid", "pico-circle", "vast-irr", "pairs",
         "pairs-tight"]
DEEP = ["g44-five", "g55-four", "g66-three", "rings-six", "cross-six", "irr14", "irr15-tri", "circle25", "thirds-all"]
DEEP += [n for n in spaces.DEEP if spaces.SPACES[n].chains]
assert all(n in spaces.SPACES for n in QUICK + DEEP)


def names(tier, extra=()):
    return QUICK + list(extra) + (DEEP if tier != "quick" else [])


# whole runs with many sites: space, number of sites
LONG = [("wheel", 60), ("big-column", 90), ("big-noise", 100), ("big-grid", 120), ("big-row", 200)]


def long_jobs():
    for name, n in LONG:
        yield (name, "prefix", 0, n - 1, n)


def describe_long():
    return "; the runs with " + ", ".join(f"{n} sites of {name}" for name, n in LONG)


def jobs(tier, extra=()):
    for n in names(tier, extra):
        yield from spaces.SPACES[n].jobs(tier)


def describe(tier, extra=()):
    return "every state after every event of the sweep, for: " + spaces.describe(
        "quick" if tier == "quick" else "thorough", names(tier, extra)) if tier == "quick" else \
        "every state after every event of the sweep, for: " + ", ".join(names(tier, extra)) + " (see mc/spaces.py for the pools)"


class Watch(impl.foronoi.observers.observer.Observer if hasattr(impl.foronoi, "observers") else object):
    """Calls judge.step(subject) after every event and judge.swept(subject) when the sweep is finished."""

    def __init__(self, judge):
        self.judge, self.bad, self.steps = judge, [], 0

    def update(self, subject, message, **kwargs):
        name = message.name
        if self.bad:
            return
        if name == "STEP_FINISHED":
            self.steps += 1
            self.bad = [f"after event {self.steps} ({_describe(subject)}): {b}" for b in self.judge.step(subject)]
        elif name == "SWEEP_FINISHED":
            self.bad = [f"when the sweep is finished: {b}" for b in self.judge.swept(subject)]


def _describe(subject):
    kind = "circle" if getattr(subject.event, "circle_event", False) else "site"
    return f"{kind} event at y={float(subject.sweep_line)!r}"


def check(poly, sites, mode, judge_class):
    """-> (complaints, number of events, key)"""
    watch = Watch(judge_class(sites, mode == "coarse"))

    def run():
        v = impl.Voronoi(impl.Polygon(poly))
        v.attach_observer(watch)
        v.create_diagram(sites)

    _, complaint = core.attempt(run, seconds=core.allowance(len(sites), 1))
    bad = watch.bad or ([complaint] if complaint else [])
    return bad, watch.steps, watch.judge.key()


def explore(job, out, judge_class):
    space = spaces.SPACES[job[0]]
    sites, key = None, None
    for indices in space.walk(job):
        sites = space.sites(indices)
        bad, steps, key = check(space.poly, sites, space.mode, judge_class)
        out.state(steps)
        out.transition(steps)
        out.trace()
        out.outcome(key)
        if bad:
            out.violation(diagrams.case_of(space, sites), bad, size=len(sites))
        if out.full:
            return
    if sites is not None:
        out.sample(dict(space=space.name, sites=[(float(x), float(y)) for x, y in sites], outcome=str(key)[:160]))


def replay(case, judge_class):
    return check(diagrams.decode(case["polygon"]), diagrams.decode(case["sites"]), case["mode"], judge_class)[0]


# -- helpers that read the beach line ------------------------------------------

def leaves_and_breakpoints(root):
    """(sites of the leaves from left to right, pairs of the internal nodes from left to right, leaf nodes, internal nodes)"""
    leaves, inner = [], []
    stack, node = [], root
    count = 0
    while stack or node is not None:
        count += 1
        if count > 100000:
            raise AssertionError("the status tree has a cycle")
        if node is not None:
            stack.append(node)
            node = node.left
        else:
            node = stack.pop()
            (leaves if node.left is None and node.right is None else inner).append(node)
            node = node.right
    return leaves, inner


def xy(p):
    return (p.xd, p.yd)


def breakpoint_x(i, j, l):
    """Where the parabola of i (left) meets the parabola of j (right); call within a precise context."""
    (a, b), (c, d) = i, j
    if b == d:
        return (a + c) / 2
    if b == l:
        return a
    if d == l:
        return c
    u, v = 2 * (b - l), 2 * (d - l)
    # p_i - p_j = A x^2 + B x + C has to be increasing where i is left of j
    A = 1 / u - 1 / v
    B = -2 * (a / u - c / v)
    root = (4 * ((a - c) ** 2 + (b - d) ** 2) / (u * v)).sqrt()
    return (-B + root) / (2 * A)


def parabola(p, l, x):
    return (x - p[0]) ** 2 / (2 * (p[1] - l)) + (p[1] + l) / 2


class precise:
    """60 digits; the library itself works with 28."""

    def __enter__(self):
        self.context = localcontext()
        self.context.__enter__().prec = 60

    def __exit__(self, *args):
        return self.context.__exit__(*args)


def numbers(sites):
    return [(Decimal(str(x)), Decimal(str(y))) for x, y in sites]
