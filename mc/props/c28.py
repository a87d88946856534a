"""C28: the library leaves the data, the settings and the process of its caller alone, and works with other settings."""
import contextlib
import copy
import decimal
import gc
import io
import itertools
import json
import locale
import logging
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import warnings
from decimal import Decimal as D

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

from .. import core, impl, oracle, ref

SITES = {
    "few": [(1.5, 4), (4, 3.5), (2.5, 1)],
    "grid": [(1, 1), (3, 1), (1, 3), (3, 3), (2, 2)],
    "outside": [(1, 1), (8, 2), (-3, 4), (2.5, 9), (2, 2.75)],
    "level": [(1, 3.25), (2, 3.25), (4, 3.25)],
    "single": [(1, 1)],
    "flat": [(1, 1), (2, 2.00000001), (3, 3), (4, 4), (4.5, 4.5001)],
    "many": [((37 * k * k + 11 * k) % 101 * 0.0625 - 0.5, (59 * k) % 97 * 0.0625 - 0.25) for k in range(16)],
}
BOX = (0, 5, 0, 5)
POLYGON = [(0, 0), (5, 0), (5, 5), (0, 5)]
CONTAINERS = ["tuples", "lists", "tuple", "array", "decimals", "whole"]
BOUNDING = ["polygon", "box", "circle"]
OPS = ["make", "create", "other", "read", "text", "figure", "tree", "observed", "steps", "fail", "inside"]
DEPTH = {"quick": 2, "thorough": 3}
PRECISION = {"quick": (28, 29, 50), "thorough": (28, 29, 34, 50, 100)}
ROUNDING = [decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN, decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_05UP]
MODES = {
    "plain": [(0.5, 1), (4, 3.25), (2.5, 4.75), (1.25, 3), (4.5, 0.75), (2.75, 2)],
    "grid": SITES["grid"],
    "thirds": [(D(1) / 3, D(2) / 3), (D(10) / 3, D(5) / 7), (D(13) / 7, D(11) / 3), (D(4), D(13) / 3), (D(9) / 7, D(16) / 7)],
    "level": [(1, 3.25), (2, 3.25), (4, 3.25), (2.5, 1)],
}
BOUNDS = {t: f"all sequences of <= {d} operations of {OPS} on diagrams of {list(SITES)} given as {CONTAINERS} in a {BOUNDING}, with everything in the process that others see compared after each; "
             f"the import in a new process; and, for {list(MODES)}, all rounding modes with the precisions {PRECISION[t]}, with and without traps" for t, d in DEPTH.items()}
ASSUMPTIONS = ["flags of the decimal context and caches of the interpreter are not settings", "a new figure closes all others", "a precision of at least 28 digits"]


def snapshot(folder, full=True):
    """Everything of the process that somebody else might depend on."""
    context = decimal.getcontext()
    matplotlib.get_backend()  # (is chosen when it is needed)

    def settings(c):
        return c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, {str(k.__name__): v for k, v in c.traps.items()}

    state = {
        "decimal context": settings(context), "default decimal context": settings(decimal.DefaultContext),
        "random numbers": random.getstate(), "random numbers of numpy": tuple(map(str, np.random.get_state(legacy=True))),
        "floating point errors of numpy": np.geterr(), "print options of numpy": {k: str(v) for k, v in np.get_printoptions().items()},
        "recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
        "threads": threading.active_count(), "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "warning filters": list(map(str, warnings.filters)),
        "path": list(sys.path), "builtins": sorted(vars(__import__("builtins"))), "logging": (logging.root.level, list(map(str, logging.root.handlers)), logging.root.manager.disable),
        "files": sorted(os.listdir(folder)), "settings of matplotlib": {k: str(v) for k, v in dict.items(matplotlib.rcParams)} if full else None,
        "trace": (sys.gettrace(), sys.getprofile()), "umask": None, "int digits": sys.get_int_max_str_digits(), "switch interval": sys.getswitchinterval(), "hook": sys.excepthook,
        "output": (sys.stdout, sys.stderr),
    }
    mask = os.umask(0)
    os.umask(mask)
    state["umask"] = mask
    return state


def given(container, name):
    sites = SITES[name]
    if container == "tuples":
        return list(POLYGON), list(sites)
    if container == "lists":
        return list(map(list, POLYGON)), list(map(list, sites))
    if container == "tuple":
        return tuple(POLYGON[::-1]), tuple(sites[::-1])
    if container == "array":
        return np.array(POLYGON, dtype=float), np.array(sites, dtype=float)
    if container == "decimals":
        return [(D(x), D(y)) for x, y in POLYGON], [[D(str(x)), D(str(y))] for x, y in sites]
    return np.array(POLYGON), [(int(x), int(y)) for x, y in sites]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.flags.writeable == b.flags.writeable and np.array_equal(a, b)
    return a == b and repr(a) == repr(b)


class Quiet(impl.foronoi.observers.observer.Observer):
    def __init__(self, act):
        self.act = act

    def update(self, subject, message, **kwargs):
        self.act(subject, message)


class Stop(Exception):
    pass


class World:
    def __init__(self, kind, container, name):
        self.kind = kind
        self.poly, self.sites = given(container, name)
        self.kept = copy.deepcopy((self.poly, self.sites))
        self.bounding = self.v = None

    def do(self, op):
        f = impl.foronoi
        if op == "make" or self.v is None:
            if self.kind == "polygon":
                self.bounding = impl.Polygon(self.poly)
            elif self.kind == "box":
                self.bounding = impl.BoundingBox(*BOX)
            else:
                from foronoi.contrib import BoundingCircle
                self.bounding = BoundingCircle(2, 2, 6)
            self.v = impl.Voronoi(self.bounding)
            self.v.create_diagram(self.sites)
        v = self.v
        if op == "create":
            v.create_diagram(self.sites)
        elif op == "other":
            impl.Voronoi(self.bounding, remove_zero_length_edges=False).create_diagram(self.sites)
        elif op == "read":
            [(s.area(), s.area(digits=1), s.xy) for s in v.sites]
            if self.kind != "circle":
                [(s.borders(), s.vertices()) for s in v.sites]
            [(h.origin, h.target, h.get_origin(), h.next, h.prev) for e in v.edges for h in (e, e.twin)]
            list(v.arcs), list(v.vertices)
        elif op == "text":
            repr([v.sites, v.edges, v.vertices, v.event])
        elif op == "figure":
            f.Visualizer(v, canvas_offset=1).plot_all().get_canvas()
        elif op == "tree":
            v.status_tree.visualize()
            f.TreeVisualizer().plot(v.status_tree)
        elif op == "observed":
            mine = [f.DebugObserver(callback=lambda t: None), f.TreeObserver(callback=lambda o, d: None), f.TreeObserver(text_based=True, callback=lambda t: None)]
            for o in mine:
                v.attach_observer(o)
            v.create_diagram(self.sites)
            for o in mine:
                v.detach_observer(o)
        elif op == "steps":
            watch = f.VoronoiObserver(visualize_before_clipping=True, callback=lambda o, figure: None)
            v.attach_observer(watch)
            v.create_diagram(self.sites)
            v.detach_observer(watch)
        elif op == "fail":
            for at in (0, 4):
                count = itertools.count()

                def act(subject, message):
                    if next(count) == at:
                        raise Stop
                eye = Quiet(act)
                v.attach_observer(eye)
                try:
                    v.create_diagram(self.sites)
                except Stop:
                    pass
                v.detach_observer(eye)
            v.create_diagram(self.sites)
        elif op == "inside":
            [self.bounding.inside(s) for s in v.sites]
            self.kind == "circle" or self.bounding.get_coordinates()


def run(kind, container, name, ops):
    world = World(kind, container, name)
    home, bad = os.getcwd(), []
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        try:
            mine, children = None, 0
            for op in ops:
                if mine is None:
                    mine = plt.figure(num=4711)
                    mine.gca().plot([0, 1], [0, 1])
                    children = len(mine.axes[0].get_children())
                out, err = io.StringIO(), io.StringIO()
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    before = snapshot(folder)
                    world.do(op)
                    after = snapshot(folder)
                bad += [f"{op!r} of {ops} changes the {k}: {str(before[k])[-120:]} becomes {str(after[k])[-120:]}" for k in before if before[k] != after[k]]
                if out.getvalue() or err.getvalue():
                    bad.append(f"{op!r} of {ops} prints {(out.getvalue() or err.getvalue())[:100]!r}")
                if op in ("figure", "steps"):
                    # a new figure takes the place of all others, and is closed here
                    plt.close("all")
                    mine = None
                elif plt.get_fignums() != [4711] or plt.gcf() is not mine or len(mine.axes) != 1 or len(mine.axes[0].get_children()) != children:
                    bad.append(f"{op!r} of {ops} makes or changes figures")
                for what, now, then in zip(("corners", "sites"), (world.poly, world.sites), world.kept):
                    if not same(now, then):
                        bad.append(f"{op!r} of {ops} changes the given {what} from {then} to {now}")
                if bad:
                    break
        finally:
            os.chdir(home)
            plt.close("all")
    return bad


def importing():
    """What the import itself changes, in a new process that has imported the same libraries before."""
    code = f"""
import sys, os, importlib.util
sys.path[:0] = [{impl.REPO!r}]
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
import abc, bisect, colorsys, contextlib, copy, decimal, enum, functools, gc, heapq, itertools, json, locale, logging, math, queue, random, signal, tempfile, threading, typing
import numpy as np, matplotlib, matplotlib.pyplot as plt, matplotlib.patches
from decimal import Decimal
try:
    import graphviz
except ImportError:
    pass
source = open({os.path.abspath(__file__)!r}).read()
scope = dict(globals())
start = source.index("def snapshot"); end = source.index("def given")
exec(source[start:end], scope)
with tempfile.TemporaryDirectory() as folder:
    os.chdir(folder)
    before = scope["snapshot"](folder)
    import foronoi, foronoi.contrib, foronoi.visualization, foronoi.observers, foronoi.tree, foronoi.nodes, foronoi.events, foronoi.graph
    after = scope["snapshot"](folder)
    os.chdir("/")
print("CHANGED", json.dumps([[k, str(before[k])[-150:], str(after[k])[-150:]] for k in before if before[k] != after[k]]))
"""
    env = dict(os.environ, MPLBACKEND="Agg")
    done = subprocess.run([sys.executable, "-B", "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    text = done.stdout.decode()
    lines = text.splitlines()
    if done.returncode or not lines:
        return [f"the import fails: {done.stderr.decode()[-200:]}"]
    bad = [f"the import changes the {k} from {a} to {b}" for k, a, b in json.loads(lines[-1].partition(" ")[2])]
    if len(lines) > 1 or done.stderr:
        bad.append(f"the import prints {text[:80]!r} {done.stderr.decode()[:80]!r}")
    return bad


def ambient(name, precision, rounding, how):
    sites = [(D(str(x)), D(str(y))) for x, y in MODES[name]]
    poly = [(0, 0), (5, 0), (6, 4), (2, 6), (-1, 3)]

    context = decimal.Context(prec=precision, rounding=rounding)
    if how == "no traps":
        context.clear_traps()
    with decimal.localcontext(context):
        v = impl.build(poly, sites)
        areas = [s.area() for s in v.sites]
    model = ref.Model(poly, sites)
    bad = oracle.everything(v, model, oracle.Tol(model))
    with decimal.localcontext(context):
        if [s.area() for s in v.sites] != areas:
            bad.append("areas that were asked for twice differ")
    return [f"with {precision} digits, {rounding}, {how}: {t}" for t in bad]


def jobs(tier):
    yield ("import",)
    for name in MODES:
        yield ("ambient", name, PRECISION[tier])
    for kind in BOUNDING:
        for container in CONTAINERS:
            for name in SITES:
                if container == "whole" and name in ("few", "many"):
                    continue  # (sites would fall on one place)
                # the longest sequences with some of the combinations only
                far = tier != "quick" or CONTAINERS.index(container) == list(SITES).index(name)
                yield ("ops", kind, container, name, DEPTH[tier] if far else DEPTH[tier] - 1)


def work(job, out):
    if job[0] == "import":
        out.state()
        bad, complaint = core.attempt(importing, seconds=60)
        bad = [complaint] if complaint else bad
        if bad:
            out.violation(dict(what="import"), bad, 0)
        return
    if job[0] == "ambient":
        for precision, rounding, how in itertools.product(job[2], ROUNDING, ("traps", "no traps")):
            bad, complaint = core.attempt(ambient, job[1], precision, rounding, how)
            bad = [complaint] if complaint else bad
            out.state()
            out.trace()
            out.transition(1)
            out.outcome((job[1], how))
            if bad:
                out.violation(dict(what="ambient", args=[job[1], precision, rounding, how]), bad, 1)
        return
    _, kind, container, name, depth = job
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            bad, complaint = core.attempt(run, kind, container, name, ops, seconds=60)
            bad = [complaint] if complaint else bad
            out.state(n)
            out.trace()
            out.transition(n)
            out.outcome((kind, ops[-1]))
            if bad:
                out.violation(dict(what="ops", args=[kind, container, name, ops]), bad, n + 1)
                if out.full:
                    return
    out.sample(dict(bounding=kind, container=container, sites=name, ops=ops))


def replay(case):
    if case["what"] == "import":
        return importing()
    return (ambient if case["what"] == "ambient" else run)(*case["args"])
