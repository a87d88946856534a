"""C29: what is dropped is freed, and using objects again and again does not pile anything up."""
import gc
import itertools
from collections import Counter, deque

import matplotlib.pyplot as plt

from .. import core
from . import c28

OPS = ["make", "create", "other", "read", "text", "figure", "tree", "observed", "steps", "fail", "inside", "attach", "detach", "third"]
DEPTH = {"quick": 2, "thorough": 3}
CASES = [(kind, "tuples", name) for kind in c28.BOUNDING for name in ("grid", "outside", "single")]
LARGE = [("polygon", "tuples", "many"), ("box", "decimals", "level"), ("circle", "array", "flat")]
BOUNDS = {t: f"all sequences of <= {d} operations of {OPS} for {CASES}, and single ones for {LARGE}: the objects that are left after everything was dropped; the objects "
             "that are there after a sequence was repeated two and four times on the same objects, and with a polygon that is used by diagrams that are dropped" for t, d in DEPTH.items()}
ASSUMPTIONS = ["the garbage collector of Python is asked to run", "only objects of the library count"]


def alive():
    gc.collect()
    found = Counter()
    for o in gc.get_objects():
        kind = type(o)
        if getattr(kind, "__module__", "").startswith("foronoi"):
            found[kind.__name__] += 1
    return found


def weight(*roots):
    """The number of entries of everything that can be reached."""
    seen, stack, total = set(), list(roots), 0
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        kind = type(o)
        if isinstance(o, dict):
            inner = list(o.keys()) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, deque)):
            inner = list(o)
        elif kind.__module__.startswith(("foronoi", "queue")) and hasattr(o, "__dict__"):
            inner = [vars(o)]
        else:
            continue
        seen.add(id(o))
        keep.append(o)
        total += len(inner)
        stack += inner
    del keep[:]
    return total


keep = []   # (so that no identity is used twice)


class World(c28.World):
    """Everything that a user holds on to; `keeper` stays attached."""

    def do(self, op):
        if op == "attach":
            if self.v is None:
                super().do("make")
            self.keeper = c28.Quiet(_nothing)
            self.v.attach_observer(self.keeper)
            self.v.create_diagram(self.sites)
            self.v.detach_observer(self.keeper)
        elif op == "detach":
            if self.v is None:
                super().do("make")
            watch = c28.Quiet(_nothing)
            for _ in range(2):
                self.v.attach_observer(watch)
                self.v.detach_observer(watch)
        elif op == "third":
            # another diagram object with the same bounding, and one that is never run
            if self.v is None:
                super().do("make")
            other = c28.impl.Voronoi(self.bounding)
            other.attach_observer(c28.Quiet(_nothing))
            c28.impl.Voronoi(self.bounding).create_diagram(self.sites)
            other.create_diagram(self.sites)
        else:
            super().do(op)
            if op in ("figure", "steps"):
                plt.close("all")


def _nothing(subject, message):
    pass


def run(kind, container, name, ops):
    before = alive()
    world = World(kind, container, name)
    for op in ops:
        world.do(op)
    counts, weights = [], []
    for _ in range(2):
        for op in ops:
            world.do(op)
        for op in ops:
            world.do(op)
        counts.append(alive() - before)
        weights.append(weight(world.v, world.bounding))
    bad = []
    more = counts[1] - counts[0]
    if more:
        bad.append(f"after {ops} was repeated twice more there are more objects: {dict(more)}")
    if weights[0] != weights[1]:
        bad.append(f"after {ops} was repeated twice more the diagram and the bounding hold {weights[1]} entries instead of {weights[0]}")
    del world
    left = alive() - before
    if left:
        bad.append(f"after {ops} and dropping everything these objects are left: {dict(left)}")
    return bad


def jobs(tier):
    for case in CASES:
        for op in OPS:
            yield ("ops", *case, op, DEPTH[tier])
    for case in LARGE:
        for op in OPS:
            yield ("ops", *case, op, 1)


def work(job, out):
    _, kind, container, name, first, depth = job
    gc.collect()
    gc.freeze()   # what is there already is not looked at again
    ops = ()
    for n in range(depth):
        for rest in itertools.product(OPS, repeat=n):
            ops = (first,) + rest
            bad, complaint = core.attempt(run, kind, container, name, ops, seconds=60)
            bad = [complaint] if complaint else bad
            out.state(len(ops))
            out.trace()
            out.transition(5 * len(ops))
            out.outcome((kind, ops[-1]))
            if bad:
                out.violation(dict(args=[kind, container, name, ops]), bad, len(ops))
                if out.full:
                    return
    out.sample(dict(bounding=kind, sites=name, ops=ops))


def replay(case):
    run(*case["args"])
    return run(*case["args"])
