"""C10: after every event the status tree is a balanced search tree whose inner nodes are the breakpoints between its arcs."""
import os
import sys

from .. import core, impl, steps

SHAPES = {"row": lambda k: (k, (k * k % 7) // 6), "vee": lambda k: (k, abs(2 * k % 64 - 63) * 5 + k), "slope": lambda k: (k, -3 * k),
          "back": lambda k: (-k, -k * k / 1000)}
SIZES = {"quick": (64, 2048), "thorough": (64, 6000)}
GROWTH = 2.3

BIG = ["big-noise", "big-grid", "big-row", "big-column", "wheel", "crowd"]
BOUNDS = {t: steps.describe(t, BIG) + f"; the number of lines of the library that are executed for one event of {list(SHAPES)} of {SIZES[t]} sites"
          for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites"]


class Judge:
    def __init__(self, sites, coarse):
        self.coarse = coarse
        self.shapes = []

    def key(self):
        return tuple(self.shapes)

    def swept(self, subject):
        return self.step(subject)

    def step(self, subject):
        root = subject.status_tree
        if root is None:
            return ["there is no status tree"]
        bad, seen = [], set()

        def height(node):
            if id(node) in seen:
                raise AssertionError("a node of the status tree can be reached in two ways")
            seen.add(id(node))
            left, right = node.left, node.right
            if left is None and right is None:
                if node.height != 1:
                    bad.append(f"the leaf {node.get_value()} has height {node.height}")
                return 1
            if left is None or right is None:
                bad.append(f"the inner node {node.get_value()} has only one child")
            heights = []
            for child in (left, right):
                if child is None:
                    heights.append(0)
                    continue
                if child.parent is not node:
                    bad.append(f"{child.get_value()} does not point back to its parent {node.get_value()}")
                heights.append(height(child))
            if abs(heights[0] - heights[1]) > 1:
                bad.append(f"unbalanced: heights {heights[0]} and {heights[1]} below {node.get_value()}")
            if node.height != 1 + max(heights):
                bad.append(f"{node.get_value()} has height {1 + max(heights)}, not {node.height}")
            return 1 + max(heights)

        tall = height(root)
        if root.parent is not None:
            bad.append("the root of the status tree has a parent")
        leaves, inner = steps.leaves_and_breakpoints(root)
        self.shapes.append((len(leaves), tall))
        if len(inner) != len(leaves) - 1:
            bad.append(f"{len(inner)} breakpoints between {len(leaves)} arcs")
            return bad
        for k, node in enumerate(inner):
            i, j = leaves[k].get_value().origin, leaves[k + 1].get_value().origin
            bp = node.get_value()
            if bp.breakpoint[0] is not i or bp.breakpoint[1] is not j:
                bad.append(f"the breakpoint between the arcs of {i.xy} and {j.xy} is the one of "
                           f"{bp.breakpoint[0].xy} and {bp.breakpoint[1].xy}")
                continue
            edge = bp.edge
            if edge is None or edge.twin is None or edge.twin.twin is not edge:
                bad.append(f"the breakpoint between {i.xy} and {j.xy} does not trace out an edge")
            elif edge.origin is not bp:
                bad.append(f"the edge that is traced out between {i.xy} and {j.xy} does not start at the breakpoint")
            elif edge.incident_point is not j or edge.twin.incident_point is not i:
                bad.append(f"the edge that is traced out between {i.xy} and {j.xy} is the border of other cells")
        # neighbours, as the algorithm looks them up
        for k, leaf in enumerate(leaves):
            if leaf.predecessor is not (leaves[k - 1] if k else None):
                bad.append(f"arc {k} has the wrong left neighbour")
            if leaf.successor is not (leaves[k + 1] if k + 1 < len(leaves) else None):
                bad.append(f"arc {k} has the wrong right neighbour")
        return bad


class Effort:
    """Counts the lines of the library that are executed for every event."""

    def __init__(self):
        self.count, self.counts = 0, []
        self.home = os.path.dirname(os.path.abspath(impl.foronoi.__file__)) + os.sep

    def update(self, subject, message, **kwargs):
        if message.name == "STEP_FINISHED":
            self.counts.append(self.count)
            self.count = 0
        elif message.name == "SWEEP_FINISHED":
            sys.settrace(None)

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.home):
            return None
        self.count += 1
        return self.line

    def line(self, frame, event, arg):
        self.count += 1
        return self.line


def effort(shape, n):
    sites = [SHAPES[shape](k) for k in range(n)]
    e = Effort()
    v = impl.Voronoi(impl.Polygon([(-10 ** 7, -10 ** 7), (-10 ** 7, 10 ** 7), (10 ** 7, 10 ** 7), (10 ** 7, -10 ** 7)]))
    v.attach_observer(e)
    sys.settrace(e.call)
    try:
        v.create_diagram(sites)
    finally:
        sys.settrace(None)
    # (before the first event the sites are put on the queue)
    return e.counts[1:]


def check_effort(shape, sizes):
    """A beach line of many more arcs hardly makes an event longer."""
    small, complaint = core.attempt(effort, shape, sizes[0], seconds=60)
    if complaint:
        return [complaint], 0
    large, complaint = core.attempt(effort, shape, sizes[1], seconds=300)
    if complaint:
        return [complaint], 0
    bad = []
    if max(large) > GROWTH * max(small):
        bad.append(f"{shape}: an event takes {max(small)} lines of code among {sizes[0]} sites, but {max(large)} among {sizes[1]} sites")
    return bad, len(small) + len(large)


def jobs(tier):
    for shape in SHAPES:
        yield ("effort", shape, SIZES[tier])
    yield from steps.jobs(tier, BIG)


def work(job, out):
    if job[0] == "effort":
        bad, n = check_effort(*job[1:])
        out.state(n)
        out.transition(n)
        out.trace(2)
        out.outcome(job)
        if bad:
            out.violation(dict(effort=list(job[1:])), bad, 1000)
        return
    steps.explore(job, out, Judge)


def replay(case):
    if "effort" in case:
        return check_effort(*core.listed(case["effort"]))[0]
    return steps.replay(case, Judge)
