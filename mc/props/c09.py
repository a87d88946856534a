"""C09: after every event the beach line is the lower envelope of the parabolas of the sites swept so far."""
from decimal import Decimal

from .. import spaces, steps

BOUNDS = {t: steps.describe(t, spaces.REMOTE) + steps.describe_long() for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites", "arcs narrower than 1e-7 of the extent of the sites are only checked for their order"]


class Judge:
    def __init__(self, sites, coarse):
        given = steps.numbers(sites)
        self.origin = given[0]
        with steps.precise():
            self.sites = [self.here(p) for p in given]
        self.coarse = coarse
        self.shapes = []
        xs, ys = [p[0] for p in self.sites], [p[1] for p in self.sites]
        self.size = max(max(xs) - min(xs), max(ys) - min(ys)) or Decimal(1)
        self.scale = self.size * Decimal("1e-3") + max(abs(v) for v in xs + ys) * Decimal("1e-9")

    def here(self, p):
        """Seen from the first site."""
        return p[0] - self.origin[0], p[1] - self.origin[1]

    def key(self):
        return tuple(self.shapes)

    def step(self, subject):
        with steps.precise():
            return self._step(subject)

    def swept(self, subject):
        return []

    def _step(self, subject):
        l = Decimal(subject.sweep_line) - self.origin[1]
        if not l.is_finite():
            return [f"the sweep line is at {l}"]
        leaves, inner = steps.leaves_and_breakpoints(subject.status_tree)
        arcs = [self.here(steps.xy(n.get_value().origin)) for n in leaves]
        self.shapes.append(len(arcs))
        bad = []
        event = subject.event
        swept = {p for p in self.sites if p[1] > l}
        at_line = [p for p in self.sites if p[1] == l]
        if not event.circle_event:
            # sites on the sweep line are swept from left to right
            swept |= {p for p in at_line if p[0] <= event.xd - self.origin[0]}
        else:
            # circle events and site events at the same height may come in any order
            swept |= {p for p in at_line if p in arcs}
        missing = swept - set(arcs)
        strange = set(arcs) - swept
        if strange:
            bad.append(f"the beach line has arcs of sites that were not swept yet: {_show(strange)}")
            return bad

        xs = [steps.breakpoint_x(arcs[k], arcs[k + 1], l) for k in range(len(arcs) - 1)]
        tol = self.scale * Decimal("1e-6")
        for k in range(len(xs) - 1):
            slack = tol + abs(xs[k]) * Decimal("1e-9")
            if xs[k] > xs[k + 1] + slack:
                bad.append(f"arc {k + 1} of {_show(arcs)} has a negative width: from x={float(xs[k])} to x={float(xs[k + 1])}")
        if bad:
            return bad

        open_sites = [p for p in swept if p[1] > l]
        for p in at_line:
            # a site on the sweep line is a vertical ray: an arc without width at its own x
            for k, q in enumerate(arcs):
                if q == p and open_sites:
                    for x in xs[max(0, k - 1):k + 1]:
                        if abs(x - p[0]) > tol:
                            bad.append(f"the new arc of {_show([p])} is not at its x-coordinate but at {float(x)}")
        if not open_sites:
            if any(a[0] >= b[0] for a, b in zip(arcs, arcs[1:])) or missing:
                bad.append(f"sites at the same height are not in order: {_show(arcs)}")
            return bad

        wide = set()
        for k, p in enumerate(arcs):
            left = xs[k - 1] if k > 0 else None
            right = xs[k] if k < len(xs) else None
            narrow = left is not None and right is not None and \
                right - left <= 100 * tol + (abs(left) + abs(right)) * Decimal("1e-7")
            if narrow:
                continue
            if p[1] == l:
                bad.append(f"the site {_show([p])} on the sweep line has an arc from {left} to {right}")
                continue
            wide.add(p)
            for q in open_sites:
                if q != p:
                    bad += self._below(p, q, l, left, right)
            if bad:
                return bad
        # a site without an arc is nowhere below all the others; the checks above establish this, because the arcs
        # that are there cover the whole line and are the lowest everywhere
        if (set(at_line) & missing):
            bad.append(f"no arc for the sites {_show(set(at_line) & missing)} on the sweep line")
        # arcs without any width are only there while their event is due
        for k, node in enumerate(leaves):
            if arcs[k] in wide or arcs[k][1] == l or self.coarse:
                continue
            left, right = (xs[k - 1] if k else None), (xs[k] if k < len(xs) else None)
            if left is None or right is None:
                continue
            if right - left <= self.size * Decimal("1e-12") + (abs(left) + abs(right)) * Decimal("1e-16"):
                # its own event, or the event of a neighbour that vanishes at the same point and brings this one up again
                if not any(self._due(leaves[n], l, left) for n in (k, k - 1, k + 1) if 0 <= n < len(leaves)):
                    bad.append(f"arc {k} of {_show(arcs)} has vanished at x={float(left)}, but is not going to be removed")
        return bad

    def _due(self, node, l, x):
        due = node.get_value().circle_event
        return due is not None and due.is_valid and \
            abs(due.yd - self.origin[1] - l) <= self.size * Decimal("1e-9") + abs(l) * Decimal("1e-12") and \
            abs(due.xd - self.origin[0] - x) <= self.size * Decimal("1e-6") + abs(x) * Decimal("1e-9")

    def _below(self, p, q, l, left, right):
        """Complains where the parabola of p rises above the one of q between left and right."""
        u, v = 2 * (p[1] - l), 2 * (q[1] - l)
        A, B = 1 / v - 1 / u, -2 * (q[0] / v - p[0] / u)
        at = []
        if A > 0:
            at.append(-B / (2 * A))  # where q - p is the smallest
        elif A < 0:
            if left is None or right is None:
                return [f"the outer arc of {_show([p])} is above the parabola of {_show([q])}"]
        elif (left is None and B > 0) or (right is None and B < 0):
            return [f"the outer arc of {_show([p])} is above the parabola of {_show([q])}"]
        # a little aside, so that a parabola that is hardly wider than a line does not matter
        tol = self.scale * Decimal("1e-6")
        places = [((x - tol - abs(x) * Decimal("1e-12"), x + tol + abs(x) * Decimal("1e-12"))) for x in at
                  if (left is None or x > left) and (right is None or x < right)]
        if left is not None:
            places.append((left + tol + abs(left) * Decimal("1e-12"),))
        if right is not None:
            places.append((right - tol - abs(right) * Decimal("1e-12"),))
        for place in places:
            over = []
            for x in place:
                yp, yq = steps.parabola(p, l, x), steps.parabola(q, l, x)
                # the slopes tell what an error in x means for y
                steep = 1 + abs((x - p[0]) / (p[1] - l)) + abs((x - q[0]) / (q[1] - l))
                slack = (self.scale * Decimal("1e-6") + abs(x) * Decimal("1e-9") + abs(yq) * Decimal("1e-9")) * steep
                if yp > yq + slack:
                    over.append(f"at x={float(x)} the arc of {_show([p])} is at y={float(yp)}, above the parabola of {_show([q])} "
                                f"at y={float(yq)}")
            if len(over) == len(place):
                return over[:1]
        return []


def _show(points):
    return ", ".join(f"({float(x):g}, {float(y):g})" for x, y in points)


def jobs(tier):
    yield from steps.long_jobs()
    yield from steps.jobs(tier, spaces.REMOTE)


def work(job, out):
    steps.explore(job, out, Judge)


def replay(case):
    return steps.replay(case, Judge)
