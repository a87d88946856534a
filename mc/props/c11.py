"""C11: the sweep handles every event once, in order, and has found exactly the Voronoi vertices that are due."""
from decimal import Decimal
from fractions import Fraction

from .. import ref, spaces, steps

BOUNDS = {t: steps.describe(t) + steps.describe_long() for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites",
               "sites that lie on one circle only up to rounding may be treated either way (coarse spaces)"]
FAR = 10 ** 45


def true_vertices(sites):
    """[(x, y, bottom)] of the unbounded Voronoi diagram, as Decimals."""
    box = [(-FAR, -FAR), (FAR, -FAR), (FAR, FAR), (-FAR, FAR)]
    model = ref.Model(box, sites)
    out = {}
    for i, cell in enumerate(model.cells):
        for k, (p, label) in enumerate(cell):
            if label >= 0 and cell[k - 1][1] >= 0:
                out[p] = i
    found = []
    for (x, y, w), i in out.items():
        d = w * model.den
        x, y = Decimal(x) / d, Decimal(y) / d
        sx, sy = (Decimal(v) / model.den for v in model.sites[i])
        found.append((x, y, y - ((x - sx) ** 2 + (y - sy) ** 2).sqrt()))
    return found


class Judge:
    def __init__(self, sites, coarse):
        self.raw = sites
        self.sites = steps.numbers(sites)
        self.coarse = coarse
        self.order = sorted(self.sites, key=lambda p: (-p[1], p[0]))
        self.done = 0
        self.last = None
        self.truth = None
        self.shapes = []
        xs, ys = [p[0] for p in self.sites], [p[1] for p in self.sites]
        self.size = max(max(xs) - min(xs), max(ys) - min(ys)) or Decimal(1)
        self.scale = self.size + max(abs(v) for v in xs + ys) * Decimal("1e-3")

    def key(self):
        return tuple(self.shapes)

    def slack(self, *values):
        return self.scale * Decimal("1e-8" if not self.coarse else "1e-5") + sum(abs(v) for v in values) * Decimal("1e-9")

    def step(self, subject):
        with steps.precise():
            return self._order(subject) or self._vertices(subject, False) or self._queue(subject)

    def swept(self, subject):
        with steps.precise():
            bad = self._vertices(subject, True)
            if self.done != len(self.order):
                bad.append(f"only {self.done} of {len(self.order)} site events were handled")
            if not bad and any(e.is_valid for e in self._pending(subject) if e.circle_event):
                bad.append("there are circle events left")
            return bad

    def _order(self, subject):
        bad = []
        l = Decimal(subject.sweep_line)
        if self.last is not None and l > self.last:
            bad.append(f"the sweep line moved up, from {self.last} to {l}")
        self.last = l
        event = subject.event
        if not event.circle_event:
            at = (event.xd, event.yd)
            if self.done >= len(self.order) or at != self.order[self.done]:
                bad.append(f"the site {at} was handled in place {self.done}")
            else:
                if event.point.name != self.done:
                    bad.append(f"the site that was handled in place {self.done} is named {event.point.name}")
                if l != at[1]:
                    bad.append(f"the sweep line is at {l} instead of at the site {at}")
            self.done += 1
            self.shapes.append("s")
        else:
            if abs(l - event.yd) > self.slack(event.yd, event.xd):
                bad.append(f"the sweep line is at {l} instead of at the bottom of the circle {event.yd}")
            self.shapes.append("c")
        return bad

    def _vertices(self, subject, everything):
        if self.truth is None:
            self.truth = true_vertices(self.raw)
        bad = []
        l = Decimal(subject.sweep_line)
        found = [(v.xd, v.yd) for v in subject.vertices]
        for x, y in found:
            distances = sorted((x - px) ** 2 + (y - py) ** 2 for px, py in self.sites)
            near = distances[0].sqrt()
            # how much further away the third one is
            if len(distances) < 3 or distances[2].sqrt() - near > self.slack(x, y):
                bad.append(f"({float(x)}, {float(y)}) was found, but is not equally far from the three closest sites")
        for x, y, bottom in self.truth:
            slack = self.slack(x, y)
            if everything or bottom > l + 10 * slack:
                if not any(abs(x - a) <= slack and abs(y - b) <= slack for a, b in found):
                    # flat triangles are ill conditioned: accept anything as far away
                    if self.coarse and abs(x) + abs(y) > self.scale * 1000:
                        continue
                    bad.append(f"the vertex ({float(x)}, {float(y)}) was not found")
        return bad

    @staticmethod
    def _pending(subject):
        queue = subject.event_queue
        return list(getattr(queue, "queue", queue))

    def _queue(self, subject):
        bad = []
        l = Decimal(subject.sweep_line)
        pending = self._pending(subject)
        rest = sorted(((e.xd, e.yd) for e in pending if not e.circle_event), key=lambda p: (-p[1], p[0]))
        if rest != self.order[self.done:]:
            bad.append(f"the sites {rest} are waiting instead of {self.order[self.done:]}")
        events = [e for e in pending if e.circle_event and e.is_valid]
        leaves, _ = steps.leaves_and_breakpoints(subject.status_tree)
        arcs = [steps.xy(n.get_value().origin) for n in leaves]
        triples = {}
        for k in range(1, len(arcs) - 1):
            a, b, c = arcs[k - 1:k + 2]
            turn = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
            if turn < 0:
                triples[id(leaves[k])] = (a, b, c)
        for node in leaves:
            e = node.get_value().circle_event
            triple = triples.get(id(node))
            if triple is None:
                if e is not None and e.is_valid:
                    bad.append(f"an event is waiting for an arc of {node.get_value().origin.xy} whose breakpoints do not meet")
                continue
            x, y, bottom = _circle(*triple)
            slack = self.slack(x, y)
            if not any(abs(e.xd - x) <= slack and abs(e.yd - bottom) <= 2 * slack for e in events):
                bad.append(f"no event is waiting for the arcs of {triple} that meet at ({float(x)}, {float(y)})")
        for e in events:
            if id(e.arc_pointer) not in triples:
                bad.append(f"a false alarm is waiting: {e}")
                continue
            x, y, bottom = _circle(*triples[id(e.arc_pointer)])
            slack = self.slack(x, y)
            if abs(e.xd - x) > slack or abs(e.yd - bottom) > 2 * slack or abs(e.center.yd - y) > slack:
                bad.append(f"the event {e} should be at ({float(x)}, {float(y)})")
            if e.yd > l + 2 * slack:
                bad.append(f"the event {e} is already above the sweep line")
        return bad


def _circle(a, b, c):
    ax, ay = b[0] - a[0], b[1] - a[1]
    bx, by = c[0] - a[0], c[1] - a[1]
    d = 2 * (ax * by - ay * bx)
    p, q = ax * ax + ay * ay, bx * bx + by * by
    x, y = (by * p - ay * q) / d, (ax * q - bx * p) / d
    return x + a[0], y + a[1], y + a[1] - (x * x + y * y).sqrt()


def jobs(tier):
    yield from steps.long_jobs()
    yield from steps.jobs(tier)


def work(job, out):
    steps.explore(job, out, Judge)


def replay(case):
    return steps.replay(case, Judge)
