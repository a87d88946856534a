"""C27: the debug texts tell what happens, and everything that is shown as text names what it stands for."""
import re
from collections import Counter

from .. import core, diagrams, impl, ref, spaces, steps

QUICK = ["g44-box", "g44-neg", "g33-all", "g43-all", "c5-all", "hex-all", "irr-penta", "hline-all", "vline-all", "dline-all", "tworows-all", "rings-all", "arch-all", "readme-all", "sliver",
         "tri-closed", "tiny", "huge", "mega-offset", "thirds-circle", "nearly-circle-6", "giga", "pico-circle", "vast-irr", "pairs", "pairs-tight"]
DEEP = ["g44-five", "irr14", "thirds-all", "cross-six"]
assert all(n in spaces.SPACES for n in QUICK + DEEP)
LONG = [("wheel", 60), ("big-noise", 60), ("big-row", 60)]
BOUNDS = {t: "every message of the construction, for: " + spaces.describe(t, QUICK if t == "quick" else QUICK + DEEP) + "; the runs with "
             + ", ".join(f"{n} sites of {name}" for name, n in LONG) for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites", "only names, numbers and kinds in the texts are specified, not their wording"]
Message = impl.foronoi.observers.message.Message


def jobs(tier):
    for n in QUICK + (DEEP if tier != "quick" else []):
        yield from spaces.SPACES[n].jobs(tier)
    for name, n in LONG:
        yield (name, "prefix", 0, n - 1, n)


def names_in(text):
    return [int(n) for n in re.findall(r"\bP(\d+)\b", text)]


def label(site):
    return "-" if site is None else f"P{site.name}" if site.name is not None else f"({site.xd:.2f}, {site.yd:.2f})"


def named(what, text, parts):
    """The parts have to appear in the text in this order."""
    at = 0
    for p in parts:
        found = re.compile(r"(?<![\w.])" + re.escape(p) + r"(?![\w]|\.\d)").search(text, at) if p[0] != "(" else re.compile(re.escape(p)).search(text, at)
        if not found:
            return [f"the text {text!r} of {what} does not name {p}"]
        at = found.end()
    return []


class Listener(impl.foronoi.observers.observer.Observer):
    def __init__(self):
        self.texts, self.bad, self.count, self.sites = [], [], 0, 0
        self.known, self.valid, self.edges, self.over = {}, set(), None, []
        self.heard = Counter()

    def update(self, subject, message, **kwargs):
        if self.bad:
            return
        self.count += 1
        if message == Message.DEBUG:
            text = kwargs["payload"]
            if not isinstance(text, str):
                self.bad = [f"{text!r} is not a text"]
            elif "Handle" in text:
                self.bad = [f"the text {self.texts[0]!r} is followed by another event"] if self.texts else []
                self.bad += self._before(subject, text)
            self.texts.append(text)
        elif message == Message.STEP_FINISHED:
            self.bad = self._step(subject)
            self.texts = []
        elif message == Message.SWEEP_FINISHED:
            self.bad = self._end("Sweep finished") + self._shown(subject)
            self.edges, self.texts = list(subject.edges), []
        elif message == Message.VORONOI_FINISHED:
            self.bad = self._clipped(subject) + self._shown(subject)
            self.texts = []

    def _before(self, subject, text):
        # announced before it is handled: the circle events are not known yet
        new = [e for e in subject.event_queue.queue if e.circle_event and id(e) not in self.known]
        return [f"{text!r} comes after {new[0]} entered the queue"] if new else []

    def _end(self, what):
        if len(self.texts) != 1 or what not in self.texts[0]:
            return [f"the texts before the message are {self.texts}"]
        self.over.append(what)
        return []

    def _step(self, subject):
        event = subject.event
        told = [t for t in self.texts if "Handle" in t]
        if len(told) != 1 or self.texts[0] != told[0]:
            return [f"{event} is announced by {told}"]
        text = told[0]
        if event.circle_event:
            self.heard["circle"] += 1
            bad = named("the event", text, ["circle", f"{event.yd:.3f}", f"({event.center.xd:.2f}, {event.center.yd:.2f})"] + [label(s) for s in event.point_triple])
        else:
            self.heard["site"] += 1
            bad = named("the event", text, ["site", f"{event.yd:.3f}", label(event.point)])
            if event.point.name != self.sites:
                bad.append(f"the site {event.point.xy} has the name {event.point.name} instead of {self.sites}")
            self.sites += 1
        if bad:
            return bad
        pending = [e for e in subject.event_queue.queue if e.circle_event]
        new = [e for e in pending if id(e) not in self.known]
        by_name = {s.name: s for s in subject.sites if s.name is not None}
        created = []
        for t in self.texts[1:]:
            if "created" in t:
                created.append(t)
            elif "removed" in t:
                if not any(str(e.yd) in t and not e.is_valid for e in self.known.values()):
                    return [f"{t!r}, but there is no such event that was removed"]
            elif "clockwise" in t:
                triple = names_in(t)
                if len(triple) != 3 or ref_turn(*[by_name[n] for n in triple]) < 0:
                    return [f"{t!r}, but they are"]
            else:
                return [f"{t!r} is unknown"]
            self.heard[re.sub(r"[^a-z ]", "", t.lower())[:12]] += 1
        for e in new:
            if not any(str(e.yd) in t and names_in(t) == [s.name for s in e.point_triple] for t in created):
                return [f"nothing was said about {e}"]
        for t in created:
            triple = names_in(t)
            if len(triple) != 3 or ref_turn(*[by_name[n] for n in triple]) > 0 or not any(str(e.yd) in t for e in new):
                return [f"{t!r} is not about one of {new}"]
        gone = [e for e in self.known.values() if e is not event and id(e) in self.valid and not e.is_valid]
        for e in gone if event.circle_event else []:
            if not any("removed" in t and str(e.yd) in t for t in self.texts):
                return [f"nothing was said about the removal of {e}"]
        for e in new:
            self.known[id(e)] = e
        self.valid = {i for i, e in self.known.items() if e.is_valid}
        return self._shown(subject)

    def _clipped(self, subject):
        left = {id(e) for e in subject.edges}
        lost = Counter(tuple(sorted((label(e.incident_point), label(e.twin.incident_point)))) for e in self.edges if id(e) not in left and id(e.twin) not in left)
        told = Counter()
        for t in self.texts[:-1]:
            n = names_in(t)
            if "deleted" not in t or len(n) != 4 or n[:2] != n[:1:-1]:
                return [f"{t!r} was said about the clipping"]
            told[tuple(sorted(f"P{i}" for i in n[:2]))] += 1
            self.heard["deleted"] += 1
        if told != lost:
            return [f"edges lost: {dict(lost)}, but the texts tell of {dict(told)}"]
        self.texts = self.texts[-1:]
        return self._end("Voronoi finished")

    def _shown(self, subject):
        for e in subject.edges:
            for h in (e, e.twin):
                bad = named("a half-edge", repr(h), [label(h.incident_point), label(h.twin.incident_point)] if h.incident_point else [label(h.twin.incident_point)])
                if bad:
                    return bad
        for v in subject.vertices:
            if v.xd is not None and not (f"{v.xd:.2f}" in repr(v) and f"{v.yd:.2f}" in repr(v)):
                return [f"the vertex at {v.xy} is shown as {v}"]
        for s in subject.sites:
            if label(s) not in repr(s):
                return [f"the site {s.xy}, {s.name} is shown as {s}"]
        for e in subject.event_queue.queue:
            bad = named("an event", repr(e), [label(s) for s in e.point_triple] + [f"{e.yd:.2f}"]) if e.circle_event else named("an event", repr(e), [str(e.point.xd), str(e.point.yd)])
            if bad:
                return bad
        leaves, inner = steps.leaves_and_breakpoints(subject.status_tree)
        for node, site in [(n, [n.data.origin]) for n in leaves] + [(n, n.data.breakpoint) for n in inner]:
            for text in (repr(node.data), node.get_label()):
                if [int(k) for k in re.findall(r"\d+", text)] != [s.name for s in site]:
                    return [f"the node of {site} is shown as {text!r}"]
        text = repr(subject.status_tree)
        if [int(k) for k in re.findall(r"Arc\D*(\d+)", text)] != [n.data.origin.name for n in leaves] or text.count("Breakpoint") != len(inner):
            return [f"the status tree with the arcs {[n.data for n in leaves]} is shown as {text}"]
        return []


def ref_turn(a, b, c):
    (ax, ay), (bx, by), (cx, cy) = [(ref.exact(s.xd), ref.exact(s.yd)) for s in (a, b, c)]
    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)


def check(poly, sites):
    listener = Listener()

    def run():
        v = impl.Voronoi(impl.Polygon(poly), remove_zero_length_edges=False)
        v.attach_observer(listener)
        v.create_diagram(sites)

    _, complaint = core.attempt(run, seconds=core.allowance(len(sites), 1))
    bad = listener.bad or ([complaint] if complaint else [])
    if not bad and (listener.over != ["Sweep finished", "Voronoi finished"] or listener.sites != len(sites)):
        bad = [f"{listener.sites} sites of {len(sites)} were announced, and {listener.over}"]
    return bad, listener


def work(job, out):
    space = spaces.SPACES[job[0]]
    sites = None
    for indices in space.walk(job):
        sites = space.sites(indices)
        bad, listener = check(space.poly, sites)
        out.state(listener.count)
        out.transition(listener.count)
        out.trace()
        out.outcome(tuple(sorted(listener.heard.items())))
        if bad:
            out.violation(diagrams.case_of(space, sites), bad, size=len(sites))
        if out.full:
            return
    if sites is not None:
        out.sample(dict(space=space.name, sites=[(float(x), float(y)) for x, y in sites]))


def replay(case):
    return check(diagrams.decode(case["polygon"]), diagrams.decode(case["sites"]))[0]
