"""C12: every attached observer gets every message exactly once and in order, and nobody else gets any."""
import itertools

from .. import core, impl, ref

Message = impl.foronoi.observers.message.Message
OPS = ["+A", "+B", "-A", "-B", "run1", "run2"]
MORE = OPS + ["+C", "-C"]
SITES = {
    "run1": [(1, 1), (3, 2), (2, 4)],
    "run2": [(1, 4), (4, 4), (2.5, 1), (2.5, 3.5)],
}
POLYGON = [(0, 0), (5, 0), (5, 5), (0, 5)]
CROWD = 9
SHARED, SHARED_PARTS = {"quick": 4, "thorough": 6}, 32
DEPTH = {"quick": (4, 3), "thorough": (6, 4)}
BOUNDS = {t: f"all sequences of <= {a} operations of {OPS} with plain observers, and of <= {b} operations followed by a run with "
             "an observer that detaches itself, detaches the other or attaches the other at its k-th message, for every k; all sequences of one less "
             f"operation out of {MORE}; {CROWD} observers, every one of them detached (and one of them twice) or detaching itself or its neighbours at a message; "
             f"{23} constellations in which an observer raises at its k-th message, for every k, followed by further runs; "
             "three observers attached in all ways up to three times and detached in all orders, which are plain, equal, unequal to themselves, false or callable, "
             "and answer a message in eleven ways"
          for t, (a, b) in DEPTH.items()}
ASSUMPTIONS = ["a bounding polygon is used by one run at a time",
               "whether an observer that is attached or detached by another observer during a message still gets this very message "
               "is left open"]


def transcript(run):
    """What is broadcast during a run, as seen by a single observer; its shape is checked against the model."""
    log = []

    class Recorder(impl.foronoi.observers.observer.Observer):
        def update(self, subject, message, **kwargs):
            log.append((message, kwargs.get("payload")))

    v = impl.Voronoi(impl.Polygon(POLYGON))
    v.attach_observer(Recorder())
    v.create_diagram(SITES[run])
    return log


def expected_milestones(run):
    far = 10 ** 40
    model = ref.Model([(-far, -far), (far, -far), (far, far), (-far, far)], SITES[run])
    inner = {p for cell in model.cells for k, (p, label) in enumerate(cell) if label >= 0 and cell[k - 1][1] >= 0}
    steps = len(SITES[run]) + len(inner)
    return [Message.STEP_FINISHED] * steps + [Message.SWEEP_FINISHED, Message.VORONOI_FINISHED]


class Actor(impl.foronoi.observers.observer.Observer):
    def __init__(self, name, world, deed=None, at=None):
        self.name, self.world, self.deed, self.at = name, world, deed, at
        self.log = []

    def update(self, subject, message, **kwargs):
        mine = len(self.log)
        self.log.append((message, kwargs.get("payload"), subject is self.world.v, sorted(kwargs)))
        if self.deed and mine == self.at:
            other = self.world.actors["B" if self.name == "A" else "A"]
            if self.deed == "detach self":
                subject.detach_observer(self)
            elif self.deed == "detach other":
                if other in subject.get_observers():
                    subject.detach_observer(other)
            elif self.deed == "attach other":
                subject.attach_observer(other)


class World:
    def __init__(self, deed=None, at=None):
        self.v = impl.Voronoi(impl.Polygon(POLYGON))
        self.actors = {"A": Actor("A", self, deed, at), "B": Actor("B", self), "C": Actor("C", self)}

    def do(self, op):
        if op[0] == "+":
            self.v.attach_observer(self.actors[op[1]])
        elif op[0] == "-":
            self.v.detach_observer(self.actors[op[1]])
        else:
            self.v.create_diagram(SITES[op])


def model(ops, deed, at, scripts, late_removed, late_added):
    """The logs that A and B should have after the operations."""
    members, logs = [], {"A": [], "B": [], "C": []}
    for op in ops:
        if op[0] == "+":
            members.append(op[1])
        elif op[0] == "-":
            members.remove(op[1])
        else:
            for message in scripts[op]:
                queue = list(members)
                k = 0
                while k < len(queue):
                    name = queue[k]
                    k += 1
                    if name not in members and not late_removed:
                        continue
                    mine = len(logs[name])
                    logs[name].append(message)
                    if name == "A" and deed and mine == at:
                        if deed == "detach self":
                            members.remove("A")
                        elif deed == "detach other" and "B" in members:
                            members.remove("B")
                        elif deed == "attach other":
                            members.append("B")
                            if late_added:
                                queue.append("B")
    return logs, members


def legal(ops):
    members = []
    for op in ops:
        if op[0] == "+":
            members.append(op[1])
        elif op[0] == "-":
            if op[1] not in members:
                return False
            members.remove(op[1])
    return True


def check(ops, deed, at, scripts):
    world = World(deed, at)

    def run():
        for op in ops:
            world.do(op)
            # what is attached must be what the operations say, also in between
        return None

    _, complaint = core.attempt(run)
    if complaint:
        return [complaint], None
    candidates = [model(ops, deed, at, scripts, r, a) for r in (True, False) for a in (False, True)]
    actual = {n: [(m, p) for m, p, _, _ in actor.log] for n, actor in world.actors.items()}
    bad = []
    if not any(actual == logs for logs, _ in candidates):
        want = candidates[0][0]
        for n in actual:
            if actual[n] != want[n]:
                bad.append(f"observer {n} got {_show(actual[n])} instead of {_show(want[n])}")
    names = [next((n for n, a in world.actors.items() if a is o), "?") for o in world.v.get_observers()]
    if not any(sorted(names) == sorted(m) for _, m in candidates):
        bad.append(f"the observers are {names} instead of {candidates[0][1]}")
    for n, actor in world.actors.items():
        for m, p, same, keys in actor.log:
            if not same:
                bad.append(f"observer {n} got a message {m.name} that was not sent by the diagram it observes")
                break
            if m is Message.DEBUG and not isinstance(p, str):
                bad.append(f"observer {n} got a debug message without text")
                break
    return bad, {n: len(a) for n, a in actual.items()}


def check_crowd(k, other, at, scripts):
    """Many observers; the k-th and another one are detached, before a run or by the k-th itself at its message number `at`."""
    logs = [[] for _ in range(CROWD)]
    v = impl.Voronoi(impl.Polygon(POLYGON))

    class Member(impl.foronoi.observers.observer.Observer):
        def __init__(self, number):
            self.number = number

        def update(self, subject, message, **kwargs):
            logs[self.number].append((message, kwargs.get("payload")))
            if self.number == k and len(logs[k]) - 1 == at:
                leave()

    members = [Member(n) for n in range(CROWD)]

    def leave():
        for n in {k, other}:
            v.detach_observer(members[n])

    def run():
        for m in members:
            v.attach_observer(m)
        if at is None:
            leave()
        v.create_diagram(SITES["run1"])
        v.create_diagram(SITES["run2"])

    _, complaint = core.attempt(run)
    if complaint:
        return [f"{CROWD} observers: {complaint}"]
    script = scripts["run1"] + scripts["run2"]
    bad = []
    for n in range(CROWD):
        stay = 0 if at is None else at + 1
        want = [script] if n not in (k, other) else [script[:stay], script[:stay - 1] if n == other != k and stay else script[:stay]]
        if logs[n] not in want:
            bad.append(f"observer {n} of {CROWD} got {len(logs[n])} messages instead of {len(want[0])}, {k} and {other} left after message {at}")
    return bad


class Fault(Exception):
    pass


def check_fault(order, run, at, later, scripts):
    """The first message number `at` that A gets makes it raise; what comes later is as if nothing had happened."""
    world = World()
    bad = []
    armed = []
    actor = world.actors["A"]
    listen = actor.update

    def update(subject, message, **kwargs):
        listen(subject, message, **kwargs)
        if armed and len(actor.log) - 1 == at:
            raise Fault

    actor.update = update
    try:
        for name in order:
            world.do("+" + name)
        armed.append(True)
        try:
            world.do(run)
            bad.append(f"an exception of an observer at message {at} is not heard of")
        except Fault:
            pass
        del armed[:]
        for n, a in world.actors.items():
            got, script = [(m, p) for m, p, _, _ in a.log], scripts[run]
            if n not in order and got or n == "A" and got != script[:at + 1] or n in order and got not in (script[:at], script[:at + 1]):
                bad.append(f"observer {n} got {_show(got)} until A raised at message {at}")
            del a.log[:]
        members = list(order)
        for op in later:
            world.do(op)
            if op[0] in "+-":
                (members.append if op[0] == "+" else members.remove)(op[1])
                continue
            for n, a in world.actors.items():
                got = [(m, p) for m, p, _, _ in a.log]
                if got != scripts[op] * members.count(n):
                    bad.append(f"after a run in which A raised at message {at}, observer {n} got {_show(got)} of {op} instead of {_show(scripts[op])}")
                del a.log[:]
    except Exception as e:
        bad.append(f"{type(e).__name__}: {e}")
    return bad


class Side:
    """One of two diagram objects that share a polygon."""

    def __init__(self, polygon):
        self.v = impl.Voronoi(polygon)
        self.actors = {}


def check_shared(ops, scripts):
    """ops: (diagram object, "+" / "-" / sites): two objects with an observer each, both with the same polygon."""
    polygon = impl.Polygon(POLYGON)
    sides = [Side(polygon), Side(polygon)]
    actors = [Actor("A", sides[0]), Actor("B", sides[1])]
    want, members = [[], []], [0, 0]
    bad = []

    def run():
        for k, op in ops:
            if op == "+":
                sides[k].v.attach_observer(actors[k])
                members[k] += 1
            elif op == "-":
                sides[k].v.detach_observer(actors[k])
                members[k] -= 1
            else:
                sides[k].v.create_diagram(SITES[op])
                if members[k]:
                    want[k] += scripts[op]

    _, complaint = core.attempt(run)
    if complaint:
        return [complaint]
    for k, actor in enumerate(actors):
        got = [(m, p) for m, p, _, _ in actor.log]
        if got != want[k]:
            bad.append(f"the observer of diagram {k + 1} of two with the same polygon got {_show(got)} instead of {_show(want[k])}")
        if not all(same for _, _, same, _ in actor.log):
            bad.append(f"the observer of diagram {k + 1} got a message of the other one")
    return bad


def shared_sequences(depth):
    """All sequences that end with a run, in which an observer is attached at most once at a time."""
    moves = [(k, op) for k in (0, 1) for op in ("+", "-", "run1", "run2")]

    def grow(ops, attached):
        if ops and ops[-1][1].startswith("run"):
            yield ops
        if len(ops) < depth:
            for k, op in moves:
                if op == "+" and not attached[k] or op == "-" and attached[k] or op.startswith("run"):
                    yield from grow(ops + ((k, op),), tuple((op == "+") if j == k and op in "+-" else a for j, a in enumerate(attached)))

    return grow((), (False, False))


class Equal(impl.foronoi.observers.observer.Observer):
    """Observers that all compare equal, so they cannot be told apart but by identity."""
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, Equal)


class Same(Equal):
    def __hash__(self):
        return 1


class Unlike(impl.foronoi.observers.observer.Observer):
    """An observer that is not even equal to itself."""
    __hash__ = None

    def __eq__(self, other):
        return False


class Empty(impl.foronoi.observers.observer.Observer):
    """False in a condition."""

    def __bool__(self):
        return False


class Called(impl.foronoi.observers.observer.Observer):
    def __call__(self, *args, **kwargs):
        raise Fault


NATURES = {"plain": impl.foronoi.observers.observer.Observer, "equal": Equal, "equal, with a hash": Same, "not equal to itself": Unlike,
           "false": Empty, "callable": Called}
ANSWERS = {"None": lambda me, subject: None, "True": lambda me, subject: True, "False": lambda me, subject: False, "0": lambda me, subject: 0,
           "1": lambda me, subject: 1, "text": lambda me, subject: "stop", "itself": lambda me, subject: me,
           "the diagram": lambda me, subject: subject, "an exception": lambda me, subject: StopIteration,
           "a list": lambda me, subject: [me], "a message": lambda me, subject: Message.VORONOI_FINISHED}
MANNERS = [(nature, "None") for nature in NATURES] + [("plain", answer) for answer in ANSWERS if answer != "None"] + [
    ("equal", "True"), ("equal", "False"), ("false", "itself")]
MEMBERS = [m for n in (1, 2, 3) for m in itertools.product(range(3), repeat=n)]


def check_manner(nature, answer, members, leaving, scripts):
    """Observers 0 to 2, attached as listed; what they are and what they answer makes no difference."""
    logs = [[] for _ in range(3)]

    class Member(NATURES[nature]):
        def __init__(self, number):
            self.number = number

        def update(self, subject, message, **kwargs):
            logs[self.number].append((message, kwargs.get("payload")))
            return ANSWERS[answer](self, subject)

    v = impl.Voronoi(impl.Polygon(POLYGON))
    crew = [Member(k) for k in range(3)]
    bad = []

    def listen(when, run, present):
        v.create_diagram(SITES[run])
        for k in range(3):
            # who is attached several times gets each message as often before the next one comes
            want = [m for m in scripts[run] for _ in range(present.count(k))]
            if logs[k] != want:
                bad.append(f"observer {k} of {list(members)} ({nature}, answering {answer}) got {_show(logs[k])} instead of {_show(want)} {when}")
            del logs[k][:]
        if sorted(o.number for o in v.get_observers()) != sorted(present):
            bad.append(f"the observers are {[o.number for o in v.get_observers()]} instead of {present} {when}")

    def run():
        for k in members:
            v.attach_observer(crew[k])
        listen("to begin with", "run1", list(members))
        rest = list(members)
        for k in leaving:
            v.detach_observer(crew[k])
            rest.remove(k)
        listen(f"when {list(leaving)} had left", "run2", rest)
        for k in leaving[:1]:
            v.attach_observer(crew[k])
            listen(f"when {k} was back", "run1", rest + [k])

    _, complaint = core.attempt(run)
    return bad + ([f"observers {list(members)} ({nature}, answering {answer}): {complaint}"] if complaint else [])


def leavings(members):
    found = [()]
    for n in range(1, len(members) + 1):
        found += sorted(set(itertools.permutations(members, n)))
    return found


FAULTS = [(order, later) for order in ("A", "AB", "BA", "BAC")
          for later in (("run1",), ("run2",), ("-A", "run2"), ("-A", "+A", "run1"), ("run2", "run1")) ]
FAULTS += [("A", ("+C", "run2")), ("AB", ("-B", "run1")), ("AB", ("-A", "-B", "run1", "+B", "run2"))]


def _show(log):
    return f"{len(log)} messages " + "".join(m.name[1] for m, _ in log)


def jobs(tier):
    plain, deeds = DEPTH[tier]
    yield ("transcript",)
    for first in OPS:
        for second in OPS:
            yield ("plain", plain, (first, second))
    for first in MORE:
        for second in MORE:
            if "C" in first + second:
                yield ("more", plain - 1, (first, second))
    yield ("plain", 1, ())
    for part in range(SHARED_PARTS):
        yield ("shared", SHARED[tier], part)
    for k in range(CROWD):
        yield ("crowd", k)
    for nature, answer in MANNERS:
        yield ("manner", nature, answer)
    for run in ("run1", "run2"):
        for first in range(0, 60, 6):
            yield ("fault", run, first)
        for deed in ("detach self", "detach other", "attach other"):
            for at in range(0, 60):
                yield ("deed", deeds, run, deed, at)


def work(job, out):
    scripts, complaint = core.attempt(lambda: {r: transcript(r) for r in ("run1", "run2")})
    if complaint:
        out.violation(dict(ops=["+A", "run1"], deed=None, at=None), [complaint])
        return
    if job[0] == "transcript":
        for r in scripts:
            out.state()
            out.trace()
            milestones = [m for m, _ in scripts[r] if m is not Message.DEBUG]
            want = expected_milestones(r)
            out.outcome((r, len(scripts[r])))
            if milestones != want:
                out.violation(dict(ops=["transcript", r], deed=None, at=None),
                              [f"the messages of a run are {[m.name for m in milestones]} instead of {[m.name for m in want]}"])
        return
    if job[0] == "crowd":
        for other in range(CROWD):
            for at in (None, 0, 3, 10):
                bad = check_crowd(job[1], other, at, scripts)
                out.state()
                out.transition(CROWD)
                out.trace()
                out.outcome(("crowd", job[1], other, at))
                if bad:
                    out.violation(dict(ops=["crowd", job[1], other], deed=None, at=at), bad, 100)
        return
    if job[0] == "manner":
        for members in MEMBERS:
            for leaving in leavings(members):
                bad = check_manner(job[1], job[2], members, leaving, scripts)
                out.state()
                out.transition(len(members) + len(leaving) + 2)
                out.trace()
                out.outcome(("manner",) + job[1:] + (members, leaving))
                if bad:
                    out.violation(dict(ops=["manner", *job[1:], members, leaving], deed=None, at=None), bad, len(members) + len(leaving))
        return
    if job[0] == "shared":
        for ops in itertools.islice(shared_sequences(job[1]), job[2], None, SHARED_PARTS):
            bad = check_shared(ops, scripts)
            out.state()
            out.transition(len(ops))
            out.trace()
            out.outcome(("shared", ops))
            if bad:
                out.violation(dict(ops=["shared", [list(op) for op in ops]], deed=None, at=None), bad, len(ops))
        return
    if job[0] == "fault":
        for at in range(job[2], min(job[2] + 6, len(scripts[job[1]]))):
            for order, later in FAULTS:
                bad = check_fault(order, job[1], at, later, scripts)
                out.state()
                out.transition(len(order) + len(later) + 1)
                out.trace()
                out.outcome(("fault", order, later, at))
                if bad:
                    out.violation(dict(ops=["fault", order, job[1], list(later)], deed=None, at=at), bad, 100 + at)
        return
    if job[0] in ("plain", "more"):
        _, depth, head = job
        for n in range(0, depth - len(head) + 1):
            for tail in itertools.product(OPS if job[0] == "plain" else MORE, repeat=n):
                _one(head + tail, None, None, scripts, out)
        return
    _, depth, run, deed, at = job
    if at >= 2 * len(scripts[run]) + 2:
        return
    for n in range(1, depth + 1):
        for head in itertools.product(OPS, repeat=n):
            if "+A" in head:
                _one(head + (run,), deed, at, scripts, out)
                if n <= 2:
                    # and is everything right in a later run
                    _one(head + (run, "run1"), deed, at, scripts, out)


def _one(ops, deed, at, scripts, out):
    if not ops or not legal(ops):
        return
    if deed:
        # operations after a deed must be possible as well
        try:
            model(ops, deed, at, scripts, True, False)
        except ValueError:
            return
    bad, counts = check(ops, deed, at, scripts)
    out.state()
    out.transition(len(ops))
    out.trace()
    out.outcome((counts and tuple(counts.values())))
    out.sample(dict(ops=list(ops), deed=deed, at=at, messages=counts))
    if bad:
        out.violation(dict(ops=list(ops), deed=deed, at=at), bad, len(ops))


def replay(case):
    scripts = {r: transcript(r) for r in ("run1", "run2")}
    if case["ops"][0] == "transcript":
        milestones = [m for m, _ in scripts[case["ops"][1]] if m is not Message.DEBUG]
        return [] if milestones == expected_milestones(case["ops"][1]) else ["the messages of a run are wrong"]
    if case["ops"][0] == "manner":
        _, nature, answer, members, leaving = case["ops"]
        return check_manner(nature, answer, tuple(members), tuple(leaving), scripts)
    if case["ops"][0] == "shared":
        return check_shared(tuple(map(tuple, case["ops"][1])), scripts)
    if case["ops"][0] == "fault":
        _, order, run, later = case["ops"]
        return check_fault(order, run, case["at"], tuple(later), scripts)
    if case["ops"][0] == "crowd":
        return check_crowd(case["ops"][1], case["ops"][2], case["at"], scripts)
    return check(tuple(case["ops"]), case["deed"], case["at"], scripts)[0]
