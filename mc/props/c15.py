"""C15: diagrams that are under construction at the same time do not influence each other."""
import itertools
import os
import sys
import threading

from .. import core, dump, impl, oracle, ref, spaces

PACKAGE = os.path.dirname(os.path.realpath(impl.foronoi.__file__)) + os.sep
BOX = [(0, 0), (5, 0), (5, 5), (0, 5)]
TRI = [(-1, -1), (9, -2), (3, 9)]
PENTA = [(-1, -1), (6, -2), (8, 3), (3, 9), (-2, 6)]
WORK = {
    "one": (BOX, [(1, 2)]),
    "pair": (TRI, [(1, 2), (3, 1)]),
    "level": (BOX, [(1, 2), (3, 2)]),
    "three": (BOX, [(1, 4), (4, 3.5), (2.5, 1)]),
    "turned": (PENTA, [(1, 1), (4, 2), (2, 4)]),
    "row": (PENTA, [(1, 1), (2, 1), (3, 1.5)]),
    "grid": (BOX, [(1, 1), (3, 1), (1, 3), (3, 3)]),
    # all but one or two numbers in common with "three", the names and heights of the sites as well
    "moved": (BOX, [(1, 4), (3.25, 3.5), (2.5, 1)]),
    "tilted": (BOX, [(2, 4), (4, 3.5), (2.5, 0.5)]),
    "crowd": (PENTA, spaces.noise(60, 61, 0, 4, 2)),
    "same": (BOX, [(1, 4), (4, 3.5), (2.5, 1)]),
}
STEP_PAIRS = {"quick": [("three", "row"), ("pair", "grid"), ("three", "same"), ("level", "row"), ("three", "moved"), ("tilted", "three")],
              "thorough": [("three", "turned"), ("three", "row"), ("pair", "grid"), ("three", "same"), ("level", "row"),
                           ("grid", "turned"), ("grid", "row"), ("grid", "level"), ("turned", "row")]}
LINE_PAIRS = {"quick": [("three", "turned"), ("row", "pair"), ("three", "moved"), ("pair", "crowd")],
              "thorough": list(itertools.permutations(["three", "turned", "row", "grid", "pair"], 2)) + [("three", "same"), ("three", "moved"), ("moved", "three"), ("tilted", "three"), ("pair", "crowd"), ("level", "crowd"), ("three", "crowd")]}
TWO_PAIRS = {"quick": [], "thorough": [("one", "level"), ("level", "one"), ("pair", "one")]}
TRIPLES = {"quick": [], "thorough": [("one", "one", "pair"), ("one", "one", "one")]}
BOUNDS = {t: f"two threads, all interleavings of whole events (no bound on the number of switches) for {STEP_PAIRS[t]}"
             + (f", three threads for {TRIPLES[t]}" if TRIPLES[t] else "")
             + f"; one preemption at every executed line of the library, the other diagram being made completely in between, for {LINE_PAIRS[t]}"
             + (f"; two preemptions at all pairs of lines for {TWO_PAIRS[t]}" if TWO_PAIRS[t] else "")
          for t in STEP_PAIRS}
ASSUMPTIONS = ["every diagram has its own bounding polygon and its own observers"]

_fresh, _models = {}, {}


def make(name, observer=None):
    poly, sites = WORK[name]
    v = impl.Voronoi(impl.Polygon(poly))
    if observer is not None:
        v.attach_observer(observer)
    v.create_diagram(sites)
    return v


def fresh(name):
    if name not in _fresh:
        _fresh[name] = dump.diagram(make(name))
    return _fresh[name]


class Worker:
    """Makes a diagram in a thread of its own that only moves when it is told to."""

    def __init__(self, name):
        self.name, self.result, self.error, self.finished = name, None, None, False
        self.go, self.stopped = threading.Semaphore(0), threading.Semaphore(0)
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _main(self):
        self.go.acquire()
        try:
            self.result = make(self.name, self._observer())
        except BaseException as error:
            self.error = error
        self.finished = True
        self.stopped.release()

    def _observer(self):
        worker = self

        class Gate(impl.foronoi.observers.observer.Observer):
            def update(self, subject, message, **kwargs):
                if message is not impl.foronoi.observers.message.Message.DEBUG:
                    worker.pause()

        return Gate()

    def pause(self):
        self.stopped.release()
        self.go.acquire()

    def step(self):
        self.go.release()
        if not self.stopped.acquire(timeout=core.CASE_CPU_SECONDS * 4):
            raise core.Hang()


class LineWorker(Worker):
    """Like Worker, but stops before the k-th executed line of the library, for every k in `at`."""

    def __init__(self, name, at):
        self.at, self.lines = set(at), 0
        super().__init__(name)

    def _observer(self):
        sys.settrace(self._trace)
        return None

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if event == "line":
            if self.lines in self.at:
                self.pause()
            self.lines += 1
        return self._trace


def compare(workers):
    bad = []
    for w in workers:
        if w.error is not None:
            bad.append(f"the diagram of {w.name} raises {type(w.error).__name__}: {str(w.error)[:100]}")
        else:
            d = dump.difference(dump.diagram(w.result), fresh(w.name), f"diagram of {w.name}")
            if d:
                bad.append(d)
            else:
                # (and the one that is made alone is not influenced by what this process has made before)
                model = _models.setdefault(w.name, ref.Model(*WORK[w.name]))
                bad += [f"diagram of {w.name}: {t}" for t in oracle.everything(w.result, model, oracle.Tol(model))]
    return bad


def steps_of(name):
    w = Worker(name)
    n = 0
    while not w.finished:
        w.step()
        n += 1
    return n


def lines_of(name):
    w = LineWorker(name, ())
    w.step()
    return w.lines


def play(names, schedule):
    """Runs the threads event by event as the schedule (indices of threads) says, and then to the end."""
    workers = [Worker(n) for n in names]
    for i in schedule:
        if not workers[i].finished:
            workers[i].step()
    for w in workers:
        while not w.finished:
            w.step()
    return compare(workers)


def preempt(names, lines):
    """The first thread stops before line lines[0]; the second runs up to its line lines[1] (or to its end),
    then the first goes on to its end, and then the second."""
    first = LineWorker(names[0], lines[:1])
    second = LineWorker(names[1], lines[1:]) if len(lines) > 1 else Worker(names[1])
    first.step()
    second.step()
    if len(lines) == 1:
        while not second.finished:
            second.step()
    while not first.finished:
        first.step()
    while not second.finished:
        second.step()
    return compare([first, second])


def guarded(function, *args):
    bad, complaint = core.attempt(function, *args, seconds=30)
    return [complaint] if complaint else bad


def interleavings(counts):
    def go(prefix, left):
        if not any(left):
            yield prefix
            return
        for i, n in enumerate(left):
            if n:
                yield from go(prefix + (i,), left[:i] + (n - 1,) + left[i + 1:])
    yield from go((), tuple(counts))


PARTS = 16


def jobs(tier):
    yield ("replays",)
    for names in STEP_PAIRS[tier] + TRIPLES[tier]:
        for part in range(PARTS):
            yield ("steps", names, part)
    for names in LINE_PAIRS[tier]:
        for part in range(PARTS):
            yield ("lines", names, part)
    for names in TWO_PAIRS[tier]:
        for part in range(PARTS * 16):
            yield ("two", names, part)


def work(job, out):
    kind = job[0]
    if kind == "replays":
        # the harness itself: the same schedule gives the same run
        for names, schedule in ((("three", "turned"), (0, 1, 1, 0, 0, 1)), (("grid", "row"), (1, 0, 0, 0, 1, 1, 0))):
            a, b = guarded(play, names, schedule), guarded(play, names, schedule)
            out.state()
            if a != b:
                out.violation(dict(kind="steps", names=names, schedule=schedule), ["two runs of one schedule differ"] + a + b)
        if lines_of("three") != lines_of("three"):
            out.violation(dict(kind="lines", names=("three", "one"), schedule=[0]), ["two runs execute different lines"])
        return
    _, names, part = job
    if kind == "steps":
        counts = [steps_of(n) for n in names]
        # the last segment of a thread has nothing to switch to
        for k, schedule in enumerate(interleavings(counts)):
            if k % PARTS == part:
                _judge(out, "steps", names, schedule, guarded(play, names, schedule))
                if out.full:
                    return
    elif kind == "lines":
        for k in range(part, lines_of(names[0]), PARTS):
            _judge(out, "lines", names, [k], guarded(preempt, names, [k]))
            if out.full:
                return
    else:
        second = lines_of(names[1])
        for k in range(part, lines_of(names[0]), PARTS * 16):
            for j in range(second):
                _judge(out, "lines", names, [k, j], guarded(preempt, names, [k, j]))
                if out.full:
                    return


def _judge(out, kind, names, schedule, bad):
    out.state()
    out.transition(len(schedule))
    out.trace()
    out.count("schedules")
    out.outcome((kind, names))
    out.sample(dict(kind=kind, names=names, schedule=list(schedule)))
    if bad:
        out.violation(dict(kind=kind, names=list(names), schedule=list(schedule)), bad, len(schedule))


def replay(case):
    return guarded(play if case["kind"] == "steps" else preempt, tuple(case["names"]), list(case["schedule"]))
