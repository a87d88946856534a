"""The explorer: runs one property's exploration in parallel and writes the evidence.

A property module (mc/props/cXX.py) provides

    ID, LEVEL_NOTES   what is specified
    jobs(tier)        an iterable of picklable work items, simplest first; together
                      they enumerate the whole bounded space, nothing is sampled
    work(job, out)    explores one item exhaustively, reports to `out`

`out` counts states, transitions and validated traces, keeps a few samples, the set
of distinct outcomes, and the complaints.
"""
import decimal
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known_findings.txt")
CASE_CPU_SECONDS = 5.0
JOB_CPU_SECONDS = 400.0 if os.environ.get("VERIF_TIER", "quick") == "quick" else 6000.0
GRACE_SECONDS = 6.0   # how long to look for a smaller counterexample after the first one
MAX_BAD_PER_JOB = 10


class Hang(BaseException):
    """Raised inside the code under test when it uses far more time than it should."""


def _on_timer(*_):
    raise Hang()


class guard:
    """Limits the CPU time of one execution of the code under test."""

    def __init__(self, seconds=CASE_CPU_SECONDS):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, _on_timer)
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


def allowance(n, each=0.05):
    """CPU seconds for n sites."""
    return CASE_CPU_SECONDS + each * n


def attempt(function, *args, seconds=CASE_CPU_SECONDS, **kwargs):
    """(result, None) or (None, complaint)."""
    try:
        with guard(seconds):
            return function(*args, **kwargs), None
    except Hang:
        return None, f"does not terminate (stopped after {seconds} s of CPU time)"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as error:
        place = ""
        for frame in reversed(traceback.extract_tb(error.__traceback__)):
            if f"{os.sep}foronoi{os.sep}" in frame.filename:
                place = f" in {os.path.basename(frame.filename)}:{frame.name}"
                break
        return None, f"raises {type(error).__name__}: {str(error)[:120]}{place}"


def listed(value):
    """Work items come back from JSON as lists."""
    return tuple(map(listed, value)) if isinstance(value, list) else value


class Out:
    def __init__(self):
        self.counts = {}
        self.samples = []
        self.outcomes = set()
        self.bad = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, n=1):
        self.count("states", n)

    def transition(self, n=1):
        self.count("transitions", n)

    def trace(self, n=1):
        self.count("traces_validated_against_impl", n)

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value)

    def outcome(self, value):
        self.outcomes.add(hashlib.blake2b(repr(value).encode(), digest_size=8).digest())

    def violation(self, case, messages, size=0):
        """case: JSON-able description that replay() of the property module understands."""
        self.bad.append((size, case, list(messages)[:8]))

    @property
    def full(self):
        return len(self.bad) >= MAX_BAD_PER_JOB


def _limits(context):
    # workers that replace others are started by another thread, which has a context of its own
    decimal.setcontext(context)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # the code under test may print; nothing of that belongs on our output
    sys.stdout = open(os.devnull, "w")


def _run(args):
    module, job = args
    out = Out()
    try:
        module = importlib.import_module(module)
        signal.signal(signal.SIGVTALRM, _on_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, JOB_CPU_SECONDS)
        try:
            module.work(job, out)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except BaseException as error:
        # the library did something that the check was not prepared for
        out.violation(dict(job=list(job) if isinstance(job, (list, tuple)) else job),
                      [f"{type(error).__name__}: {str(error)[:200]}"] + traceback.format_exc().strip().splitlines()[-6:], 1000)
    return "ok", (out.counts, out.samples, out.outcomes, out.bad), job


def load_findings():
    """Lines `finding: property=<id> key=<key> <text>`; lines starting with `fixed:` suppress nothing."""
    found = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding:"):
                words = line.split()
                prop = words[1].split("=", 1)[1]
                key = words[2].split("=", 1)[1]
                found[(prop, key)] = " ".join(words[3:])
    return found


def explore(prop, tier, seed, workers=None):
    """Runs the exploration; returns (exit code, evidence)."""
    module_name = f"mc.props.{prop.lower()}"
    module = importlib.import_module(module_name)
    started = time.time()
    jobs = [(module_name, job) for job in module.jobs(tier)]
    n_jobs = len(jobs)
    total, samples, outcomes, bad, errors = {}, [], set(), [], []
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    first_bad = None
    finished = 0
    known = load_findings()

    with multiprocessing.get_context("fork").Pool(workers, _limits, (decimal.getcontext().copy(),), maxtasksperchild=200) as pool:
        results = pool.imap_unordered(_run, jobs, 1)
        while True:
            try:
                if first_bad is not None:
                    kind, value, job = results.next(max(0.05, GRACE_SECONDS - (time.time() - first_bad)))
                else:
                    kind, value, job = results.next()
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                break
            finished += 1
            if kind == "error":
                errors.append((job, value))
                continue
            counts, some, seen, complaints = value
            for k, n in counts.items():
                total[k] = total.get(k, 0) + n
            samples += some
            outcomes |= seen
            bad += complaints
            if first_bad is None and any(case.get("finding") is None or (prop, case["finding"]) not in known
                                         for _, case, _ in complaints):
                first_bad = time.time()
            if first_bad is not None and time.time() - first_bad > GRACE_SECONDS:
                break
        pool.terminate()

    new, listed = [], {}
    for size, case, messages in bad:
        key = case.get("finding")
        if key is not None and (prop, key) in known:
            listed.setdefault(key, (case, messages))
        else:
            new.append((size, json.dumps(case, sort_keys=True), case, messages))
    new.sort(key=lambda item: (item[0], len(item[1]), item[1]))

    for key, (case, messages) in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={prop} {known[(prop, key)]} [{messages[0]}]")
    for job, value in errors[:3]:
        print(f"error in {job!r}\n{value}", file=sys.stderr)

    step = max(1, len(samples) // 6)
    coverage = dict(
        states=total.pop("states", 0),
        transitions=total.pop("transitions", 0),
        traces_validated_against_impl=total.pop("traces_validated_against_impl", 0),
        samples=samples[::step][:8],
        exhaustive=not new and not errors and finished == n_jobs,
        work_items=n_jobs,
        work_items_finished=finished,
        distinct_outcomes=len(outcomes),
        bounds=module.BOUNDS if isinstance(module.BOUNDS, str) else module.BOUNDS[tier],
        **{k: v for k, v in sorted(total.items())},
    )
    evidence = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
                    assumptions=list(getattr(module, "ASSUMPTIONS", [])),
                    wall_s=round(time.time() - started, 2), violations=len(new))
    os.makedirs(EVIDENCE, exist_ok=True)
    code = 0
    if new:
        size, _, case, messages = new[0]
        path = os.path.join(EVIDENCE, f"replay-{prop}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, case=case, complaints=messages,
                           replay=f"cd /verif && /opt/venv/bin/python -B -m mc.replay {path}"), f, indent=1)
        for message in messages[:4]:
            print(f"  {message}"[:600])
        print(f"  case: {json.dumps(case)[:800]}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif errors:
        code = 2
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    c = coverage
    print(f"{prop} {tier}: states={c['states']} transitions={c['transitions']} "
          f"traces={c['traces_validated_against_impl']} outcomes={c['distinct_outcomes']} "
          f"items={finished}/{n_jobs} violations={len(new)} wall={evidence['wall_s']}s")
    return code, evidence
