"""Exploration of the diagram spaces, shared by the properties about finished diagrams."""
from decimal import Decimal  # noqa: F401  (used by decode)

from . import core, impl, oracle, ref, spaces


def encode(points):
    return [[repr(x), repr(y)] for x, y in points]


def decode(points):
    return [(_number(x), _number(y)) for x, y in points]


def _number(text):
    return eval(text, {"Decimal": Decimal, "np": __import__("numpy"), "float64": float, "int64": int})


def case_of(space, sites, **more):
    return dict(space=space.name, polygon=encode(space.poly), sites=encode(sites), mode=space.mode, **more)


def jobs(tier, quick=None, modes=("strict", "coarse")):
    for s in spaces.spaces_for(tier, quick, modes):
        yield from s.jobs(tier)


def explore(job, out, judge, relate=None, **options):
    """Runs the library on every state of one work item.

    judge(v, model, tol, coarse) -> (complaints, summary) for a single diagram, and
    relate(space, parent, child) -> complaints for the step from a set of sites to the
    set with one more site, both given as (indices, summary).
    """
    space = spaces.SPACES[job[0]]
    seen, sites, key = {}, None, None
    for indices in space.walk(job):
        sites = space.sites(indices)
        bad, summary, key = check(space.poly, sites, space.mode, judge, **options)
        out.state()
        out.trace()
        out.outcome(key)
        if bad:
            out.violation(case_of(space, sites), bad, size=len(sites))
        elif relate is not None:
            seen[indices] = summary
            parent = seen.get(indices[:-1])
            if parent is not None:
                out.transition()
                bad = relate(space, (indices[:-1], parent), (indices, summary))
                if bad:
                    out.violation(case_of(space, sites, step=True), bad, size=len(sites))
            if len(seen) > 3000 and job[1] == "tree":
                seen = {k: v for k, v in seen.items() if len(k) < len(indices)}
        if out.full:
            return
    if sites is not None:
        out.sample(dict(space=space.name, sites=[(float(x), float(y)) for x, y in sites],
                        outcome=str(key)[:160]))


def check(poly, sites, mode, judge, **options):
    model = ref.Model(poly, sites)
    tol = oracle.Tol(model)

    def run():
        v = impl.build(poly, sites, **options)
        return judge(v, model, tol, mode == "coarse")

    result, complaint = core.attempt(run, seconds=core.allowance(len(sites)))
    if complaint:
        return [f"{complaint}"], None, complaint
    bad, summary = result
    # the outcome: the combinatorial type of the diagram
    key = (len(sites), sorted(len(c) for c in model.cells), len(model.edges()))
    return bad, summary, key


def replay(case, judge, relate=None, **options):
    poly, sites = decode(case["polygon"]), decode(case["sites"])
    bad, summary, _ = check(poly, sites, case["mode"], judge, **options)
    if not bad and case.get("step") and relate is not None:
        _, before, _ = check(poly, sites[:-1], case["mode"], judge, **options)
        space = spaces.Space("replay", poly, sites, mode=case["mode"])
        n = len(sites)
        bad = relate(space, (tuple(range(n - 1)), before), (tuple(range(n)), summary))
    return bad
