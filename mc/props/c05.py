"""C05: keeping or removing zero-length edges describes the same diagram."""
from .. import core, diagrams, fine, impl, oracle, ref, spaces

QUICK = ["g44-box", "g44-tight", "g44-half", "g44-top0", "g44-triup", "g33-rtbl", "g33-rttr", "g44-dodeca", "g55-box",
         "g55-diamond", "tri-closed", "dodeca-closed", "penta-closed", "g33-all", "g33-all-tight", "g43-all",
         "c5-all", "c5-tight", "c5-off", "tworows-all", "cross-all", "rings-all", "vee-all", "readme-all", "irr-all",
         "tiny", "huge", "tera-grid", "mega-offset", "atto-grid", "giga", "outside-ring", "pico-circle", "grid66", "grid88", "circle65", "hexgrid", "noise1-box",
         "big-grid", "big-row", "big-column", "wheel", "corners108", "corners20-closed", "corners36", "distant-up", "distant-corner"]
BOUNDS = {t: spaces.describe(t, QUICK, ("strict",)) + "; each with the cleanup switched on and off; "
          + fine.describe(t)
          for t in ("quick", "thorough")}
ASSUMPTIONS = ["distinct sites, strictly convex bounding polygon",
               "coordinates with few digits, so that coinciding vertices coincide exactly"]


def jobs(tier):
    yield from fine.jobs(tier)
    yield from diagrams.jobs(tier, QUICK, ("strict",))


def contracted(v, m, tol):
    """Half-edges with a length, as a set of (site, from, to)."""
    index = {id(s): i for i, s in enumerate(v.sites)}
    out = []
    for e in v.edges:
        for h in (e, e.twin):
            if h.incident_point is None or oracle.near(m.at(h.origin), m.at(h.target), tol.pos):
                continue
            out.append((index[id(h.incident_point)], m.at(h.origin), m.at(h.target)))
    return sorted(out)


def same(a, b, tol):
    if len(a) != len(b):
        return False
    rest = list(b)
    for i, p, q in a:
        for k, (j, r, s) in enumerate(rest):
            if i == j and oracle.near(p, r, tol.pos) and oracle.near(q, s, tol.pos):
                del rest[k]
                break
        else:
            return False
    return True


def compare(poly, sites):
    model = ref.Model(poly, sites)
    tol = oracle.Tol(model)

    def run():
        clean = impl.build(poly, sites, remove_zero_length_edges=True)
        raw = impl.build(poly, sites, remove_zero_length_edges=False)
        default = impl.build(poly, sites)
        bad = [f"with removal: {t}" for t in oracle.everything(clean, model, tol)]
        bad += [f"without removal: {t}" for t in oracle.everything(raw, model, tol, cleaned=False)]
        for i, (a, b) in enumerate(zip(clean.sites, raw.sites)):
            if not abs(a.area() - b.area()) <= tol.area:
                bad.append(f"area of the cell of site {i} is {a.area()!r} with removal, {b.area()!r} without")
        x, y = contracted(clean, model, tol), contracted(raw, model, tol)
        if not same(x, y, tol):
            bad.append(f"{len(x)} half-edges with a length after removal, {len(y)} without: they differ")
        if len(default.edges) != len(clean.edges) or len(default.vertices) != len(clean.vertices):
            bad.append("removal is not what happens by default")
        spare = len(raw.edges) - len(clean.edges)
        if spare != len(raw.vertices) - len(clean.vertices):
            bad.append(f"{spare} edges are removed, but {len(raw.vertices) - len(clean.vertices)} vertices")
        return bad, spare

    result, complaint = core.attempt(run, seconds=core.allowance(len(sites), 0.2))
    if complaint:
        return [complaint], -1
    return result


def work(job, out):
    if job[0] == "fine":
        return fine.work(job, out, (True, False))
    space = spaces.SPACES[job[0]]
    sites, spare = None, 0
    for indices in space.walk(job):
        sites = space.sites(indices)
        bad, spare = compare(space.poly, sites)
        out.state()
        out.transition(2)  # with and without the removal
        out.trace(2)
        out.outcome((len(sites), spare))
        if spare > 0:
            out.count("diagrams_with_zero_length_edges")
        if bad:
            out.violation(diagrams.case_of(space, sites), bad, size=len(sites))
        if out.full:
            return
    if sites is not None:
        out.sample(dict(space=space.name, sites=[(float(x), float(y)) for x, y in sites], removed_edges=spare))


def replay(case):
    if case.get("fine"):
        return fine.replay(case, (True, False))
    return compare(diagrams.decode(case["polygon"]), diagrams.decode(case["sites"]))[0]
