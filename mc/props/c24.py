"""C24: linking and deleting half-edges keeps the loop around every cell closed, and sites and vertices pointing at what is there."""
import itertools

from .. import core, impl  # noqa: F401
from foronoi.graph import HalfEdge, Point, Vertex

DEPTH = {"quick": 4, "thorough": 5}
START = {"quick": (1, 2, 3, 4, 5), "thorough": (1, 2, 3, 4, 5, 6)}
BOUNDS = {t: f"loops of {START[t]} half-edges around a site and the opposite loop around its neighbour, every first edge, all sequences of <= {d} deletions "
             "(of a half-edge, or of both halves) and insertions at every place, links with and without a successor; loops of {LONG[t]} half-edges with regular sequences of them, and of 3000 with a few; open chains of up to 6 half-edges with all sequences of deletions; all assignments of twins "
             "among four half-edges" for t, d in DEPTH.items()}
ASSUMPTIONS = ["an open chain of half-edges starts with the first edge of its site"]


LONG = {"quick": (9, 20), "thorough": (9, 20, 33)}


HUGE = 3000


def check_huge(n, first):
    """Deletions and an insertion in a loop that is longer than a recursion could go."""
    def run():
        world = World(n, first)
        bad = world.complaints()
        for op, k in (("half", 0), ("both", n // 2), ("insert", n // 3), ("half", first - 2), ("both", 0)):
            world.apply(op, k)
            bad = bad or [f"after {op} {k} of {n}: {t}" for t in world.complaints()]
        return bad
    bad, complaint = core.attempt(run, seconds=60)
    return [f"{n} half-edges: {complaint}"] if complaint else bad


def long_words(n, ops, step, start):
    """Goes through the operations with a regular choice of the place, until nothing is left or for three rounds."""
    left, k, words = n, start, []
    for i in range(3 * n):
        op = ops[i % len(ops)]
        k = (k + step) % left
        words.append((op, k))
        left += 1 if op == "insert" else -1
        if left == 0:
            break
    return tuple(words)


def jobs(tier):
    for n in LONG[tier]:
        for ops in (("both",), ("half",), ("both", "half"), ("insert", "half", "half"), ("insert", "insert", "half", "both"), ("half", "insert")):
            yield ("long", n, ops)
    for n in START[tier]:
        for first in range(n):
            for op in ("half", "both", "insert"):
                for k in range(n):
                    yield ("loop", n, first, op, k, DEPTH[tier] - (1 if n >= 5 else 0))
    for first in (0, 1, HUGE - 1):
        yield ("huge", HUGE, first)
    yield ("twins",)
    yield ("chains",)
    for n in range(1, 7):
        yield ("open", n)


class World:
    """The live half-edges together with the lists that they should form."""

    def __init__(self, n, first):
        self.a, self.b = Point(0, 0, name="a"), Point(9, 9, name="b")
        self.vertices = [Vertex(k, k * k) for k in range(n)]
        # around a: edge k from vertex k to vertex k + 1; around b the same the other way
        self.left, self.right = [], []
        self.made = []
        for k in range(n):
            self._edge(k, (k + 1) % n)
        self.left, self.right = list(self.made), [e.twin for e in self.made]
        for k in range(n):
            self.left[k].set_next(self.left[(k + 1) % n])
            self.right[(k + 1) % n].set_next(self.right[k])
        self.first = {"a": self.left[first], "b": self.right[first]}
        self.a.first_edge, self.b.first_edge = self.first["a"], self.first["b"]
        self.deleted = set()

    def _edge(self, k, m):
        p, q = self.vertices[k], self.vertices[m]
        edge = HalfEdge(self.a, origin=p, twin=HalfEdge(self.b, origin=q))
        p.connected_edges.append(edge)
        q.connected_edges.append(edge.twin)
        self.made.append(edge)
        return edge

    def moves(self):
        n, m = len(self.left), len(self.right)
        for k in range(n):
            yield ("half", k)
            if self.left[k].twin in self.right:
                yield ("both", k)
            yield ("insert", k)

    def apply(self, op, k):
        edge = self.left[k]
        if op == "insert":
            # a new edge behind the k-th one, on the side of a only
            at = self.vertices.index(edge.target)
            new = HalfEdge(self.a, origin=self.vertices[at], twin=HalfEdge(self.b, origin=self.vertices[at]))
            self.vertices[at].connected_edges.extend([new, new.twin])
            after = self.left[(k + 1) % len(self.left)]
            edge.set_next(new)
            new.set_next(after)
            self.left.insert(k + 1, new)
            self.made.append(new)
            return
        self._gone(self.left, "a", edge)
        edge.delete()
        if op == "both":
            self._gone(self.right, "b", edge.twin, backward=True)
            edge.twin.delete()

    def _gone(self, loop, name, edge, backward=False):
        k = loop.index(edge)
        if self.first[name] is edge:
            self.first[name] = loop[(k - 1) % len(loop)] if backward else loop[(k + 1) % len(loop)]
            if len(loop) == 1:
                self.first[name] = None
        del loop[k]
        self.deleted.add(id(edge))

    def complaints(self):
        bad = []
        for site, loop, name in ((self.a, self.left, "a"), (self.b, self.right[::-1], "b")):
            first = self.first[name]
            if site.first_edge is not first:
                bad.append(f"the first edge of site {name} is {'missing' if site.first_edge is None else 'another one'}")
                continue
            if first is None:
                if site.borders() or site.vertices() or site.area() != 0:
                    bad.append(f"site {name} has no half-edge left, but borders, vertices or an area")
                continue
            k = loop.index(first)
            want = loop[k:] + loop[:k]
            # (never follow pointers further than there are half-edges)
            e, seen = first, []
            while len(seen) <= len(want):
                seen.append(e)
                e = e.next
                if e is None or e is first:
                    break
            if len(seen) != len(want) or any(x is not y for x, y in zip(seen, want)):
                bad.append(f"the walk around site {name} has {len(seen)} half-edges, there are {len(want)}, or in another order")
                continue
            for x, y in zip(want, want[1:] + want[:1]):
                if y.prev is not x:
                    bad.append(f"a half-edge around site {name} does not point back to the one before it")
                if x.incident_point is not site:
                    bad.append(f"a half-edge around site {name} belongs to another site")
            if site.borders() != want or site.vertices() != [e.origin for e in want]:
                bad.append(f"borders or vertices of site {name} are not those of its {len(want)} half-edges")
        for edge in self.made:
            for h in (edge, edge.twin):
                if h.twin.twin is not h:
                    bad.append("a twin of a twin is another half-edge")
                listed = sum(c is h for c in h.origin.connected_edges)
                if listed != (0 if id(h) in self.deleted else 1):
                    bad.append(f"a half-edge that is {'deleted' if id(h) in self.deleted else 'there'} is listed {listed} times at its origin")
        for v in self.vertices:
            if len({id(c) for c in v.connected_edges}) != len(v.connected_edges):
                bad.append("a half-edge is listed twice at its origin")
        return bad


def check(n, first, words):
    def run():
        world = World(n, first)
        bad = world.complaints()
        for op, k in words:
            if (op, k) not in set(world.moves()):
                return None, None
            world.apply(op, k)
            bad += [f"after {words}: {t}" for t in world.complaints()]
        return bad, list(world.moves())
    result, complaint = core.attempt(run)
    return ([f"after {words}: {complaint}"], []) if complaint else result


def check_long(n, first, words):
    """-> (complaints, number of operations that were possible)"""
    def run():
        world, done = World(n, first), 0
        for op, k in words:
            if (op, k) not in set(world.moves()):
                op = "half"
                if (op, k) not in set(world.moves()):
                    break
            world.apply(op, k)
            done += 1
            bad = world.complaints()
            if bad:
                return [f"after {done} operations {words[:6]}...: {t}" for t in bad], done
        return [], done
    result, complaint = core.attempt(run)
    return ([f"{n} half-edges, {words[:6]}...: {complaint}"], 0) if complaint else result


def check_twins(pairs):
    def run():
        edges = [HalfEdge(None) for _ in range(4)]
        bad = []
        for i, j in pairs:
            edges[i].twin = edges[j]
            if edges[i].twin is not edges[j] or edges[j].twin is not edges[i]:
                bad.append(f"after {pairs}: twins are not each other's twins")
            if edges[i].target is not edges[j].origin:
                bad.append(f"after {pairs}: the target is not where the twin starts")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_chain(links):
    """set_next with every successor, also none."""
    def run():
        edges = [HalfEdge(None, origin=Vertex(k, 0), twin=HalfEdge(None, origin=Vertex(k + 1, 0))) for k in range(3)]
        following, before = {}, {}
        bad = []
        for i, j in links:
            edges[i].set_next(None if j is None else edges[j])
            following[i] = j
            if j is not None:
                before[j] = i
        for k, e in enumerate(edges):
            n, p = following.get(k), before.get(k)
            if e.next is not (None if n is None else edges[n]) or e.prev is not (None if p is None else edges[p]):
                bad.append(f"after linking {links}: half-edge {k} has the wrong neighbours")
            if e.get_origin() is not e.origin or e.target is not e.twin.origin:
                bad.append("the origin or the target is not reported")
        return bad
    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_open(n, order):
    """Deletions from an open chain around a site, as there is during the construction."""
    def run():
        site, vertices = Point(0, 0), [Vertex(k, k * k) for k in range(n + 1)]
        chain = [HalfEdge(site, origin=vertices[k], twin=HalfEdge(None, origin=vertices[k + 1])) for k in range(n)]
        for k, e in enumerate(chain):
            vertices[k].connected_edges.append(e)
            vertices[k + 1].connected_edges.append(e.twin)
            if k:
                chain[k - 1].set_next(e)
        site.first_edge = chain[0]
        left, bad = list(chain), []
        for k in order:
            chain[k].delete()
            left.remove(chain[k])
            if site.first_edge is not (left[0] if left else None):
                bad.append(f"after deleting {order} from {n}: the first edge is not the first one that is left")
            seen, e = [], site.first_edge
            while e is not None and len(seen) <= n:
                seen.append(e)
                e = e.next
            if len(seen) != len(left) or any(x is not y for x, y in zip(seen, left)) or site.borders() != left:
                bad.append(f"after deleting {order} from {n}: the chain has {len(seen)} half-edges, {len(left)} are left, or another order")
            if any(y.prev is not x for x, y in zip(left, left[1:])):
                bad.append(f"after deleting {order} from {n}: a half-edge does not point back to the one before it")
            for k, v in enumerate(vertices):
                want = [c for c in (chain[k - 1].twin if k else None, chain[k] if k < n and chain[k] in left else None) if c]
                if sorted(map(id, v.connected_edges)) != sorted(map(id, want)):
                    bad.append(f"after deleting {order} from {n}: vertex {k} lists {len(v.connected_edges)} half-edges instead of {len(want)}")
            if bad:
                break
        return bad
    bad, complaint = core.attempt(run)
    return [f"after deleting {order} from {n}: {complaint}"] if complaint else bad


def work(job, out):
    if job[0] == "loop":
        _, n, first, op, k, depth = job
        stack = [((op, k),)]
        last = None
        while stack:
            words = stack.pop()
            bad, moves = check(n, first, words)
            if bad is None:
                continue
            out.state()
            out.transition()
            out.trace()
            last = words
            out.outcome((n, len(moves), tuple(w for w, _ in words)))
            if bad:
                out.violation(dict(kind="loop", n=n, first=first, words=[list(w) for w in words]), bad, n + len(words))
                if out.full:
                    return
            elif len(words) < depth:
                stack.extend(words + (m,) for m in moves)
        if last:
            out.sample(dict(half_edges=n, first=first, last=[list(w) for w in last]))
    elif job[0] == "huge":
        bad = check_huge(*job[1:])
        out.state(6)
        out.transition(5)
        out.trace()
        if bad:
            out.violation(dict(kind="huge", n=job[1], first=job[2]), bad, job[1])
    elif job[0] == "long":
        _, n, ops = job
        for first in range(0, n, 4):
            for step in (0, 1, 2, 3, -1, -2, 7):
                words = long_words(n, ops, step, first)
                # (as far as it goes: some half-edges have lost their other half)
                bad, done = check_long(n, first, words)
                out.state(done)
                out.transition(done)
                out.trace()
                out.outcome((n, ops, step, done))
                if bad:
                    out.violation(dict(kind="long", n=n, first=first, words=[list(w) for w in words]), bad, n + len(words))
    elif job[0] == "open":
        n = job[1]
        for d in range(1, n + 1):
            for order in itertools.permutations(range(n), d):
                bad = check_open(n, order)
                out.state()
                out.transition(d)
                out.trace()
                out.outcome((n, order))
                if bad:
                    out.violation(dict(kind="open", n=n, order=list(order)), bad, n + d)
    elif job[0] == "twins":
        all_pairs = list(itertools.permutations(range(4), 2))
        for d in (1, 2, 3):
            for pairs in itertools.product(all_pairs, repeat=d):
                bad = check_twins(pairs)
                out.state()
                out.transition(d)
                out.trace()
                if bad:
                    out.violation(dict(kind="twins", pairs=[list(p) for p in pairs]), bad, d)
        out.outcome("twins")
    else:
        all_links = [(i, j) for i in range(3) for j in (None, 0, 1, 2)]
        for d in (1, 2, 3):
            for links in itertools.product(all_links, repeat=d):
                # relinking moves the pointer of a half-edge; what pointed at it before is left alone
                if len({i for i, _ in links}) < d or len({j for _, j in links if j is not None}) < sum(j is not None for _, j in links):
                    continue
                bad = check_chain(links)
                out.state()
                out.transition(d)
                out.trace()
                if bad:
                    out.violation(dict(kind="chain", links=[list(x) for x in links]), bad, d)
        out.outcome("chains")


def replay(case):
    if case["kind"] == "loop":
        return check(case["n"], case["first"], tuple(map(tuple, case["words"])))[0] or []
    if case["kind"] == "long":
        return check_long(case["n"], case["first"], tuple(map(tuple, case["words"])))[0]
    if case["kind"] == "huge":
        return check_huge(case["n"], case["first"])
    if case["kind"] == "open":
        return check_open(case["n"], case["order"])
    if case["kind"] == "twins":
        return check_twins(tuple(map(tuple, case["pairs"])))
    return check_chain(tuple(map(tuple, case["links"])))
