"""C16: the search tree answers like a sorted list and stays balanced, whatever is inserted and removed."""
import itertools
from decimal import Decimal as D

from .. import core, impl
from foronoi.tree.node import Node
from foronoi.tree.tree import Tree

KEYS = {"quick": 8, "thorough": 10}
LEAVES = {"quick": 9, "thorough": 11}
LONG = {"quick": (13, 29), "thorough": (13, 29, 61, 127)}
MANY = {"quick": 1500, "thorough": 5000}
KEYED = {"quick": 5, "thorough": 6}
ASSUMPTIONS = ["distinct keys"]


def shape(node):
    return None if node is None else (node.data, shape(node.left), shape(node.right))


def build(s):
    """A tree of the given shape; the heights are left to the library."""
    if s is None:
        return None
    node = Node(s[0])
    node.left, node.right = build(s[1]), build(s[2])
    return node


def keys(s):
    return [] if s is None else keys(s[1]) + [s[0]] + keys(s[2])


def height(s):
    return 0 if s is None else 1 + max(height(s[1]), height(s[2]))


ANY = object()


def sound(node, parent=None, balanced=True):
    """Complaints about the links and heights of a live tree."""
    bad, stack, seen = [], [(node, parent)], set()
    if parent is ANY:
        stack = [(node, node.parent)]
    while stack:
        n, p = stack.pop()
        if n is None:
            continue
        if id(n) in seen:
            return ["a node can be reached in two ways"]
        seen.add(id(n))
        if n.parent is not p:
            bad.append(f"{n.data} has the wrong parent")
        h = [height(shape(k)) for k in (n.left, n.right)]
        if n.height != 1 + max(h):
            bad.append(f"{n.data} has height {n.height} instead of {1 + max(h)}")
        if n.balance != h[0] - h[1]:
            bad.append(f"{n.data} has balance {n.balance} instead of {h[0] - h[1]}")
        if balanced and abs(h[0] - h[1]) > 1:
            bad.append(f"heights {h} below {n.data}")
        stack += [(n.left, n), (n.right, n)]
    return bad


# -- keys in all nodes: insert, delete, find ---------------------------------------

def replayed(history):
    root = None
    for op, key in history:
        root = Tree.insert(root, Node(key)) if op == "+" else Tree.delete(root, key)
    return root


def judge_search(root, members, universe):
    bad = sound(root, ANY) if root is not None else []
    got = keys(shape(root))
    if got != sorted(members):
        return [f"the tree holds {got} instead of {sorted(members)}"]
    for k in universe:
        node = Tree.find(root, k)
        if (node.data if node is not None else None) != (k if k in members else None):
            bad.append(f"find({k}) gives {node and node.data}")
        node = Tree.find_value(root, Node(k))
        if (node.data if node is not None else None) != (k if k in members else None):
            bad.append(f"find_value({k}) gives {node and node.data}")
    if root is not None:
        if root.minimum().data != min(members) or root.maximum().data != max(members):
            bad.append("minimum or maximum is wrong")
        if [n.data for n in Tree.get_leaves(root)] != [n.data for n in inorder(root) if n.left is None and n.right is None]:
            bad.append("get_leaves is wrong")
    return bad


def inorder(node):
    return [] if node is None else inorder(node.left) + [node] + inorder(node.right)


def explore_keys(n, out):
    """Breadth first over the reachable trees; a state is the shape of the tree with its keys."""
    universe = list(range(1, n + 1))
    seen, frontier = {(None, False): ()}, [(None, False)]
    while frontier:
        new = []
        for state in frontier:
            history = seen[state]
            for k in universe:
                op = "-" if k in keys(state[0]) else "+"
                steps = history + ((op, k),)
                bad, after = check_keys(steps, universe)
                out.transition()
                out.trace()
                if bad:
                    out.violation(dict(kind="keys", steps=[list(s) for s in steps], n=n), bad, len(steps))
                    if out.full:
                        return
                elif after not in seen:
                    seen[after] = steps
                    new.append(after)
                    out.state()
                    out.outcome(after)
            # removing what is not there changes nothing
            for k in universe + [0, n + 1]:
                if k not in keys(state[0]):
                    bad, after = check_keys(history + (("-", k),), universe)
                    out.transition()
                    if not bad and after != state:
                        bad = [f"the removal of {k} changed the tree"]
                    if bad:
                        out.violation(dict(kind="keys", steps=[list(s) for s in history] + [["-", k]], n=n), bad, len(history))
        frontier = new
    out.sample(dict(trees=len(seen), keys=n))


def check_keys(steps, universe):
    members = set()
    for op, k in steps:
        (members.add if op == "+" else members.discard)(k)

    def run():
        root = replayed(steps)
        # a tree whose root was removed still points to it, so this is a part of the state
        return judge_search(root, members, universe), (shape(root), root is not None and root.parent is not None)

    result, complaint = core.attempt(run)
    return result if result else ([complaint], None)


# -- data in the leaves: the way the beach line is stored ----------------------------

def leaf_trees(lo, hi):
    """All binary trees whose leaves are lo..hi-1; an inner node has the key between its subtrees."""
    if hi - lo == 1:
        yield (float(lo), None, None)
        return
    for mid in range(lo + 1, hi):
        for left in leaf_trees(lo, mid):
            for right in leaf_trees(mid, hi):
                yield (mid - 0.5, left, right)


def judge_leaves(s):
    bad = []
    root = build(s)
    n = int(max(keys(s))) + 1
    leaves = [x for x in inorder(root) if x.left is None]
    if [x.data for x in Tree.get_leaves(root)] != [x.data for x in leaves]:
        bad.append("get_leaves is wrong")
    for k, leaf in enumerate(leaves):
        if leaf.predecessor is not (leaves[k - 1] if k else None) or leaf.successor is not (leaves[k + 1] if k + 1 < n else None):
            bad.append(f"the neighbours of leaf {k} are wrong")
        if leaf.is_left_child() != (leaf.parent is not None and leaf.parent.left is leaf) or \
                leaf.is_right_child() != (leaf.parent is not None and leaf.parent.right is leaf) or not leaf.is_leaf():
            bad.append(f"leaf {k} is on the wrong side")
        if leaf.grandparent is not (leaf.parent.parent if leaf.parent else None):
            bad.append(f"leaf {k} has the wrong grandparent")
    # an inner node is between the last leaf of its left part and the first leaf of its right part
    for x in inorder(root):
        if x.left is not None:
            k = int(x.data + 0.5)
            if x.predecessor is not leaves[k - 1] or x.successor is not leaves[k]:
                bad.append(f"the neighbours of the inner node {x.data} are wrong")
            if x.minimum() is not inorder(x)[0] or x.maximum() is not inorder(x)[-1]:
                bad.append(f"minimum or maximum below {x.data} is wrong")
    # looking up a position: between two breakpoints there is one leaf, on a breakpoint its left one
    for q in range(-1, 2 * n + 1):
        x = q / 2 - 0.25
        want = min(max(0, int((x + 0.5) // 1)), n - 1)
        if Tree.find_leaf_node(root, x).data != want:
            bad.append(f"the leaf at {x} is {Tree.find_leaf_node(root, x).data} instead of {want}")
    for x in range(1, n):
        if Tree.find_leaf_node(root, x - 0.5).data != x - 1:
            bad.append(f"the leaf at {x - 0.5} is {Tree.find_leaf_node(root, x - 0.5).data}")
    bad += sound(root, balanced=False)

    # replace every leaf by a tree of three leaves or by a single one; the balance is propagated as the sweep does it
    for k in range(n):
        for new in ((k + 0.25, (k + 0.1, None, None), (k + 0.35, (k + 0.3, None, None), (k + 0.4, None, None))), (k + 0.2, None, None)):
            root = build(s)
            leaf = [x for x in inorder(root) if x.left is None][k]
            [x.height for x in inorder(root)]
            replacement = build(new)
            root = leaf.replace_leaf(replacement, root)
            want = [float(x) for i in range(n) for x in (keys(new)[::2] if i == k else [i])]
            if [x.data for x in inorder(root) if x.left is None] != want:
                bad.append(f"leaf {k} was not replaced")
            bad += sound(root, balanced=False)
            order = [x.data for x in inorder(root)]
            if new[1] is not None and balanced(s):
                root = Tree.balance_and_propagate(replacement)
                if [x.data for x in inorder(root)] != order:
                    bad.append(f"rebalancing after the replacement of leaf {k} changed the order")
                bad += sound(root)
        # by nothing
        root = build(s)
        leaf = [x for x in inorder(root) if x.left is None][k]
        [x.height for x in inorder(root)]
        root = leaf.replace_leaf(None, root)
        if ([] if root is None else [x.data for x in inorder(root)]) != [x for x in keys(s) if x != k]:
            bad.append(f"leaf {k} was not removed")
        bad += sound(root, balanced=False)
    # cut off every leaf: its sibling takes the place of the parent
    if balanced(s):
        for k in range(n if n > 1 else 0):
            root = build(s)
            [x.height for x in inorder(root)]
            leaf = [x for x in inorder(root) if x.left is None][k]
            sibling = leaf.parent.right if leaf.parent.left is leaf else leaf.parent.left
            root = leaf.parent.replace_leaf(sibling, root)
            root = Tree.balance_and_propagate(sibling)
            if [x.data for x in inorder(root) if x.left is None] != [float(i) for i in range(n) if i != k]:
                bad.append(f"leaf {k} was not cut off")
            bad += sound(root)
    # every rotation that is possible
    for k in range(len(keys(s))):
        for turn, side in ((Tree.rotate_left, "right"), (Tree.rotate_right, "left")):
            root = build(s)
            node = inorder(root)[k]
            if getattr(node, side) is None or node.left is None:
                continue
            child, parent = getattr(node, side), node.parent
            if child.left is None:
                continue
            [x.height for x in inorder(root)]
            top = turn(node)
            if top is not child or top.parent is not parent:
                bad.append(f"the rotation at {node.data} does not return the new top")
            if parent is not None:
                if node.data < parent.data and parent.left is not top or node.data > parent.data and parent.right is not top:
                    bad.append(f"the rotation at {node.data} is not linked to the parent")
                parent.update_heights()
            root = top if parent is None else root
            if [x.data for x in inorder(root)] != keys(s):
                bad.append(f"the rotation at {node.data} changed the order")
            bad += sound(root, balanced=False)
    return bad


# -- more keys, other keys ------------------------------------------------------------

class Shifted(Node):
    """A key that depends on an argument, as that of a breakpoint does."""

    def get_key(self, at=None):
        return self.data * at


class Paired(Node):
    """A key that is not the whole value."""

    def get_key(self, **kwargs):
        return self.data[0]


def kinds(n):
    yield "ints", Node, list(range(n)), {}
    yield "around zero", Node, list(range(-(n // 2), n - n // 2)), {}
    yield "decimals", Node, [D(k).scaleb(-30) for k in range(n)], {}
    yield "texts", Node, [f"{k:04}" for k in range(n)], {}
    yield "turned around", Shifted, list(range(n, 0, -1)), dict(at=-3)


def long_cases(n):
    """Insert in steps of one size, remove in steps of another one (both primes to n)."""
    for kind, _, _, _ in kinds(n):
        for a in range(1, n):
            for b in (range(1, n) if n <= 29 and kind == "ints" else (1, 2, n // 2, n - 1)):
                yield kind, a, b


def check_long(n, kind, a, b):
    name, make, names, kwargs = next(k for k in kinds(n) if k[0] == kind)

    def run():
        root, inside, bad = None, set(), []
        for i in range(n):
            root = Tree.insert(root, make(names[i * a % n]), **kwargs)
            inside.add(i * a % n)
            if i % 5 == 0 or i == n - 1:
                bad += judge_long(root, inside, names, make, kwargs)
        for i in range(n):
            k = i * b % n
            if make is Node:
                root = Tree.delete(root, names[k], **kwargs)
            else:
                root = Tree.delete(root, names[k] * kwargs["at"], **kwargs)
            inside.discard(k)
            if i % 5 == 0 or n - i < 4:
                bad += judge_long(root, inside, names, make, kwargs)
            if bad:
                break
        return bad

    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def judge_long(root, inside, names, make, kwargs):
    if root is None:
        return ["the tree is empty"] if inside else []
    order = inorder(root)
    if [x.data for x in order] != [names[k] for k in sorted(inside)]:
        return [f"{len(order)} keys instead of {len(inside)}, or in a wrong order"]
    bad = sound(root, ANY)
    for k, name in enumerate(names):
        probe = make(name)
        for found in (Tree.find(root, probe.get_key(**kwargs), **kwargs), Tree.find_value(root, probe, **kwargs)):
            if (found is not None) != (k in inside) or found is not None and found.data != name:
                bad.append(f"looking for {name} gives {found and found.data}")
    return bad


# -- many keys, many leaves --------------------------------------------------------------

ORDERS = {
    "ascending": lambda n: list(range(n)),
    "descending": lambda n: list(range(n))[::-1],
    "from both ends": lambda n: [k // 2 if k % 2 == 0 else n - 1 - k // 2 for k in range(n)],
    "from the middle": lambda n: [n // 2 + (k + 1) // 2 * (-1) ** k for k in range(n - 1 + n % 2)],
    "in strides": lambda n: [k for start in range(37) for k in range(start, n, 37)],
}
PLACES = {"first": lambda n, k: 0, "last": lambda n, k: n - 1, "middle": lambda n, k: n // 2, "either end": lambda n, k: (n - 1) * (k % 2),
          "moving": lambda n, k: k * 37 % n, "third": lambda n, k: n // 3}


def quick_sound(root, parent):
    """The same as sound, for large trees."""
    order, stack = [], [(root, parent)]
    while stack:
        n, p = stack.pop()
        if n.parent is not p:
            return [f"{n.data} has the wrong parent"]
        order.append(n)
        stack += [(c, n) for c in (n.left, n.right) if c is not None]
    heights = {None: 0}
    for n in reversed(order):
        a, b = heights[n.left], heights[n.right]
        heights[n] = 1 + max(a, b)
        if n.height != heights[n] or n.balance != a - b:
            return [f"{n.data} has height {n.height} and balance {n.balance} instead of {heights[n]} and {a - b}"]
        if abs(a - b) > 1:
            return [f"heights {a} and {b} below {n.data} in a tree of {len(order)} nodes"]
    return []


def check_many(n, inserted, removed):
    def run():
        root, bad, inside = None, [], set()

        def judge():
            if [x.data for x in inorder(root)] != sorted(inside):
                return [f"the tree does not hold the {len(inside)} keys that were inserted {inserted}, removed {removed}"]
            if root is None:
                return []
            wrong = quick_sound(root, root.parent)
            for k in range(0, n, 7):
                found = Tree.find(root, k)
                if (found is not None) != (k in inside) or found is not None and found.data != k:
                    wrong.append(f"looking for {k} gives {found and found.data}")
            return wrong

        for i, k in enumerate(ORDERS[inserted](n)):
            root = Tree.insert(root, Node(k))
            inside.add(k)
            if i % 61 == 0 and not bad:
                bad += judge()
        bad += judge()
        for i, k in enumerate(ORDERS[removed](n)):
            root = Tree.delete(root, k)
            inside.discard(k)
            if i % 61 == 0 and not bad:
                bad += judge()
        return bad or judge()

    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def check_beach(n, place, cut):
    """Leaves are replaced by trees of three as a site event does, and cut off as a circle event does."""
    def run():
        root, bad = Node(0), []
        leaves, fresh = [root], itertools.count(1)

        def three():
            top, low = Node("b"), Node("b")
            a, b, c = (Node(next(fresh)) for _ in range(3))
            top.left, top.right = a, low
            low.left, low.right = b, c
            return top, [a, b, c]

        def judge():
            got = Tree.get_leaves(root)
            if len(got) != len(leaves) or any(a is not b for a, b in zip(got, leaves)):
                return [f"the leaves are not the {len(leaves)} expected ones ({place}, {cut})"]
            wrong = quick_sound(root, None)
            for k in range(len(leaves)):
                if leaves[k].predecessor is not (leaves[k - 1] if k else None) or \
                        leaves[k].successor is not (leaves[k + 1] if k + 1 < len(leaves) else None):
                    return wrong + [f"the neighbours of leaf {k} of {len(leaves)} are wrong"]
            return wrong

        step = 0
        while len(leaves) < n and not bad:
            k = PLACES[place](len(leaves), step)
            top, new = three()
            root = leaves[k].replace_leaf(top, root)
            root = Tree.balance_and_propagate(top)
            leaves[k:k + 1] = new
            step += 1
            if step % 29 == 0 or len(leaves) < 40:
                bad += judge()
        bad += judge()
        while len(leaves) > 1 and not bad:
            k = PLACES[cut](len(leaves), step)
            leaf = leaves.pop(k)
            sibling = leaf.parent.right if leaf.is_left_child() else leaf.parent.left
            root = leaf.parent.replace_leaf(sibling, root)
            root = Tree.balance_and_propagate(sibling)
            step += 1
            if step % 29 == 0 or len(leaves) < 40:
                bad += judge()
        return bad

    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def shapes(n):
    if n == 0:
        yield None
        return
    for left in range(n):
        for a in shapes(left):
            for b in shapes(n - 1 - left):
                yield a, b


def values(s, names):
    """A tree of the shape s with the given names in order of the walk from left to right."""
    if s is None:
        return None
    left = values(s[0], names)
    node = Paired(next(names))
    node.left, node.right = left, values(s[1], names)
    return node


def value_cases(n):
    for s in shapes(n):
        for ks in itertools.product((1, 2, 3), repeat=n):
            yield s, ks


def check_values(s, ks):
    """A value is found by comparison, even when its key leads the wrong way, as it does when keys are rounded."""
    def run():
        root, bad = values(s, iter([(k, i) for i, k in enumerate(ks)])), []
        for node in inorder(root) if root is not None else []:
            for compare in (None, lambda x, y: x[1] == y[1], lambda x, y: y == x):
                found = Tree.find_value(root, Paired(node.data), **(dict(compare=compare) if compare else {}))
                if found is not node:
                    bad.append(f"the value {node.data} is not found")
        for k in (0, 1, 2, 3, 4):
            for i in range(-1, len(ks) + 1):
                if (k, i) not in [(k, i) for i, k in enumerate(ks)] and Tree.find_value(root, Paired((k, i))) is not None:
                    bad.append(f"the value {(k, i)} is found")
        # the comparison gets the value in the tree first
        seen = []
        if root is not None:
            Tree.find_value(root, Paired((ks[0], "query")), compare=lambda x, y: seen.append((x, y)))
            if any(y != (ks[0], "query") or x == y for x, y in seen):
                bad.append("the arguments of the comparison are mixed up")
        return bad

    bad, complaint = core.attempt(run)
    return [complaint] if complaint else bad


def balanced(s):
    return s is None or (abs(height(s[1]) - height(s[2])) <= 1 and balanced(s[1]) and balanced(s[2]))


def check_leaves(s):
    bad, complaint = core.attempt(judge_leaves, s)
    return [complaint] if complaint else bad


BOUNDS = {t: f"all reachable trees of insertions and removals of {KEYS[t]} distinct keys, every transition from every one of them; all binary "
             f"trees with up to {LEAVES[t]} leaves for the navigation between leaves, the replacement of a leaf, the rotations and the rebalancing; insertion and "
             f"removal of {', '.join(map(str, LONG[t]))} keys in the order of every pair of step sizes (few removals for more than 29 keys), also with keys that depend on an argument, "
             f"negative, decimal and textual keys; {MANY[t]} keys inserted and "
             f"removed in every pair of {len(ORDERS)} orders; a tree that grows to {MANY[t]} leaves by replacement and shrinks by cutting off, at every pair of {len(PLACES)} places; the search for a value in all trees of up to {KEYED[t]} nodes with all assignments of three keys, in order or not"
          for t in KEYS}


def jobs(tier):
    for n in range(1, KEYS[tier] + 1):
        yield ("keys", n)
    for n in range(1, LEAVES[tier] + 1):
        parts = 1 if n < 6 else 16
        for part in range(parts):
            yield ("leaves", n, part, parts)
    for n in LONG[tier]:
        for part in range(8):
            yield ("long", n, part, 8)
    for n in range(KEYED[tier] + 1):
        yield ("values", n, 0, 1)
    for inserted, removed in itertools.product(ORDERS, repeat=2):
        yield ("many", MANY[tier], inserted, removed)
    for place, cut in itertools.product(PLACES, repeat=2):
        yield ("beach", MANY[tier], place, cut)


def work(job, out):
    if job[0] == "keys":
        explore_keys(job[1], out)
        return
    if job[0] in ("many", "beach"):
        bad = (check_many if job[0] == "many" else check_beach)(*job[1:])
        out.state(job[1])
        out.transition(2 * job[1])
        out.trace()
        out.outcome(job)
        if bad:
            out.violation(dict(kind=job[0], case=job[1:]), bad, 1000)
        return
    _, n, part, parts = job
    if job[0] in ("long", "values"):
        judge, cases = (lambda *c: check_long(n, *c), long_cases(n)) if job[0] == "long" else (check_values, value_cases(n))
        for case in itertools.islice(cases, part, None, parts):
            bad = judge(*case)
            out.state()
            out.transition(2 * n)
            out.trace()
            out.outcome((job[0], n) + case)
            if bad:
                out.violation(dict(kind=job[0], n=n, case=case), bad, n)
            if out.full:
                return
        out.sample(dict(kind=job[0], n=n))
        return
    for s in itertools.islice(leaf_trees(0, n), part, None, parts):
        bad = check_leaves(s)
        out.state()
        out.transition(4 * n)
        out.trace()
        out.outcome(s)
        if bad:
            out.violation(dict(kind="leaves", tree=s), bad, n)
        if out.full:
            return
    out.sample(dict(leaves=n, last=str(s) if part == 0 else ""))


def _tuple(s):
    return None if s is None else (s[0], _tuple(s[1]), _tuple(s[2]))


def _pairs(s):
    return None if s is None else tuple(_pairs(x) for x in s)


def replay(case):
    if case["kind"] == "keys":
        steps = [tuple(s) for s in case["steps"]]
        before, _ = check_keys(steps[:-1], range(1, case["n"] + 1))
        bad, after = check_keys(steps, range(1, case["n"] + 1))
        return bad
    if case["kind"] in ("many", "beach"):
        return (check_many if case["kind"] == "many" else check_beach)(*case["case"])
    if case["kind"] == "long":
        return check_long(case["n"], *case["case"])
    if case["kind"] == "values":
        return check_values(_pairs(case["case"][0]), case["case"][1])
    return check_leaves(_tuple(case["tree"]))
