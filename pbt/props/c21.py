"""C21: the solid-description tree stores what was inserted and prints it faithfully."""
from .. import build, gen
from ..core import Sub, require

RULE = "Histories of insertions, reads and value changes at random nodes, against a model; random expression trees against their text."
go = build.go


class Node:
    def __init__(self, v):
        self.v, self.l, self.r = v, None, None


def value(s):
    return s.weighted((3, lambda s: s.pick(["union", "intersect", "difference"])), (3, lambda s: "v%d" % s.below(50)), (1, lambda s: s.sint(3)),
                      (1, lambda s: s.pick(["", 0, None, False])), (1, lambda s: [s.sint(2)]))


def history_case(s):
    return {"root": value(s), "ops": [[s.pick(["left", "right", "left", "right", "set", "read"]), [s.below(2) for _ in range(s.below(5))], value(s)]
                                      for _ in range(s.int(1, 25))]}


def same(t, m, path, seen):
    """the tree and the model hold the same values in the same places"""
    while True:
        require((t is None) == (m is None), "at %s the tree %s a node, expected %s", path or "the root", "has no" if t is None else "has",
                "none" if m is None else repr(m.v))
        if t is None:
            return
        require(isinstance(t, go.BinaryTree), "at %s there is %r instead of a tree", path or "the root", t)
        require(id(t) not in seen, "one node is in two places: %s", path)
        seen.add(id(t))
        v = t.getRootVal()
        require(v is m.v or (type(v) is type(m.v) and v == m.v), "at %s the value is %r, expected %r", path or "the root", v, m.v)
        same(t.getLeftChild(), m.l, path + "L", seen)
        t, m, path = t.getRightChild(), m.r, path + "R"


def o_history(c):
    tree = go.BinaryTree(c["root"])
    model = Node(c["root"])
    pushed = 0
    for op, path, v in c["ops"]:
        t, m = tree, model
        for step in path:
            mm = m.r if step else m.l
            if mm is None:
                break
            t = t.getRightChild() if step else t.getLeftChild()
            m = mm
            require(t is not None, "the child that was inserted is gone")
        if op == "set":
            t.setRootVal(v)
            m.v = v
        elif op == "read":
            require(t.getRootVal() is m.v or t.getRootVal() == m.v, "reading gives %r instead of %r", t.getRootVal(), m.v)
        else:
            n = Node(v)
            if op == "left":
                old = t.getLeftChild()
                pushed += m.l is not None
                n.l, m.l = m.l, n
                t.insertLeft(v)
                new = t.getLeftChild()
                require(new is not old, "nothing was inserted on the left")
                require(new.getLeftChild() is old, "the left child was replaced instead of pushed down")
            else:
                old = t.getRightChild()
                pushed += m.r is not None
                n.r, m.r = m.r, n
                t.insertRight(v)
                new = t.getRightChild()
                require(new is not old, "nothing was inserted on the right")
                require(new.getRightChild() is old, "the right child was replaced instead of pushed down")
        same(tree, model, "", set())
    return ["nt", "pushed down"] if pushed else ["nt"] if len(c["ops"]) > 1 else []


# ---------------------------------------------------------------- printing
NAMES = ["a", "b", "c", "lens", "sphere_1", "A", "x2"]
OPCHAR = {"union": "u", "intersect": "n", "difference": "\\"}


def expr(s, depth):
    if depth <= 0 or s.bool(0.2):
        k = s.byte()
        if k < 150:
            if s.bool(0.05):
                return s.pick(NAMES) + "_of_a_rather_long_name" * s.int(1, 9)
            return s.pick(NAMES) + str(s.below(30))
        if k < 180:
            return s.int(1, 99)
        return {"sphere": [s.sint(5), s.sint(5), s.sint(5), s.int(1, 9)]}
    return {"op": s.pick(["union", "intersect", "difference"]), "a": expr(s, depth - 1 - s.below(2)), "b": expr(s, depth - 1 - s.below(2))}


def print_case(s):
    e = expr(s, s.int(0, 6))
    if s.bool(0.08):  # a long description, leaning to one side or the other
        other = expr(s, 2)
        for _ in range(s.int(2, 120)):
            a, b = (e, other) if s.bool() else (other, e)
            e = {"op": s.pick(["union", "intersect", "difference"]), "a": a, "b": b}
    return {"e": e, "grow": s.bool()}


def leaf_obj(e, memo):
    if isinstance(e, dict):
        k = tuple(e["sphere"])
        if k not in memo:
            memo[k] = build.shapes.Sphere(build.arr(e["sphere"][:3]), R=e["sphere"][3])
        return memo[k]
    return e


def text(e, memo):
    if isinstance(e, dict) and "op" in e:
        return "(" + text(e["a"], memo) + OPCHAR[e["op"]] + text(e["b"], memo) + ")"
    return str(leaf_obj(e, memo))


def fill(node, e, memo):
    if isinstance(e, dict) and "op" in e:
        node.setRootVal(e["op"])
        node.insertLeft("?")
        node.insertRight("?")
        fill(node.getLeftChild(), e["a"], memo)
        fill(node.getRightChild(), e["b"], memo)
    else:
        node.setRootVal(leaf_obj(e, memo))


def strip(t):
    return "".join(t.split())


def size(e):
    return 1 + size(e["a"]) + size(e["b"]) if isinstance(e, dict) and "op" in e else 0


def o_print(c):
    memo = {}
    t = go.BinaryTree("?")
    fill(t, c["e"], memo)
    got = go.postOrderEval(t)
    n = size(c["e"])
    if n == 0:
        leaf = leaf_obj(c["e"], memo)
        require(got is leaf or got == leaf or str(got) == str(leaf), "a single leaf %r prints as %r", leaf, got)
        return []
    want = text(c["e"], memo)
    require(isinstance(got, str), "a description of %d operations prints as %r", n, got)
    require(strip(got) == strip(want), "printed %s, expected %s", got, want)
    require(go.postOrderEval(t) == got, "printing twice gives different texts")
    if c["grow"]:  # the tree becomes one operand of a larger one
        top = go.BinaryTree("difference")
        top.insertLeft("whole")
        top.insertRight("part")
        top.leftChild = t
        got2 = go.postOrderEval(top)
        require(strip(got2) == strip("(" + want + "\\part)"), "printed %s inside a larger description whose text is %s", want, got2)
    # printing changes nothing
    require(strip(str(go.postOrderEval(t))) == strip(text(c["e"], memo)), "the tree changed while printing")
    return ["nt"] if n >= 2 else []


SUBS = [
    Sub("history", lambda: gen.decoded(history_case, 260), o_history, quick=6000, shards=3, rule="more than one operation"),
    Sub("print", lambda: gen.decoded(print_case, 160), o_print, quick=6000, shards=2, rule="two or more operations"),
]
