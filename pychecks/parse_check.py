"""C29 on the real parse trees: every small parser run, every small tree."""
import itertools, os, sys
os.environ["TQDM_DISABLE"] = "1"
import pvh
from pvh import Suite, check, fail, st
from tracemock import Trace
from polytracker.grammars import parse_tree_to_grammar
from polytracker.parsing import ImmutableParseTree, MutableParseTree, NonGeneralizedParseTree, Start, Terminal, trace_to_non_generalized_tree, trace_to_tree
from polytracker.tracing import BasicBlockEntry, FunctionInvocation


def steps(al, n):
    """Every string of steps in which returns match calls, without a trailing return (that is implied)."""
    def rec(s, d):
        yield s
        if len(s) < n:
            for c in al:
                if c == ")" and d == 0:
                    continue
                yield from rec(s + c, d + (c in "fg") - (c == ")"))
    return (s for s in rec("", 0) if not s.endswith(")"))


def r_gen(thorough):
    for al, n, content in ([("rpbf)", 8, "abca"), ("rlfg)", 8, "aab"), ("rpsbf)", 7, "abc"), ("rpkbf)", 7, "abc"), ("rf)", 12, "abab")] if thorough else
                           [("rpbf)", 6, "abca"), ("rlfg)", 6, "aab"), ("rpsbf)", 6, "abc"), ("rpkbf)", 6, "abc"), ("rf)", 9, "abab")]):
        for s in steps(al, n):
            yield [content, s]


def lawful(n, content):
    """Checks a node and everything below; returns its range."""
    b, e = n.begin_offset, n.end_offset
    check(0 <= b <= e <= len(content), f"{n.value!s} covers {b}..{e} of {len(content)} bytes")
    if isinstance(n.value, Terminal):
        check(not n.children, "a terminal has children")
        check(n.value.terminal == content[b:e], f"terminal {n.value!s} is placed at {b}..{e}, which holds {content[b:e]!r}")
        check(b < e, "an empty terminal")
        return b, e
    at = b
    for c in n.children:
        cb, ce = lawful(c, content)
        check(cb >= b and ce <= e, f"{c.value!s} ({cb}..{ce}) lies outside its parent {n.value!s} ({b}..{e})")
        check(cb >= at, f"{c.value!s} ({cb}..{ce}) starts before its left sibling ends ({at})")
        check(cb == at, f"{c.value!s} ({cb}..{ce}) leaves a gap after {at} in {n.value!s}")
        at = ce
    check(at == e, f"the children of {n.value!s} ({b}..{e}) end at {at}")
    return b, e


def shape(t):
    return (id(t.value), tuple(shape(c) for c in t.children))


def r_run(c):
    content, s = c[0].encode(), c[1]
    back = "k" in s
    tr = Trace(content, s)
    try:
        tree = trace_to_non_generalized_tree(tr)
    except ValueError as e:
        if back:
            return  # a parser that goes back may be refused
        raise
    st.transitions += len(tr.events)
    st.states += 1
    check(isinstance(tree.value, Start), "the tree does not start at the start")
    check(tree.matches() == content, lambda: f"the leaves give {tree.matches()!r}")
    check((tree.begin_offset, tree.end_offset) == (0, len(content)), "the tree does not cover the input")
    lawful(tree, content)
    tree.verify(content)
    # calls appear inside their callers, in order
    order = [n.value.uid for n in tree.preorder_traversal() if isinstance(n.value, (BasicBlockEntry, FunctionInvocation))]
    check(len(order) == len(set((type(n.value).__name__, n.value.uid) for n in tree.preorder_traversal() if not isinstance(n.value, (Start, Terminal)))), "an event appears twice")
    for n in tree.preorder_traversal():
        if isinstance(n.value, FunctionInvocation):
            for k in n.children:
                if isinstance(k.value, BasicBlockEntry):
                    check(k.value.function_entry is n.value.function_entry, "a basic block sits in the tree of another call")
    copy = tree.clone()
    check(shape(copy) == shape(tree) and copy.matches() == content, "the copy differs")
    before = shape(tree)
    copy.simplify()
    check(copy.matches() == content, lambda: f"the leaves of the simplified copy give {copy.matches()!r}")
    check(shape(tree) == before, "simplifying the copy changed the original")
    tree.simplify()
    check(tree.matches() == content, lambda: f"the leaves of the simplified tree give {tree.matches()!r}")
    lawful(tree, content)
    # the grammar it gives derives the input
    g = parse_tree_to_grammar(tree)
    g.verify(True)
    check(bool(g.match(content)), lambda: f"the extracted grammar does not derive the input: {g!s}")
    g.simplify()
    check(bool(g.match(content)), lambda: f"the simplified grammar does not derive the input: {g!s}")
    # the plain tree lists what was consumed, in order
    plain = trace_to_tree(Trace(content, s), NonGeneralizedParseTree, True)
    got = b"".join(n.value.terminal for n in plain.preorder_traversal() if isinstance(n.value, Terminal))
    want = b"".join(content[i:i + 1] for e in tr.events if isinstance(e, BasicBlockEntry) for i in sorted(set(e.consumed)))
    check(got == want, f"the tree with terminals lists {got!r}, consumed was {want!r}")
    st.nontrivial += any(x in s for x in "rp")


# ---- plain trees
def shapes(n):
    """All ordered trees with n nodes, as nested lists."""
    if n == 1:
        yield []
        return
    def forests(m):
        if m == 0:
            yield []
            return
        for k in range(1, m + 1):
            for t in shapes(k):
                for f in forests(m - k):
                    yield [t] + f
    yield from forests(n - 1)


def t_gen(thorough):
    for n in range(1, 9 if thorough else 8):
        for s in shapes(n):
            yield s


def t_run(sh):
    for cls in (ImmutableParseTree, MutableParseTree):
        num = itertools.count()

        def make(s):
            i = next(num)
            return cls(i, [make(x) for x in s])
        t = make(sh)

        def pre(s, n):
            out = [n.value]
            for x, c in zip(s, n.children):
                out += pre(x, c)
            return out

        def post(n):
            return [v for c in n.children for v in post(c)] + [n.value]
        N = len(pre(sh, t))
        check([n.value for n in t.preorder_traversal()] == list(range(N)), "preorder is wrong")
        check([n.value for n in t.postorder_traversal()] == post(t), "postorder is wrong")
        check([n.value for n in t.leaves()] == [n.value for n in t.preorder_traversal() if not n.children], "leaves are wrong")
        for n in t.preorder_traversal():
            check(n.is_leaf() == (not n.children) and len(n) == len(n.children) and list(n) == list(n.children), "children are wrong")
            check(all(n[i] is c for i, c in enumerate(n.children)), "indexing is wrong")

        def desc(n):
            return sum(1 + desc(c) for c in n.children)
        check(t.descendants == N - 1, f"{t.descendants} descendants in a tree of {N} nodes")
        for n in t.preorder_traversal():
            check(n.descendants == desc(n), "the number of descendants is wrong")
        c = t.clone()
        check(type(c) is cls and shape(c) == shape(t), "the clone differs")
        check(not ({id(n) for n in c.preorder_traversal()} & {id(n) for n in t.preorder_traversal()}), "the clone shares nodes with the original")
        d = t.to_dag()
        edges = sorted((a.value, b.value) for a, b in d.edges())
        check(edges == sorted((n.value, k.value) for n in t.preorder_traversal() for k in n.children) and len(d.nodes) == N, "the graph differs")

        def text(n):
            return str(n.value) + (" [" + " ".join(text(k) for k in n.children) + "]" if n.children else "")
        check(text_norm(str(t)) == text_norm(text(t)), f"str gives {t!s}, expected {text(t)}")
        if cls is MutableParseTree:
            c.add_child(cls(99))
            check(len(c.children) == len(t.children) + 1 and [n.value for n in c.preorder_traversal()] == list(range(N)) + [99], "add_child is wrong")
            c[0] = cls(98)
            check(c[0].value == 98 and [n.value for n in t.preorder_traversal()] == list(range(N)), "changing the clone changed the original")
    st.nontrivial += 1
    st.states += N


# simplifying a tree of any shape
def s_gen(thorough):
    for n in range(2, 8 if thorough else 7):
        for sh in shapes(n):
            yield sh


def s_run(sh):
    tr = Trace(b"abc", "rbrbf")
    bb = next(e for e in tr.events if isinstance(e, BasicBlockEntry))
    inner = []

    def count(x):
        if x:
            inner.append(x)
            for y in x:
                count(y)
    count(sh)
    for kinds in itertools.product((True, False), repeat=len(inner)):
        num, it = itertools.count(), iter(kinds)

        def make(x):
            if not x:
                return NonGeneralizedParseTree(Terminal(bytes([97 + next(num)])))
            v = bb if next(it) else Start()
            return NonGeneralizedParseTree(v, [make(y) for y in x])
        t = make(sh)
        want = bytes(range(97, 97 + next(num)))
        check(t.matches() == want, "the leaves are wrong")
        values = [n.value for n in t.preorder_traversal() if isinstance(n.value, Start)]
        t.simplify()
        check(t.matches() == want, lambda: f"simplifying turned {want!r} into {t.matches()!r}")
        check([n.value for n in t.preorder_traversal() if isinstance(n.value, Start)] == values, "simplifying removed something other than a basic block")
        st.states += 1
    st.nontrivial += 1


def text_norm(s):
    return s.replace(" ", "")


# longer runs of a few shapes
SHAPES = {"reads": lambda k: ("r" * k, k), "blocks": lambda k: ("br" * k, k), "loop": lambda k: ("rl" * k, k), "calls": lambda k: ("fr)" * k, k),
          "pairs": lambda k: ("fr)gr)r" * k, 3 * k), "nested": lambda k: ("rf" * k + "r)" * k, 2 * k), "left": lambda k: ("f" * k + "r)" * k, k),
          "peek": lambda k: ("pfr)" * k, k), "tail": lambda k: ("rb" * k + "ss" * k, 3 * k), "wide": lambda k: ("f" + "r" * k + ")" + "g" + "r" * k + ")", 2 * k)}


def scale_gen(thorough):
    for name in SHAPES:
        for k in list(range(3, 14)) + [16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 129, 257]:
            if name == "pairs" and k > 65 or name in ("nested", "left") and k > 65:
                continue
            yield [name, k]


def scale_text(c):
    s, n = SHAPES[c[0]](c[1])
    return [bytes((i * 7 + i // 26) % 26 + 97 for i in range(n)).decode(), s]


def big_gen(thorough):
    for kind in ("chain", "star", "comb", "binary"):
        for k in list(range(5, 14)) + [31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 900, 1100, 2000]:
            yield [kind, k]


def big_run(c):
    """Large trees: traversals, leaves, counts, copies."""
    kind, k = c
    par = [None] + [i - 1 if kind == "chain" else 0 if kind == "star" else (i - 1) // 2 if kind == "binary" else (i - 2 if i % 2 == 0 else i - 1) for i in range(1, k)]
    for cls in (ImmutableParseTree, MutableParseTree):
        kids = {i: [j for j in range(k) if par[j] == i] for i in range(k)} if k < 400 else None
        if kids is None:
            kids = {i: [] for i in range(k)}
            for j in range(1, k):
                kids[par[j]].append(j)
        nodes = {}
        for i in range(k - 1, -1, -1):
            nodes[i] = cls(i, [nodes[j] for j in kids[i]])
        t = nodes[0]
        pre, todo = [], [0]
        while todo:
            x = todo.pop()
            pre.append(x)
            todo += reversed(kids[x])
        post, todo = [], [0]
        while todo:
            x = todo.pop()
            post.append(x)
            todo += kids[x]
        post.reverse()
        check([n.value for n in t.preorder_traversal()] == pre, "preorder is wrong")
        check([n.value for n in t.postorder_traversal()] == post, "postorder is wrong")
        check([n.value for n in t.leaves()] == [x for x in pre if not kids[x]], "leaves are wrong")
        check(t.descendants == k - 1, lambda: f"{t.descendants} descendants in a tree of {k} nodes")
        copy = t.clone()
        check([(n.value, [x.value for x in n.children]) for n in copy.preorder_traversal()] == [(x, kids[x]) for x in pre], "the clone differs")
        d = t.to_dag()
        check(len(d.nodes) == k and len(d.edges) == k - 1, "the graph differs")
    st.nontrivial += 1
    st.states += k


SUITES = [
    Suite("c29_tbig", "chains, stars, combs and binary trees of up to 2000 nodes", big_gen, big_run),
    Suite("c29_scale", "runs of ten shapes (long reads, many blocks, loops, many calls, deep calls) of 3-13 and up to 257 repetitions (65 for nested calls)", scale_gen, lambda c: r_run(scale_text(c))),
    Suite("c29_runs", "every run of a small parser: reads, look-aheads, skips, steps back, basic blocks and nested calls, up to 6-9 (7-12) steps over inputs of 3-4 bytes",
          r_gen, r_run, lambda c: f"input {c[0]!r}, steps {c[1]}"),
    Suite("c29_trees", "every ordered tree up to 7 (8) nodes", t_gen, t_run),
    Suite("c29_simplify", "every ordered tree up to 6 (7) nodes, every choice of basic blocks, simplified", s_gen, s_run),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
