"""C26 graph queries, C30 caches and ordered sets."""
import itertools, math, sys
import pvh
from pvh import Suite, check, fail, st

from polytracker import graphs, cache
from polytracker.cache import memoize

# ---------------------------------------------------------------- C30
KEYS = ["a", "b", "c", "d"]


class LruModel:
    def __init__(self, size):
        self.size, self.l = size, []

    def find(self, k):
        return next((i for i, (x, _) in enumerate(self.l) if x == k), None)

    def use(self, k):
        i = self.find(k)
        if i is None:
            return None
        self.l.append(self.l.pop(i))
        return self.l[-1][1]

    def set(self, k, v):
        i = self.find(k)
        if i is not None:
            self.l.pop(i)
        self.l.append((k, v))
        if self.size is not None:
            while len(self.l) > self.size:
                self.l.pop(0)

    def drop(self, k):
        i = self.find(k)
        return None if i is None else self.l.pop(i)[1]


MISSING = object()


def raising(f):
    try:
        return f()
    except KeyError:
        return MISSING


def op_set(k):
    def f(c, m, n):
        c[KEYS[k]] = n
        m.set(KEYS[k], n)
    return (f"[{KEYS[k]}]=", f)


def op_get(k):
    def f(c, m, n):
        a, i = raising(lambda: c[KEYS[k]]), m.find(KEYS[k])
        check((a is MISSING) == (i is None), f"lookup of {KEYS[k]} {'missed' if i is not None else 'found a value'}")
        if i is not None:
            check(a == m.use(KEYS[k]), f"lookup of {KEYS[k]} returned {a}")
    return (f"get {KEYS[k]}", f)


def op_getd(k):
    def f(c, m, n):
        a, b = c.get(KEYS[k], "dflt"), (m.use(KEYS[k]) if m.find(KEYS[k]) is not None else "dflt")
        check(a == b, f"get({KEYS[k]}, default) returned {a}, not {b}")
        if b == "dflt":
            check(c.get(KEYS[k], None) is None and c.get(KEYS[k], default=0) == 0, "a default of None or 0 is not returned")
    return (f"getdefault {KEYS[k]}", f)


def op_in(k):
    def f(c, m, n):
        a, b = KEYS[k] in c, m.find(KEYS[k]) is not None
        m.use(KEYS[k])
        check(a == b, f"{KEYS[k]} in cache is {a}")
    return (f"in {KEYS[k]}", f)


def op_del(k):
    def f(c, m, n):
        def d():
            del c[KEYS[k]]
        a, b = raising(d), m.drop(KEYS[k])
        check((a is MISSING) == (b is None), f"del {KEYS[k]} {'failed' if a is MISSING else 'succeeded'}")
    return (f"del {KEYS[k]}", f)


def op_pop(k):
    def f(c, m, n):
        a, b = c.pop(KEYS[k], "dflt"), m.drop(KEYS[k])
        check(a == ("dflt" if b is None else b), f"pop {KEYS[k]} returned {a}")
    return (f"pop {KEYS[k]}", f)


def op_iter(c, m, n):
    a = list(c)
    b = [k for k, _ in m.l]
    check(a == b, f"iteration yields {a}, least recently used first is {b}")


def op_iter1(c, m, n):
    for k in c:
        check(m.l and k == m.l[0][0], f"iteration starts with {k}")
        m.use(k)
        return
    check(not m.l, "iteration of a cache with entries yields nothing")


def op_items(c, m, n):
    a = list(c.items())
    check(a == m.l, f"items are {a}, not {m.l}")


LRU_OPS = [op_set(0), op_set(1), op_set(2), op_set(3), op_get(0), op_get(1), op_in(2), op_getd(0), op_del(0), op_pop(1),
           ("iterate", op_iter), ("iterate one", op_iter1), ("items", op_items)]
SIZES = [1, 2, 3, None, 0]


def lru_gen(th):
    for s in range(len(SIZES)):
        d = (6 if th else 5) if SIZES[s] in (2, 3) else 4
        for seq in itertools.product(range(len(LRU_OPS)), repeat=d):
            yield [s, list(seq)]


def lru_run(case):
    size = SIZES[case[0]]
    c, m = cache.LRUCache(max_size=size), LruModel(size)
    for n, o in enumerate(case[1]):
        LRU_OPS[o][1](c, m, n)
        st.transitions += 1
        check(len(c) == len(m.l), lambda: f"after {LRU_OPS[o][0]}: {len(c)} entries, not {len(m.l)}")
        check(size is None or len(c) <= size, "the bound is exceeded")
    check(list(c.items()) == m.l, lambda: f"at the end the cache holds {list(c.items())}, not {m.l}")
    st.nontrivial += bool(m.l)


def lru_desc(case):
    return f"LRUCache({SIZES[case[0]]}): " + "; ".join(LRU_OPS[o][0] for o in case[1])


OS_VALS = [1, "x", (2, 3)]


def os_ops():
    o = []
    for v in range(3):
        o.append((f"add {OS_VALS[v]}", lambda s, m, v=v: (s.add(OS_VALS[v]), m.append(OS_VALS[v]) if OS_VALS[v] not in m else None)))
        o.append((f"discard {OS_VALS[v]}", lambda s, m, v=v: (s.discard(OS_VALS[v]), m.remove(OS_VALS[v]) if OS_VALS[v] in m else None)))

    def rem(s, m):
        a = raising(lambda: s.remove("x"))
        check((a is MISSING) == ("x" not in m), "remove of a missing item must fail, of a present one succeed")
        if "x" in m:
            m.remove("x")
    o.append(("remove x", rem))

    def clear(s, m):
        s.clear()
        m.clear()
    o.append(("clear", clear))

    def ior(s, m):
        s |= graphs.OrderedSet((2, 3), 1)
        for x in ((2, 3), 1):
            if x not in m:
                m.append(x)
    o.append(("|= {(2,3),1}", ior))

    def isub(s, m):
        s -= {1}
        if 1 in m:
            m.remove(1)
    o.append(("-= {1}", isub))
    return o


OS_OPS = os_ops()


def os_gen(th):
    inits = [[], [0], [2, 0], [0, 1, 0], [1, 2, 0]]
    for i in range(len(inits)):
        for seq in itertools.product(range(len(OS_OPS)), repeat=5 if th else 4):
            yield [inits[i], list(seq)]


def os_run(case):
    s = cache.OrderedSet(*(OS_VALS[i] for i in case[0]))
    m = []
    for i in case[0]:
        if OS_VALS[i] not in m:
            m.append(OS_VALS[i])
    for o in case[1]:
        OS_OPS[o][1](s, m)
        st.transitions += 1
        check(list(s) == m, lambda: f"after {OS_OPS[o][0]}: {list(s)}, not {m}")
        check(len(s) == len(m), "length")
        for v in OS_VALS:
            check((v in s) == (v in m), f"membership of {v}")
        check(set(s) == set(m) and (s == set(m)), "equality with the plain set")
        check(str(s) == "{" + ", ".join(str(x) for x in m) + "}", "text form")
    check(set(s & {1, "x"}) == {x for x in m if x in (1, "x")}, "intersection")
    check(list(s - {1}) == [x for x in m if x != 1], "difference")
    check(set(s | {7}) == set(m) | {7}, "union")
    check((s <= set(OS_VALS)) and (s < set(OS_VALS)) == (len(m) < 3), "subset tests")
    check(s.isdisjoint({1}) == (1 not in m), "isdisjoint")
    st.nontrivial += bool(m)


# ---------------------------------------------------------------- C26
def node(i):
    return ("n", str(i))  # fresh, equal objects: nodes are compared by equality


def reach(n, adj):
    """Distances by breadth-first search."""
    d = [[math.inf] * n for _ in range(n)]
    for s in range(n):
        d[s][s] = 0
        q = [s]
        for x in q:
            for y in range(n):
                if adj[x][y] and d[s][y] == math.inf:
                    d[s][y] = d[s][x] + 1
                    q.append(y)
    return d


def idoms(n, adj, root, d):
    """Immediate dominators of the nodes reachable from root, by deleting nodes."""
    r = {}
    live = [v for v in range(n) if d[root][v] < math.inf]
    dom = {v: {root, v} for v in live}
    for x in live:
        if x == root:
            continue
        seen, q = {root}, [root]
        for a in q:
            for b in live:
                if adj[a][b] and b != x and b not in seen:
                    seen.add(b)
                    q.append(b)
        for v in live:
            if v not in seen:
                dom[v].add(x)
    for v in live:
        if v != root:
            strict = dom[v] - {v}
            r[v] = next(x for x in strict if all(y in dom[x] for y in strict))
    return r


def build(n, edges, cls=graphs.DiGraph):
    g = cls()
    for i in range(n):
        g.add_node(node(i))
    for a, b in edges:
        g.add_edge(node(a), node(b))
    return g


def g_gen(th):
    for n in (1, 2, 3):
        pairs = [(a, b) for a in range(n) for b in range(n)]
        for m in range(1 << len(pairs)):
            yield [n, [p for i, p in enumerate(pairs) if m >> i & 1]]
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    for m in range(1 << len(pairs)):
        yield [4, [p for i, p in enumerate(pairs) if m >> i & 1]]
    # five nodes: all graphs whose edges go forward except for at most one back edge
    fw = [(a, b) for a in range(5) for b in range(a + 1, 5)]
    backs = [None] + [(b, a) for a, b in fw]
    for m in range(1 << len(fw)):
        e = [p for i, p in enumerate(fw) if m >> i & 1]
        for b in backs if th else backs[:1] + [(3, 1), (4, 0), (4, 3)]:
            yield [5, e + ([b] if b else [])]


def g_oracle(n, edges):
    adj = [[False] * n for _ in range(n)]
    for a, b in edges:
        adj[a][b] = True
    d = reach(n, adj)
    roots = [v for v in range(n) if not any(adj[u][v] for u in range(n))]
    return adj, d, roots


def q_paths(g, n, adj, d, roots):
    for a in range(n):
        for b in range(n):
            x = g.path_length(node(a), node(b))
            check(x == d[a][b], lambda: f"path length from {a} to {b} is {x}, not {d[a][b]}")


def q_roots(g, n, adj, d, roots):
    x = list(g.roots)
    check(sorted(x) == [node(r) for r in roots], lambda: f"roots {x}, not {roots}")


def q_depth(g, n, adj, d, roots):
    for v in range(n):
        want = min((d[r][v] for r in roots), default=math.inf)
        x = g.depth(node(v))
        check(x == want, lambda: f"depth of {v} is {x}, not {want}")


def q_anc(g, n, adj, d, roots):
    for v in range(n):
        x = list(g.ancestors(node(v)))
        want = {node(u) for u in range(n) if u != v and d[u][v] < math.inf}
        check(set(x) == want and len(x) == len(want), lambda: f"ancestors of {v} are {x}, not {want}")
        dist = [d[int(u[1])][v] for u in x]
        check(dist == sorted(dist), lambda: f"ancestors of {v} are not listed by distance: {x}")


def q_desc(g, n, adj, d, roots):
    for v in range(n):
        x = g.descendants(node(v))
        want = {node(u) for u in range(n) if u != v and d[v][u] < math.inf}
        check(set(x) == want, lambda: f"descendants of {v} are {set(x)}, not {want}")


def q_dom(g, n, adj, d, roots):
    want = set()
    for r in roots:
        for v, i in idoms(n, adj, r, d).items():
            want.add((node(i), node(v)))
    x = set(g.dominator_forest.edges)
    check(x == want, lambda: f"immediate dominators {x}, not {want}")
    nodes = set(g.dominator_forest.nodes)
    for v in range(n):
        check(node(v) in nodes or all(d[r][v] == math.inf for r in roots), lambda: f"{v} is missing from the dominator trees")


def q_pred(g, n, adj, d, roots):
    for v in range(n):
        want = sum(adj[u][v] for u in range(n)) == 1
        check(g.has_one_predecessor(node(v)) == want, lambda: f"has_one_predecessor({v}) is {not want}")


QS = [q_paths, q_roots, q_depth, q_anc, q_desc, q_dom, q_pred]


def g_run(case):
    n, edges = case
    o = g_oracle(n, edges)
    for order in (QS, list(reversed(QS))):
        g = build(n, edges)
        for q in order:
            q(g, n, *o)
        for q in order:  # answers from caches
            q(g, n, *o)
        st.transitions += 2 * len(order)
    g = build(n, edges, graphs.DAG)
    q_desc(g, n, *o)
    q_dom(g, n, *o)
    st.nontrivial += bool(edges)


def r_gen(th):
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    for m in range(1 << len(pairs)):
        e = [p for i, p in enumerate(pairs) if m >> i & 1]
        if not th and len(e) > 6:
            continue
        for r in ([0], [3], [1, 2], [0, 1, 2, 3]):
            yield [4, e, r]


def r_run(case):
    """Roots chosen by the user."""
    n, edges, roots = case
    adj, d, _ = g_oracle(n, edges)
    g = build(n, edges)
    g.set_roots([node(r) for r in roots])
    for q in (q_roots, q_depth, q_dom, q_paths):
        q(g, n, adj, d, roots)
    st.nontrivial += bool(edges)
    st.transitions += 4


def u_gen(th):
    pairs = [(a, b) for a in range(3) for b in range(3)]
    gs = [[p for i, p in enumerate(pairs) if m >> i & 1] for m in range(1 << len(pairs))]
    for a in gs:
        for b in gs if th else gs[:96]:
            yield [a, b]


def u_run(case):
    a, b = build(3, case[0]), build(3, case[1])
    u = graphs.non_disjoint_union_all(a, b)
    check(set(u.edges) == set(a.edges) | set(b.edges), "the union of two graphs has other edges than the two")
    check(isinstance(u, graphs.DiGraph), "class of the union")
    check(set(a.edges) == {(node(x), node(y)) for x, y in map(tuple, case[0])}, "an operand was changed")
    st.nontrivial += bool(case[0] and case[1])
    st.transitions += 1


def lb_gen(th):
    for size in list(range(4, 40)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300] + ([1000, 1024, 4097] if th else []):
        for stride in (1, 2, 3):
            yield [size, stride]
    yield [None, 1]


def lb_run(case):
    """Large caches: fill, touch every stride-th entry, overfill, compare."""
    size, stride = case
    c, m = cache.LRUCache(max_size=size), LruModel(size)
    n = size or 5000
    for k in range(n + 2 if size else n):
        c[k] = -k
        m.set(k, -k)
    if size is None:
        check(len(c) == n and list(c.items()) == m.l, "an unbounded cache lost an entry")
        st.nontrivial += 1
        return
    for k in range(2, n + 2, stride):
        check(c[k] == m.use(k), f"lookup of {k}")
    check(list(c) == [k for k, _ in m.l], "order after lookups")
    for k in range(n // 2):
        c[("x", k)] = k
        m.set(("x", k), k)
        check(len(c) == size, lambda: f"{len(c)} entries, not {size}")
    check(list(c.items()) == m.l, "contents after eviction")
    for k in range(0, n, 3):
        check((k in c) == (m.find(k) is not None), f"membership of {k}")
        m.use(k)
    check(list(c.items()) == m.l, "contents after membership tests")
    st.transitions += n * 3
    st.nontrivial += 1


def ob_gen(th):
    return [[n] for n in list(range(4, 30)) + [100, 128, 129, 255, 256, 257, 1000, 4097]]


def ob_run(case):
    n = case[0]
    vals = [(i * 7919) % (3 * n) for i in range(2 * n)]
    s = cache.OrderedSet(*vals)
    want = list(dict.fromkeys(vals))
    check(list(s) == want and len(s) == len(want), "order of insertion")
    for v in vals[::3]:
        s.discard(v)
        if v in want:
            want.remove(v)
    for v in vals[::5]:
        s.add(v)
        if v not in want:
            want.append(v)
    check(list(s) == want and len(s) == len(want) and s == set(want), "order after removals and additions")
    st.transitions += 2 * n
    st.nontrivial += 1


def gl_gen(th):
    for n in list(range(5, 24)) + [33, 64, 65, 100, 129, 257] + ([600, 1100] if th else [300]):
        for shape in ("chain", "cycle", "star", "ladder", "comb", "wheel"):
            yield [shape, n]


def gl_edges(shape, n):
    ch = [(i, i + 1) for i in range(n - 1)]
    if shape == "chain":
        return ch
    if shape == "cycle":  # entered from node 0
        return ch + [(n - 1, 1)]
    if shape == "star":
        return [(0, i) for i in range(1, n)]
    if shape == "ladder":  # diamonds in a row
        e = []
        for i in range(0, n - 3, 3):
            e += [(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]
        return e
    if shape == "comb":  # many roots
        return [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 3) for i in range(0, n - 3, 4)]
    return ch + [(0, i) for i in range(2, n, 2)] + [(i, i - 3) for i in range(4, n, 5)]


def gl_run(case):
    shape, n = case
    edges = gl_edges(shape, n)
    suc = {i: [] for i in range(n)}
    pre = {i: [] for i in range(n)}
    for a, b in edges:
        suc[a].append(b)
        pre[b].append(a)

    def bfs(s, nxt, skip=None):
        d, q = {s: 0}, [s]
        for x in q:
            for y in nxt[x]:
                if y not in d and y != skip:
                    d[y] = d[x] + 1
                    q.append(y)
        return d
    g = build(n, edges)
    roots = [v for v in range(n) if not pre[v]]
    check(sorted(g.roots) == sorted(node(r) for r in roots), "roots")
    pick = sorted({0, 1, 2, n // 3, n // 2, n - 2, n - 1})
    for a in pick:
        d = bfs(a, suc)
        for b in range(n):
            check(g.path_length(node(a), node(b)) == d.get(b, math.inf), lambda: f"path length from {a} to {b} of {n} nodes is {g.path_length(node(a), node(b))}, not {d.get(b)}")
        check(set(g.descendants(node(a))) == {node(b) for b in d if b != a}, f"descendants of {a}")
        u = bfs(a, pre)
        anc = list(g.ancestors(node(a)))
        check(set(anc) == {node(b) for b in u if b != a} and len(anc) == len(u) - 1, f"ancestors of {a}")
        dist = [u[int(x[1])] for x in anc]
        check(dist == sorted(dist), "order of ancestors")
    dr = [bfs(r, suc) for r in roots]
    for v in range(n):
        w = min((d[v] for d in dr if v in d), default=math.inf)
        check(g.depth(node(v)) == w, lambda: f"depth of {v} is {g.depth(node(v))}, not {w}")
    want = set()
    if n <= 130:
        for r in roots:
            live = bfs(r, suc)
            cut = {x: bfs(r, suc, x) for x in live if x != r}
            for v in live:
                if v != r:
                    doms = [x for x in live if x != v and (x == r or v not in cut[x])]
                    # the closest dominator is the one dominated by all others
                    i = next(x for x in doms if all(y == x or y == r or x not in cut[y] for y in doms))
                    want.add((node(i), node(v)))
        check(set(g.dominator_forest.edges) == want, "immediate dominators")
    elif shape == "chain":
        check(set(g.dominator_forest.edges) == {(node(a), node(b)) for a, b in edges}, "immediate dominators")
    st.transitions += n
    st.nontrivial += 1


# memoised functions: every result kind, number of calls and argument lists
MEMO = [None, False, 0, "", (), 0.0, 1, "x", [], [1], {}, float("nan")]


def memo_gen(th):
    for i in range(len(MEMO)):
        for calls in range(1, 6):
            for nargs in range(3):
                yield [i, calls, nargs]


def memo_run(case):
    i, calls, nargs = case
    seen = []

    def f(*a, **k):
        seen.append((a, k))
        return MEMO[i] if len(seen) == 1 else "again"
    m, other = memoize(f), memoize(lambda: "other")
    for c in range(calls):
        r = m(*range(nargs)) if c % 2 == 0 else m()
        check(r is MEMO[i], f"call {c + 1} of a memoised function returns {r!r}, the first returned {MEMO[i]!r}")
        check(len(seen) == 1, f"a memoised function was evaluated {len(seen)} times")
        check(other() == "other", "memoised functions share their results")
        st.transitions += 1
    check(seen[0] == (tuple(range(nargs)), {}), "arguments of a memoised function")
    st.nontrivial += 1


SUITES = [
    Suite("c30_memo", "memoised functions: 12 results (None, empty and false ones included), 1-5 calls, 0-2 arguments", memo_gen, memo_run),
    Suite("c30_big", "bounded caches of 4-39 and around powers of two up to 300 (4097) entries, filled, touched and overfilled; an unbounded one", lb_gen, lb_run),
    Suite("c30_obig", "ordered sets of up to 4097 items", ob_gen, ob_run),
    Suite("c26_long", "chains, cycles, stars, diamonds, combs and wheels of 5-23 and up to 300 (1100) nodes", gl_gen, gl_run),
    Suite("c30_lru", "all operation sequences on the bounded cache, for bounds 0-3 and none", lru_gen, lru_run, lru_desc),
    Suite("c30_oset", "all operation sequences on the ordered set, from five initial contents", os_gen, os_run,
          lambda c: f"OrderedSet{c[0]}: " + "; ".join(OS_OPS[o][0] for o in c[1])),
    Suite("c26_graph", "all directed graphs of up to 3 nodes with loops and 4 without, all 5-node graphs with forward edges and a back edge; all queries in two orders, twice",
          g_gen, g_run, lambda c: f"{c[0]} nodes, edges {c[1]}"),
    Suite("c26_roots", "all 4-node graphs with chosen roots", r_gen, r_run, lambda c: f"edges {c[1]} roots {c[2]}"),
    Suite("c26_union", "pairs of 3-node graphs", u_gen, u_run),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
