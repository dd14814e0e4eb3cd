"""C37: the info, mapping, cavities and forest commands print exactly what the trace holds."""
import contextlib, io, itertools, os, re, sys
import pvh
from pvh import Suite, check, fail, st
import tdagw
from tdagw import src, union, rng, varint
import polytracker

NAMES = ["in.bin", "/tmp/other file", "stdin"]
FUNCS = ["main", "_Z3foov", "a b"]


def installed():
    """The container commands ask for the version of the installed package; it is not installed here."""
    d = os.path.join(pvh.scratch, "site")
    if d not in sys.path:
        os.makedirs(d + "/polytracker-4.0.0.dist-info", exist_ok=True)
        with open(d + "/polytracker-4.0.0.dist-info/METADATA", "w") as f:
            f.write("Metadata-Version: 2.1\nName: polytracker\nVersion: 4.0.0\n")
        sys.path.append(d)


def command(*argv):
    """Runs `polytracker argv...` in this process; what it printed."""
    installed()
    out, old = io.StringIO(), sys.argv
    sys.argv = ["polytracker", *argv]
    try:
        with contextlib.redirect_stdout(out):
            r = polytracker.main()
    except SystemExit as e:
        r = e.code
    finally:
        sys.argv = old
    check(not r, f"polytracker {' '.join(argv[:1])} ends with status {r}")
    return out.getvalue()


def write(data):
    p = os.path.join(pvh.scratch, f"t{os.getpid()}.tdag")
    with open(p, "wb") as f:
        f.write(data)
    return p


# labels: (kind, a, b, cf); src: source a, offset b; union/range of labels a, b
GRAPHS = [
    [],
    [("s", 0, 0, 0)],
    [("s", 0, 5, 1)],
    [("s", 0, 0, 0), ("s", 1, 0, 0)],
    [("s", 0, 0, 0), ("s", 1, 7, 1), ("u", 2, 1, 0)],
    [("s", 0, 0, 0), ("s", 0, 1, 0), ("s", 0, 2, 0), ("r", 1, 3, 1)],
    [("s", 0, 3, 0), ("s", 0, 1, 0), ("u", 2, 1, 0), ("s", 2, 1 << 40, 0), ("u", 4, 3, 1)],
    [("s", 2, 255, 0), ("s", 0, 256, 1), ("s", 0, 257, 0), ("r", 2, 3, 0), ("u", 4, 1, 0), ("r", 1, 5, 0)],
    [("s", i % 3, i * 3, i % 2) for i in range(70)] + [("r", 1, 70, 0)],
]
SINKS = [
    [],
    [(0, 1, 0)],
    [(0, 1, 0), (1, 1, 1), (0, 1, 0)],
    [((1 << 33) + 1, "last", 2), (3, 1, 0), (2, "last", 1)],
]
EVENTS = [[], [(0, 0)], [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (1, 0)], [(0, 0), (0, 1)]]
# control-flow log: e f enter, l f leave, t label
LOGS = [[], ["e0", "l0"], ["e0", "e1", "t1", "l1", "t1", "l0"], ["e2", "e0", "e300", "t1"]]


def enc(g):
    return [src(a, b, cf) if k == "s" else (union if k == "u" else rng)(a, b, cf) for k, a, b, cf in g]


def log_bytes(log):
    b, stack = b"", []
    for e in log:
        n = int(e[1:])
        if e[0] == "e":
            stack.append(n)
        b += bytes([{"e": 0, "l": 1, "t": 2}[e[0]]]) + varint(stack[-1]) + (varint(n) if e[0] == "t" else b"")
        if e[0] == "l":
            stack.pop()
    return b


def log_lines(log):
    """(kind, numbers) of every event to be printed."""
    out, stack = [], []
    for e in log:
        n = int(e[1:])
        if e[0] == "e":
            stack.append(n)
            out.append(("enter", [*stack]))
        elif e[0] == "l":
            out.append(("leave", [*stack]))
            stack.pop()
        else:
            out.append(("taintedcontrolflow", [n, *stack]))
    while stack:
        out.append(("leave", [*stack]))
        stack.pop()
    return out


def closure(g):
    """Input bytes (source, offset) behind each label."""
    c = [set()]
    for k, a, b, cf in g:
        c.append({(a, b)} if k == "s" else c[a] | c[b] if k == "u" else set().union(*c[a:b + 1]))
    return c


def sinks(g, s):
    return [(o, len(g) if l == "last" else l, i) for o, l, i in s] if g else []


def make(case):
    g, s, f, e, l, nsrc = case
    g = GRAPHS[g] if isinstance(g, int) else [tuple(x) for x in g]
    sk = sinks(g, SINKS[s])
    srcs = [(NAMES[i], 3 + i, 1 << 41) for i in range(nsrc)]
    data = tdagw.trace(srcs, enc(g), sk, FUNCS[:f], [x for x in EVENTS[e] if x[1] < f], log_bytes([x for x in LOGS[l] if g or x[0] != "t"]))
    return g, sk, srcs, data


FLAGS = [("-f", "--print-fd-headers"), ("-x", "--print-fn-headers"), ("-s", "--print-taint-sinks"), ("-n", "--print-taint-nodes"),
         ("-t", "--print-function-trace"), ("-c", "--print-control-flow-log")]


def info_gen(th):
    for g in range(len(GRAPHS)):
        for s in range(len(SINKS)):
            for e, l in itertools.product(range(len(EVENTS)), range(len(LOGS))):
                for f in (0, 3):
                    for m in range(64) if (g + s + e + l) % 3 == 0 or th else (0, 63, 1 << ((g + s + e + l) % 6), 63 ^ 1 << ((g + e) % 6)):
                        yield [g, s, f, e, l, 3, m]
    for nsrc in range(3):
        for m in range(64):
            yield [0, 0, 3, 2, 1, nsrc, m]


def nums(s):
    return [int(x) for x in re.findall(r"-?\d+", s)]


def node_line(n):
    k, a, b, cf = n
    return ["source" if k == "s" else "union" if k == "u" else "range", bool(cf), [a, b]]


def judge_node(text, n, what):
    kind, cf, ab = node_line(n)
    check(kind in text.lower(), f"{what}: {text!r} is not a {kind}")
    check(("True" in text) == cf and ("False" in text) != cf, f"{what}: control-flow mark in {text!r}")
    got = nums(text)
    check(got == ab or (kind == "union" and got == ab[::-1]), f"{what}: {text!r} names {got} instead of {ab}")


def info_run(case):
    *c, m = case
    g, sk, srcs, data = make(c)
    path = write(data)
    f, e, l = c[2], c[3], c[4]
    flags = [FLAGS[i][(i + c[0]) % 2] for i in range(6) if m >> i & 1]
    lines = command("info", path, *flags).splitlines() if c[1] % 2 else command("info", *flags, path).splitlines()
    what = "info " + " ".join(flags)
    check(open(path, "rb").read() == data, f"{what}: the trace was changed")

    def take(n):
        nonlocal lines
        check(len(lines) >= n, f"{what}: lines are missing")
        r, lines = lines[:n], lines[n:]
        return r
    first = take(1)[0]
    check(nums(first) == [len(g) + 1], f"{what}: {first!r}, there are {len(g) + 1} labels (label 0 included)")
    if m & 1:
        for i, t in enumerate(take(len(srcs))):
            check(t == f"{i}: {srcs[i][0]}", f"{what}: source {i} is shown as {t!r}")
    if m & 2:
        for i, t in enumerate(take(f)):
            check(t == f"{i}: {FUNCS[i]}", f"{what}: function {i} is shown as {t!r}")
    if m & 4:
        for (o, lb, i), t in zip(sk, take(len(sk))):
            a, _, b = t.partition("->")
            check(dict(re.findall(r"(fdidx|offset|label)\D*(\d+)", a)) == {"fdidx": str(i), "offset": str(o), "label": str(lb)}, f"{what}: output record {(o, lb, i)} is shown as {t!r}")
            judge_node(b, g[lb - 1], what)
    if m & 8:
        for i, t in enumerate(take(len(g))):
            a, _, b = t.partition(":")
            check(nums(a) == [i + 1], f"{what}: label {i + 1} is shown as {t!r}")
            judge_node(b, g[i], what)
    if m & 16:
        ev = [x for x in EVENTS[e] if x[1] < f]
        for (k, fn), t in zip(ev, take(len(ev))):
            check(("ENTRY" in t) == (k == 0) and ("EXIT" in t) == (k == 1) and nums(t) == [fn], f"{what}: event {(k, fn)} is shown as {t!r}")
    if m & 32:
        want = log_lines([x for x in LOGS[l] if g or x[0] != "t"])
        for (k, ns), t in zip(want, take(len(want))):
            check(t.lower().startswith(k) and nums(t) == ns, f"{what}: {k} {ns} is shown as {t!r}")
            st.transitions += 1
    check(not lines, lambda: f"{what}: extra lines {lines[:3]}")
    st.nontrivial += bool(g)


def all_graphs(n):
    """All label graphs of n labels (input bytes, unions and ranges of earlier labels)."""
    if n == 0:
        yield []
        return
    for g in all_graphs(n - 1):
        yield g + [("s", n % 2, n, n % 3 == 0)]
        for a, b in itertools.combinations(range(1, n), 2):
            yield g + [("u", b, a, n % 2)]
            yield g + [("r", a, b, 0)]


def map_gen(th):
    for n in range(1, 7 if th else 6):
        for g in all_graphs(n):
            for s in (1, 3):
                yield [g, s, 0, 0, 0, 3]
    for g in range(len(GRAPHS)):
        for s in range(len(SINKS)):
            for nsrc in (3,):
                yield [g, s, 0, 0, 0, nsrc]


def map_run(case):
    g, sk, srcs, data = make(case)
    path = write(data)
    cl = closure(g)
    # mapping
    text = command("mapping", path)
    want = {}
    for o, l, i in sk:
        for a, b in cl[l]:
            want.setdefault((a, b), set()).add((i, o))
    got = {}
    # {ByteOffset(source=..., offset=N): {ByteOffset(...), ...}, ...}: offsets in order of appearance
    for i, p in enumerate(NAMES):
        check(any(a == i for a, b in want) <= (p in text), f"mapping: {p} is not mentioned")
    nin = sum(1 for _ in want)
    api = polytracker.mapping.InputOutputMapping(polytracker.taint_dag.TDFile(open(path, "rb"))).mapping()
    check(len(api) == nin, f"mapping: {len(api)} input bytes, {nin} expected")
    check(sorted(nums(text)) == sorted(nums(str(dict(api)))), "mapping: prints something else than the mapping")
    for (a, b) in want:
        check(str(b) in text, f"mapping: byte {b} is not shown")
    # forest
    out = os.path.join(pvh.scratch, f"f{os.getpid()}.dot")
    if os.path.exists(out):
        os.unlink(out)
    command("forest", path, out)
    roots, inner, edges, sub = set(), set(), [], None
    for t in open(out).read().splitlines():
        t = t.strip()
        if t.startswith("subgraph"):
            sub = t.split()[1]
        elif t == "}":
            sub = None
        elif sub is None and "->" in t:
            edges.append(tuple(nums(t)[:2]))
        elif sub and "->" not in t and re.match(r'"?-?\d+"? ', t):
            n = nums(t)
            check(n[0] == n[-1], f"forest: node {t!r}")
            (roots if sub == "roots" else inner).add(n[0])
    nodes = roots | inner
    check(set(range(1, len(g) + 1)) <= nodes, f"forest: labels {set(range(1, len(g) + 1)) - nodes} are missing")
    parents = {}
    for a, b in edges:
        check(a in nodes and b in nodes, f"forest: edge {a}->{b} between nodes that are not shown")
        parents.setdefault(b, []).append(a)
    leaf = {i + 1 for i, n in enumerate(g) if n[0] == "s"}
    check(roots - {0} == leaf and not leaf & set(parents), f"forest: roots {sorted(roots)[:20]} are not the input bytes {sorted(leaf)[:20]}")
    for lb in range(1, len(g) + 1):
        seen, todo = set(), [lb]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += parents.get(x, [])
        bytes_ = {(g[x - 1][1], g[x - 1][2]) for x in seen & leaf}
        check(bytes_ == cl[lb], lambda: f"forest: label {lb} leads to {sorted(bytes_)[:10]} instead of {sorted(cl[lb])[:10]}")
        st.transitions += 1
    check(open(path, "rb").read() == data, "the trace was changed")
    st.nontrivial += bool(g)


# cavities: files of n bytes, every pattern of used bytes (output or control flow), two files
def cav_gen(th):
    n = 11 if th else 9
    for m in range(1 << n):
        for how in range(3):
            yield [n, m, how]
    for n in (32, 64, 128, 129, 255, 256, 257, 600):
        for m in (0, 1, (1 << n) - 1, int("5" * (n // 4), 16), int("6" * (n // 4), 16), 1 << (n - 1)):
            for how in range(3):
                yield [n, m, how]


def cav_run(case):
    n, m, how = case
    used = [i for i in range(n) if m >> i & 1]
    labels = [src(0, i, how == 1 and i in used) for i in range(n)] + [src(1, 1, False)]
    sk = [(k, i + 1, 2) for k, i in enumerate(used)] if how != 1 else []
    if how == 2:
        sk = sk[::-1]
    name = os.path.join(pvh.scratch, "a,b.bin")
    data = tdagw.trace([(name, 3, n), ("second", 4, 3), ("out", 5, 0)], labels, sk + [(9, n + 1, 2)])
    path = write(data)
    want, i = [], 0
    while i < n:
        if i in used:
            i += 1
            continue
        j = i
        while j < n and j not in used:
            j += 1
        want.append(f"{name},{i},{j}")
        i = j
    want2 = ["second,0,1", "second,2,3"]
    lines = command("cavities", path).splitlines()
    check([x for x in lines if x.startswith(name)] == want, f"cavities: {lines}, not {want}")
    check([x for x in lines if x.startswith("second")] == want2, f"cavities: {lines}, not {want2}")
    check(all(x.startswith((name, "second", "out")) for x in lines) and not [x for x in lines if x.startswith("out")], f"cavities: {lines}")
    st.nontrivial += 1


SUITES = [
    Suite("c37_info", "9 label graphs x 4 sets of output records x 4 function traces x 4 control-flow logs, with and without functions and sources; all 64 choices of parts on a third of them, single parts, all but one, all and none on the rest", info_gen, info_run),
    Suite("c37_graph", "mapping and forest of all label graphs of up to 5 (6) labels and 9 others", map_gen, map_run),
    Suite("c37_cav", "all patterns of used bytes of a 9 (11) byte file and some of files up to 600 bytes, used by output, reversed output or control flow", cav_gen, cav_run),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
