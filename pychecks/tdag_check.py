"""C22 mapping, C23 cavities, C24 taint forest over exhaustively enumerated traces."""
import argparse, contextlib, io, itertools, os, sys
os.environ["TQDM_DISABLE"] = "1"
from pathlib import Path
import pvh, tdagw
from pvh import Suite, check, fail, st

from polytracker import mapping, taint_dag
from polytracker.taint_dag import TDFile, TDProgramTrace

sys.setrecursionlimit(1000)  # what the interpreter starts with
INV = tdagw.INVALID
# source tables: (name, fd, size); the last one is the output
CONFIGS = [
    [("in", 3, 4), ("other", 5, 3), ("out", 4, INV)],
    [("in", 3, 1), ("in", 3, 4), ("out", 4, 0)],          # opened twice, grew in between
    [("in", 3, INV), ("argv:1", -1, INV), ("argv:1x", -1, INV)],
    [("in", 3, 2), ("out", 3, INV), ("out", 4, 7)],          # descriptor reused; second opening of the output
]
CONFIGS.append([("in", 3, 4), ("other", 5, 3), ("out", 4, INV), ("argv:0", -1, INV), ("in", 6, 9), ("x", 3, 2)])
OFFS = (0, 2)
FAR = (1 << 31, (1 << 32) - 1, (1 << 32) + 2, (1 << 40) + 7, (1 << 53) + 1)


def config(c):
    if isinstance(c, list):  # many sources, the last one is the output
        return [(f"f{i}", i - 1, i % 5 if i % 3 else INV) for i in range(c[1])]
    return CONFIGS[c]


def shapes(n, offs=OFFS, nsrc=2, first=1):
    """All label tables of n entries; the first `first` labels are input bytes."""
    def rec(t):
        k = len(t)
        if k == n:
            yield list(t)
            return
        for i in range(nsrc):
            for o in offs:
                yield from rec(t + [["s", i, o]])
        if k >= first:
            for a in range(1, k + 1):
                for b in range(a + 1, k + 1):
                    yield from rec(t + [["u", b, a]])
                    yield from rec(t + [["r", a, b]])
    yield from rec([])


def closure(shape, mask):
    m = mask
    for i in range(len(shape), 0, -1):
        if m >> (i - 1) & 1:
            e = shape[i - 1]
            if e[0] == "u":
                m |= 1 << (e[1] - 1) | 1 << (e[2] - 1)
            elif e[0] == "r":
                for x in range(e[1], e[2] + 1):
                    m |= 1 << (x - 1)
    return m


def closed_masks(shape):
    return [m for m in range(1 << len(shape)) if closure(shape, m) == m]


def dags(th):
    for cfg in range(4):
        for n in (0, 1, 2, 3):
            for sh in shapes(n):
                for m in closed_masks(sh):
                    for sinks in range(1 << n):
                        yield [cfg, sh, m, [i + 1 for i in range(n) if sinks >> i & 1]]
    # four labels, the first two are input bytes
    for sh in shapes(4, first=2):
        if not th and sh[1][0] != "s":
            continue
        ms = closed_masks(sh)
        for m in ms:
            for sinks in range(16) if th else (1 << 3, 0b1100, 0b0101, 0b1010):
                for cfg in range(4) if th else (sum(map(len, map(str, sh))) % 4,):
                    yield [cfg, sh, m, [i + 1 for i in range(4) if sinks >> i & 1]]
    # bytes of up to six sources
    for n in (3, 4):
        for idx in itertools.product((0, 1, 2, 3, 4, 5), repeat=n):
            if n == 4 and not th and (len(set(idx)) < 3 or idx[0] > 1):
                continue
            sh = [["s", i, (2 * k) % 3] for k, i in enumerate(idx)] + [["r", 1, n]]
            for m in (0, 1 << (n - 1), 0b101, closure(sh, 1 << n)):
                for sinks in ([], [n + 1], [n, 2]):
                    yield [4, sh, m, sinks]
    # long and deep tables, in short form
    for n in (1100, 70000) + ((300000,) if th else ()):
        for extra in ([["r", 1, n]], [["u", n, 1], ["u", n + 1, 2], ["r", n - 2, n + 1]], [["r", n // 2, n], ["u", n + 1, 3]]):
            for m in (0, -1):
                for sinks in ([n + len(extra)], [n + 1, n]):
                    yield [0, ["wide", n, extra], m, sinks]
    for n in (900, 1300, 3000):
        for m in (0, -1):
            yield [0, ["deep", n], m, [n + 5]]
    # many sources
    for n in (2, 64, 65, 127, 128, 129, 130, 200, 254, 255):
        ids = sorted({0, 1, n // 2, max(n - 128, 0), max(n - 129, 0), n - 2} & set(range(n - 1)))
        for a, b in itertools.product(ids, repeat=2):
            sh = [["s", a, 1], ["s", b, 2], ["u", 2, 1]]
            for m in (0, 1, 2):
                for sinks in ([3], [1, 2], []):
                    yield [["many", n], sh, m, sinks]
        yield [["many", n], [["s", i, i % 3] for i in range(n - 1)] + [["r", 1, n - 1]] * (n > 2), 0, [n - 1]]
        yield [["many", n], [["s", i, i % 3] for i in range(n - 1)] + [["r", 1, n - 1]] * (n > 2), (1 << n // 2) - 1, [n - 1, 1]]
    # all orders of outputs, with repeats (five labels)
    base = [["s", 0, 0], ["s", 0, 1], ["s", 0, 2]]
    for d, e in itertools.product([["u", 3, 1], ["r", 1, 2], ["r", 1, 3], ["u", 2, 1]], [["u", 4, 2], ["u", 4, 3], ["u", 3, 1], ["r", 2, 4], ["s", 1, 1]]):
        sh = base + [d, e]
        for m in closed_masks(sh):
            for sinks in itertools.chain.from_iterable(itertools.product(range(1, 6), repeat=r) for r in ((2, 3) if th else (2,))):
                yield [0, sh, m, list(sinks)]
    # deep and wide tables around the word boundaries of the input-label index
    for n in (31, 32, 62, 63, 64, 65, 100, 127, 128, 129) + ((255, 256, 257, 600) if th else ()):
        srcs = [["s", 0, i] for i in range(n)]
        chain = []
        top = 1
        for i in range(2, n + 1, 2):  # every second byte, one after the other
            chain.append(["u", max(top, i), min(top, i)])
            top = n + len(chain)
        for extra in ([], [["r", 1, n]], chain[:1] + [["r", n, n + 1]], chain, chain + [["r", 2, n - 1]] ):
            sh = srcs + extra
            for seeds in ([], [len(sh)], [n], [1, n // 2]):
                m = closure(sh, sum(1 << (x - 1) for x in set(seeds)))
                for sinks in ([], [len(sh)], [n, 1], [len(sh), n // 2, len(sh)]):
                    yield [0, sh, m, sinks]
    # reads of the same bytes again, derived labels in between, long runs without input bytes
    for gap in (1, 30, 62, 63, 64, 126, 200):
        sh = [["s", 0, 0], ["s", 0, 2]]
        for i in range(gap):
            sh.append(["u", len(sh), 1])
        sh += [["s", 1, 0], ["s", 0, 0]]
        for seeds in ([], [len(sh)], [2], [len(sh) - 2]):
            m = closure(sh, sum(1 << (x - 1) for x in seeds))
            for sinks in ([], [len(sh)], [len(sh) - 2], [2, 3], [len(sh) - 1, 3]):
                for cfg in range(4):
                    yield [cfg, sh, m, sinks]


def far(th):
    """Offsets beyond 2^31 in inputs and outputs."""
    for a, b in itertools.product((0, 1) + FAR, repeat=2):
        for sh in ([["s", 0, a], ["s", 1, b], ["u", 2, 1]], [["s", 0, a], ["s", 0, b], ["r", 1, 2]]):
            for m in (0, 1, 7):
                for sinks in ([3], [1, 2], [[a, 3], [b, 1]], [[b, 2], [a, 2]]):
                    yield [0, sh, m, sinks]


def far_cav(th):
    for b in FAR:
        for l in (1, 2, 3):
            for m in (0, 1):
                yield [0, [["s", 0, 1], ["s", 1, 2], ["u", 2, 1]], m, [[b, l]]]


class World:
    def __init__(self, case):
        cfg, self.shape, self.mask, sk = case
        if self.shape and self.shape[0] == "wide":
            self.shape = [["s", 0, i] for i in range(self.shape[1])] + self.shape[2]
        elif self.shape and self.shape[0] == "deep":
            sh = [["s", 0, i] for i in range(3)]
            for i in range(self.shape[1]):
                sh.append(["u", len(sh), 1 + i % 3])
            sh.append(["s", 0, 2 + self.shape[1]])
            self.shape = sh + [["u", len(sh), len(sh) - 1]]
        if self.mask == -1:  # the last label and what it is made of
            self.mask = closure(self.shape, 1 << (len(self.shape) - 1))
        self.sources = config(cfg)
        self.n = len(self.shape)
        out = 2 if not isinstance(cfg, list) else cfg[1] - 1
        self.sinks = [(l[0], l[1], out) if isinstance(l, (list, tuple)) else (7 + j, l, out if cfg != 3 or j % 2 == 0 else 1)
                      for j, l in enumerate(sk)]
        enc = []
        for i, e in enumerate(self.shape):
            f = {"s": tdagw.src, "u": tdagw.union, "r": tdagw.rng}[e[0]]
            enc.append(f(e[1], e[2], bool(self.mask >> i & 1)))
        self.deno = [frozenset()]
        for e in self.shape:
            if e[0] == "s":
                self.deno.append(frozenset([(e[1], e[2])]))
            elif e[0] == "u":
                self.deno.append(self.deno[e[1]] | self.deno[e[2]])
            else:
                self.deno.append(frozenset().union(*self.deno[e[1]:e[2] + 1]))
        with open("t.tdag", "wb") as f:
            f.write(tdagw.trace(self.sources, enc, self.sinks))
        st.states += 1
        st.transitions += self.n + len(self.sinks)
        st.nontrivial += bool(self.sinks and self.n > 1)

    def path(self, i):
        return Path(self.sources[i][0])

    @contextlib.contextmanager
    def tdfile(self):
        with open("t.tdag", "rb") as f:
            t = TDFile(f)
            yield t
            t.buffer.close()

    def marked(self):
        return {(e[1], e[2]) for i, e in enumerate(self.shape) if e[0] == "s" and self.mask >> i & 1}


def c22(case):
    w = World(case)
    want = {}
    for off, l, o in w.sinks:
        for i, b in w.deno[l]:
            want.setdefault((w.path(i), b), set()).add((w.path(o), off))
    with w.tdfile() as t:
        got = {k: set(v) for k, v in mapping.InputOutputMapping(t).mapping().items() if v}
        check(got == want, lambda: f"mapping is {got}, not {want}")
    with open("t.tdag", "rb") as f:
        tr = TDProgramTrace(f)
        seen = []
        for e in w.shape:
            if e[0] == "s" and e[1] not in seen:
                seen.append(e[1])
        gi = [(i.uid, i.path, i.size) for i in tr.inputs]
        wi = [(w.sources[i][1], w.sources[i][0], w.sources[i][2]) for i in seen]
        check(sorted(gi) == sorted(wi), lambda: f"inputs are {gi}, not {wi}")
        gm = {(b.source.uid, b.source.path, b.offset) for b in tr.inputs_affecting_control_flow()}
        wm = {(w.sources[i][1], w.sources[i][0], o) for i, o in w.marked()}
        check(gm == wm, lambda: f"inputs affecting control flow are {gm}, not {wm}")
        check(len(tr.inputs_affecting_control_flow()) == len(wm), "the set of inputs affecting control flow has repeats")
        go = [(o.source.uid, o.source.path, o.offset, o.label) for o in tr.output_taints]
        wo = [(w.sources[o][1], w.sources[o][0], off, l) for off, l, o in w.sinks]
        check(go == wo, lambda: f"output records are {go}, not {wo}")
        check(len(set(tr.output_taints)) == len(set(wo)), "distinct output records compare equal")
        tr.tdfile.buffer.close()


def cavities(w):
    length, used = {}, {}
    for e in w.shape:
        if e[0] == "s":
            p, size = w.path(e[1]), w.sources[e[1]][2]
            length[p] = max(length.get(p, 0), e[2] + 1, 0 if size == INV else size)
    for i, b in w.marked().union(*(w.deno[l] for _, l, _ in w.sinks)):
        used.setdefault(w.path(i), set()).add(b)
    r = {}
    for p, n in length.items():
        runs = []
        for b in range(n):
            if b in used.get(p, ()):
                continue
            if runs and runs[-1][1] == b:
                runs[-1][1] = b + 1
            else:
                runs.append([b, b + 1])
        r[p] = [tuple(x) for x in runs]
    return r


def c23(case):
    w = World(case)
    want = cavities(w)
    with w.tdfile() as t:
        got = {k: [tuple(x) for x in v] for k, v in mapping.InputOutputMapping(t).file_cavities().items()}
        check({k: v for k, v in got.items() if v} == {k: v for k, v in want.items() if v},
              lambda: f"cavities are {got}, not {want}")
    if w.n <= 3:
        out = io.StringIO()
        p = argparse.ArgumentParser()
        cmd = mapping.FileCavities(p)
        with contextlib.redirect_stdout(out):
            cmd.run(p.parse_args(["t.tdag"]))
        lines = sorted(out.getvalue().splitlines())
        wl = sorted(f"{k},{a},{b}" for k, v in want.items() for a, b in v)
        check(lines == wl, lambda: f"the cavities command prints {lines}, not {wl}")


# rendering
CONTENTS = [bytes(range(i, i + 16)) for i in range(0, 256, 16)] + [b"a\\b\"c\n\t\r\0\x01\x7f\xff zz" * 2, b"", b"x"]


def render_gen(th):
    for c in range(len(CONTENTS)):
        n = len(CONTENTS[c])
        for used in itertools.chain([[]], ([a] for a in range(n)), ([a, b] for a in range(n) for b in range(a + 1, n))):
            yield [c, used]


def esc(b):
    named = {0x5c: "\\\\", 0x22: '\\"', 0: "\\0", 10: "\\n", 9: "\\t", 13: "\\r"}
    return "".join(named.get(x) or (chr(x) if 32 <= x <= 126 else f"\\{x}" if x < 10 else f"\\x{x:x}") for x in b)


def render_run(case):
    data = CONTENTS[case[0]]
    with open("data", "wb") as f:
        f.write(data)
    labels = [tdagw.src(0, i, i in case[1]) for i in range(len(data))]
    with open("t.tdag", "wb") as f:
        f.write(tdagw.trace([("data", 3, len(data))], labels))
    out = io.StringIO()
    p = argparse.ArgumentParser()
    cmd = mapping.FileCavities(p)
    with contextlib.redirect_stdout(out):
        cmd.run(p.parse_args(["-b", "t.tdag"]))
    want = []
    start = None
    for i in range(len(data) + 1):
        free = i < len(data) and i not in case[1]
        if free and start is None:
            start = i
        if not free and start is not None:
            b, a, e = data[max(start - 10, 0):start], data[i:i + 10], data[start:i]
            want += [f"data,{start},{i}", f'\t"{esc(b)}{esc(e)}{esc(a)}"', f"\t {' ' * len(esc(b))}{'^' * len(esc(e))}"]
            start = None
    check(out.getvalue().splitlines() == want if want else not out.getvalue(), lambda: f"rendered as {out.getvalue()!r}, not {want}")
    st.nontrivial += bool(want)
    st.transitions += 1


def c24(case):
    w = World(case)
    for order in range(3) if w.n <= 4000 else (0, 1):
        with open("t.tdag", "rb") as f:
            tr = TDProgramTrace(f)
            fo = tr.taint_forest
            if order == 1:  # look nodes up first, lowest label first
                for l in range(1, w.n + 1):
                    fo.get_node(l)
            elif order == 2 and w.n:
                list(fo.nodes())
            nodes = list(fo.nodes())
            by = {x.label: x for x in nodes}
            check(len(by) == len(nodes), "a label appears more than once in the forest")
            check({l for l in by if l > 0} == set(range(1, w.n + 1)), lambda: f"the forest holds labels {sorted(by)}, the trace {w.n}")
            pos = [x.label for x in nodes]
            check(pos == sorted(pos, reverse=True), "nodes are not in order of decreasing label")
            memo = {}

            def bytes_of(x):
                todo = [x]
                while todo:
                    y = todo[-1]
                    if y.label in memo:
                        todo.pop()
                        continue
                    p1, p2 = y.parent_one, y.parent_two
                    check((p1 is None) == (p2 is None), f"label {y.label} has one parent")
                    check((y.parent_labels is None) == (p1 is None), "parent labels and parents disagree")
                    if p1 is None:
                        if y.label == 0:
                            memo[0] = frozenset()
                            continue
                        check(y.is_canonical() and y.source is not None, f"leaf {y.label} has no source")
                        b = tr.file_offset(y)
                        memo[y.label] = frozenset([(b.source.uid, b.source.path, b.source.size, b.offset)])
                        continue
                    check(not y.is_canonical() and y.source is None, f"derived label {y.label} has a source")
                    check(tuple(y.parent_labels) == (p1.label, p2.label), "parent labels differ from parents")
                    miss = [p for p in (p1, p2) if p.label not in memo]
                    if miss:
                        check(len(todo) < 5000, "the forest has a cycle")
                        todo += miss
                    else:
                        memo[y.label] = memo[p1.label] | memo[p2.label]
                return memo[x.label]

            def want(l):
                return frozenset((w.sources[i][1], w.sources[i][0], w.sources[i][2], o) for i, o in w.deno[l])
            for x in nodes if w.n <= 4000 else []:
                g = bytes_of(x)
                if x.label > 0:
                    check(g == want(x.label), lambda: f"node {x.label} reaches {set(g)}, its label denotes {set(want(x.label))}")
                    check(bool(x.affected_control_flow) == bool(w.mask >> (x.label - 1) & 1), f"control-flow mark of node {x.label}")
                    e = w.shape[x.label - 1]
                    check((x.parent_one is None) == (e[0] == "s"), f"node {x.label} is {'not ' if e[0] == 's' else ''}a leaf")
                    if e[0] == "u":
                        check(set(x.parent_labels) == {e[1], e[2]}, f"parents of union {x.label} are {x.parent_labels}")
            # through the trace interface
            if w.n > 5 and order == (w.n > 4000):
                for ls in ([w.n], [w.n, 1], [max(1, w.n - 1), w.n // 2]):
                    g = {(b.source.uid, b.source.path, b.offset) for b in tr.taints([fo.get_node(l) for l in ls])}
                    wt = {(u, p, o) for l in ls for u, p, _, o in want(l)}
                    check(g == wt, lambda: f"taints of {ls} are {len(g)} bytes, not {len(wt)}")
            if w.n <= 5:
                for ls in [[l] for l in range(1, w.n + 1)] + [list(range(1, w.n + 1))]:
                    g = {(b.source.uid, b.source.path, b.offset) for b in tr.taints([fo.get_node(l) for l in ls])}
                    wt = {(u, p, o) for l in ls for u, p, _, o in want(l)}
                    check(g == wt, lambda: f"taints of {ls} are {g}")
                gr = fo.to_graph()
                check(set(gr.nodes) == set(by), "the exported graph has other nodes than the forest")
                we = {(p, x.label) for x in nodes for p in (x.parent_labels or ())}
                check(set(gr.edges) == we, lambda: f"the exported graph has edges {set(gr.edges)}, not {we}")
            tr.tdfile.buffer.close()


def desc(case):
    return f"sources {config(case[0])}, labels {case[1] if len(case[1]) < 12 else str(case[1][:4]) + '...' + str(case[1][-4:])}, marked {case[2] if case[2] < 0 else bin(case[2])}, outputs {case[3]}"


RULE = ("all label tables of up to 3 labels, with every set of marks and outputs and 4 source tables; tables of 4 labels; "
        "all output orders over 20 tables of 5; tables around the index word boundaries; up to 255 sources; chains of 3000 and ranges of 70000 labels")
SUITES = [
    Suite("c22_map", "mapping of " + RULE, dags, c22, desc),
    Suite("c22_far", "offsets around 2^31, 2^32, 2^40 and 2^53 in inputs and outputs", far, c22, desc),
    Suite("c23_far", "outputs at offsets around 2^31, 2^32, 2^40 and 2^53", far_cav, c23, desc),
    Suite("c24_far", "offsets around 2^31, 2^32, 2^40 and 2^53 in inputs and outputs", far, c24, desc),
    Suite("c23_cav", "cavities of " + RULE, dags, c23, desc),
    Suite("c23_render", "all positions of one and two used bytes in 19 contents covering all byte values", render_gen, render_run),
    Suite("c24_forest", "forests of " + RULE, dags, c24, desc),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
