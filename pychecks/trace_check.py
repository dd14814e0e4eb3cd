"""C35, C36 on the real trace classes: every small run, navigated; every pair of small traces, compared."""
import itertools, os, sys, tempfile
os.environ["TQDM_DISABLE"] = "1"
import pvh
from pvh import Suite, check, fail, st
from tracemock import BB, Entry, Ret, Trace
from polytracker import ByteOffset, Function, Taints
from polytracker.inputs import Input
from polytracker.diffing import TraceDiff, print_file_context
from polytracker.grammars import extract
from polytracker.tracing import ControlFlowEvent, FunctionInvocation, ProgramTrace
from polytracker.visualizations import file_diff, temporal_animation


def steps(al, n):
    def rec(s, d):
        yield s
        if len(s) < n and not s.endswith("!"):
            for c in al:
                if c in ")]" and d == 0:
                    continue
                yield from rec(s + c, d + (c in "fg") - (c in ")]"))
    return (s for s in rec("", 0) if not s.endswith(")"))


def n_gen(thorough):
    for al, n, content in ([("rbf)!", 8, "abc"), ("rlfg)", 8, "abc"), ("rof)!", 8, "ab"), ("fg)!", 11, "a"), ("rpskf)", 7, "cba"), ("rf)]!", 8, "ab"), ("of])", 9, "a")] if thorough else
                           [("rbf)!", 7, "abc"), ("rlfg)", 6, "abc"), ("rof)!", 6, "ab"), ("fg)!", 9, "a"), ("rpskf)", 5, "cba"), ("rf)]!", 6, "ab"), ("of])", 7, "a")]):
        for s in steps(al, n):
            yield [content, s]


def same(got, want, what):
    check((got is None) == (want is None) and (want is None or got.uid == want.uid),
          lambda: f"{what}: event {None if got is None else got.uid}, expected {None if want is None else want.uid}")


def n_run(c):
    content, s = c[0].encode(), c[1]
    tr = Trace(content, s)
    ev = tr.events
    n = len(ev)
    frame = [e._entry for e in ev]
    cf = [isinstance(e, ControlFlowEvent) for e in ev]
    parent = {}
    stack = []
    for e in ev:
        if isinstance(e, Entry):
            parent[e.uid] = stack[-1] if stack else None
            stack.append(e)
        elif isinstance(e, Ret):
            stack.pop()
    inside = {}  # everything that happened during a call
    for e in ev:
        f = e._entry
        while f is not None:
            inside.setdefault(f.uid, set()).update(e.consumed)
            f = parent[f.uid]

    # calls made after another call without entering a basic block in between
    unsplit = set()
    for e in ev:
        if isinstance(e, Entry):
            j = e.uid - 1
            while j >= 0 and not cf[j]:
                j -= 1
            f = parent[e.uid]
            while f is not None and (isinstance(ev[j], Ret) or e.uid in unsplit):
                unsplit.add(f.uid)
                f = parent[f.uid]

    def first(i, pred):
        return next((ev[j] for j in range(i + 1, n) if pred(ev[j])), None)

    def last(i, pred):
        return next((ev[j] for j in range(i - 1, -1, -1) if pred(ev[j])), None)
    for i, e in enumerate(ev):
        same(e.next_control_flow_event, first(i, lambda x: cf[x.uid]), "next control-flow event")
        same(e.previous_control_flow_event, last(i, lambda x: cf[x.uid]), "previous control-flow event")
        check(e.touched_taint == bool(e.consumed), "touched_taint is wrong")
        nxt = first(i, lambda x: cf[x.uid])
        if isinstance(e, Entry):
            p = parent[e.uid]
            same(e.caller, last(i, lambda x: isinstance(x, BB) and x._entry is p), "the caller")
            same(e.entrypoint, nxt if isinstance(nxt, BB) else None, "the entry point")
            check(e.basic_block == nxt.basic_block and e.function is e._fn, "the function entered is wrong")
            inv = FunctionInvocation(e)
            callees = [x for x in ev if isinstance(x, Entry) and parent[x.uid] is e]
            bbs = [x for x in ev if isinstance(x, BB) and x._entry is e]
            check([x.uid for x in inv.calls()] == [x.uid for x in callees], lambda: f"calls of event {i}: {[x.uid for x in inv.calls()]}, expected {[x.uid for x in callees]}")
            check([x.uid for x in inv.basic_blocks()] == [x.uid for x in bbs], "basic blocks of a call are wrong")
            if e.uid not in unsplit:
                check([(type(x) is FunctionInvocation, x.uid) for x in inv] == sorted([(False, x.uid) for x in bbs] + [(True, x.uid) for x in callees], key=lambda y: y[1]), "what happened in a call is wrong")
                check({o.offset for o in inv.taints()} == inside[e.uid] and {o.offset for o in inv.taints()} == inside[e.uid], "the taints of a call are wrong")
                check(inv.touched_taint == bool(inside[e.uid]), "touched_taint of a call is wrong")
            same(inv.function_return, e._ret, "the return")
            check(inv.function is e._fn and inv.basic_block == bbs[0].basic_block and inv.function_entry is e, "the invocation is wrong")
            same(inv.previous_event, ev[i - 1] if i else None, "previous event")
            same(inv.next_event, ev[i + 1] if i + 1 < n else None, "next event")
            check(inv == FunctionInvocation(e) and hash(inv) == hash(FunctionInvocation(e)), "invocations of one entry differ")
            after = e._ret.uid if e._ret else i
            same(tr.next_function_entry(e), first(after, lambda x: isinstance(x, Entry)), "next function entry")
        elif isinstance(e, BB):
            check(e.entry_count() == sum(1 for x in ev[:i] if isinstance(x, BB) and x._entry is e._entry and x.basic_block == e.basic_block), lambda: f"entry_count of event {i} is {e.entry_count()}")
            check(str(e) == f"{e.function.name}@{e.basic_block.index_in_function}#{e.entry_count()}", lambda: f"{e!s}")
            cal = e.called_function
            same(cal, nxt if isinstance(nxt, Entry) else None, "the called function")
            check(cal is None or isinstance(cal, FunctionInvocation), "the called function is no invocation")
            same(e.next_basic_block_in_function(), first(i, lambda x: isinstance(x, BB) and x._entry is e._entry), "next basic block in the function")
            same(e.next_basic_block_in_function_that_touched_taint(), first(i, lambda x: isinstance(x, BB) and x._entry is e._entry and x.consumed), "next tainted basic block in the function")
            runs = []
            for o in sorted(set(e.consumed)):
                if runs and runs[-1][-1] == o - 1:
                    runs[-1].append(o)
                else:
                    runs.append([o])
            check(list(e.consumed_tokens) == [content[r[0]:r[-1] + 1] for r in runs], lambda: f"consumed tokens {e.consumed_tokens!r}")
        elif isinstance(e, Ret):
            same(e.returning_to, nxt if isinstance(nxt, BB) else None, "where the call returns to")
            check(e.returning_from is e._entry._fn, "where the call returns from")
    entries = [e for e in ev if isinstance(e, Entry)]
    check([e.uid for e in tr.function_trace()] == [e.uid for e in entries] and tr.num_function_calls() == len(entries), "the function trace is wrong")
    check(tr.num_basic_block_entries() == sum(isinstance(e, BB) for e in ev), "the number of basic block entries is wrong")
    same(tr.next_function_entry(), entries[0], "first function entry")
    same(tr.entrypoint, entries[0], "the entry point of the trace")
    # which bytes were used, and in which order
    used = [a.label for a in tr.accesses]
    props = tr.input_properties(tr.source)
    firsts = [used.index(o) if o in used else None for o in range(len(content))]
    check(list(props.unused_byte_offsets) == [o for o, f in enumerate(firsts) if f is None], lambda: f"unused bytes {props.unused_byte_offsets}")
    check(list(props.out_of_order_byte_offsets) == [o for o in range(1, len(content)) if firsts[o] is not None and firsts[o - 1] is not None and firsts[o - 1] > firsts[o]], "bytes out of order are wrong")
    check([tuple(x) for x in props.file_seeks] == [(i - 1, used[i - 1], used[i]) for i in range(1, len(used)) if used[i] < used[i - 1]], lambda: f"seeks {props.file_seeks}")
    check(bool(props) == (not props.unused_byte_offsets and not props.out_of_order_byte_offsets and not props.file_seeks), "the summary is wrong")
    st.transitions += n
    st.states += 1
    st.nontrivial += bool(len(entries) > 1 and used)


# accesses to several bytes at once, of several inputs
def a_gen(thorough):
    for size, n in ((3, 4 if thorough else 3), (2, 5 if thorough else 4)):
        for k in range(n + 1):
            for acc in itertools.product(range(1 << size), repeat=k):
                yield [size, 0, list(acc)]
    for k in range(5 if thorough else 4):
        for acc in itertools.product(range(1, 1 << 4), repeat=k):
            yield [2, 1, list(acc)]


def a_run(c):
    size, two, acc = c
    tr = Trace(bytes(size), "")
    other = Input(uid=2, path="in2", size=size, content=bytes(size))
    srcs = [tr.source, other] if two else [tr.source]
    # bits: bytes of the first input, then of the second
    sets = [[(srcs[i // size], i % size) for i in bits(m, size * len(srcs))] for m in acc]
    tr.accesses = [type("A", (), {"taints": staticmethod(lambda x=x: Taints([ByteOffset(source=a, offset=o) for a, o in x]))})() for x in sets]
    for src in srcs:
        props = tr.input_properties(src)
        mine = [[o for a, o in x if a is src] for x in sets]
        first = [next((i for i, x in enumerate(mine) if o in x), None) for o in range(size)]
        seeks, last = [], None
        for i, x in enumerate(mine):
            for o in x:
                if last is not None and o < last:
                    seeks.append((i - 1, last, o))
                last = o
        check(list(props.unused_byte_offsets) == [o for o, f in enumerate(first) if f is None], lambda: f"unused bytes {props.unused_byte_offsets}")
        want = [o for o in range(1, size) if first[o] is not None and first[o - 1] is not None and first[o - 1] > first[o]]
        check(list(props.out_of_order_byte_offsets) == want, lambda: f"bytes out of order: {props.out_of_order_byte_offsets}, expected {want}")
        check([tuple(x) for x in props.file_seeks] == seeks, lambda: f"seeks {props.file_seeks}, expected {seeks}")
    st.states += 1
    st.nontrivial += bool(acc)


def x_gen(thorough):
    for al, n, content in ([("rbf)", 8, "abc"), ("rplf)", 7, "aab"), ("rsf)", 8, "abc")] if thorough else [("rbf)", 6, "abc"), ("rplf)", 6, "aab"), ("rsf)", 6, "abc")]):
        for s in steps(al, n):
            if "r" in s:
                yield [content, s]


def x_run(c):
    content, s = c[0].encode(), c[1]
    for simplify in (False, True):
        g = extract([Trace(content, s)], simplify=simplify)
        g.verify(True)
        check(bool(g.match(content)), lambda: f"the extracted grammar (simplify={simplify}) does not derive the input: {g!s}")
    st.nontrivial += 1
    st.states += 1


# ---- comparing traces
class DFn(Function):
    def __init__(self, tr, name, index):
        super().__init__(name, index)
        self.tr = tr

    def taints(self):
        return Taints(ByteOffset(source=s, offset=o) for s, o in self.tr.touched[self.name])

    def calls_to(self):
        return {self.tr.fns[n] for n in self.tr.calls.get(self.name, ()) if n in self.tr.fns}

    def called_from(self):
        return {f for f in self.tr.fns.values() if self in f.calls_to()}


ORDER = ["main", "f", "g", "h"]


class DTrace(Trace):
    def __init__(self, sources, touched, calls, accesses=()):
        self.sources, self.touched, self.calls = sources, touched, calls
        self.fns = {}
        for n in touched:
            self.fns[n] = DFn(self, n, ORDER.index(n))
        self.events, self.accesses, self.blocks = [], [], {}

    @property
    def inputs(self):
        return tuple(self.sources)


def d_gen(thorough):
    # per function: the bytes touched in the first and in the second trace (-1: not called)
    sub = range(-1, 8)
    for f1, f2, g1, g2 in itertools.product(sub, sub, sub, sub):
        yield [3, f1, f2, g1, g2, 0]
    # interval shapes: one function, six bytes
    for a in range(64):
        for b in range(64):
            yield [6, a, b, -1, -1, 0]
    # two sources
    for a, b, c, d in itertools.product(range(-1, 4), repeat=4):
        yield [2, a, b, c, d, 1]
    # other shapes of the call graph: no calls, mutual recursion, functions called from nowhere
    for k in (1, 2, 3, 4):
        for a, b, c, d in itertools.product(range(-1, 4), repeat=4):
            yield [2, a, b, c, d, 0, k]
    if thorough:
        for a in range(512):
            for b in range(0, 512, 3):
                yield [9, a, b, -1, -1, 0]


def bits(m, n):
    return [i for i in range(n) if m >> i & 1]


def d_run(c):
    n, f1, f2, g1, g2, two = c[:6]
    A = Input(uid=1, path="/nonexistent/a", size=n, content=bytes(range(65, 65 + n)))
    B = Input(uid=2, path="/nonexistent/b", size=n, content=bytes(range(97, 97 + n)))
    touched = ({"main": []}, {"main": []})
    for t, (f, g) in zip(touched, ((f1, g1), (f2, g2))):
        if f >= 0:
            t["f"] = [(A, o) for o in bits(f, n)]
        if g >= 0:
            t["g"] = [(B if two else A, o) for o in bits(g, n)]
    calls = [{"main": ["f", "g"], "f": ["g"]}, {}, {"main": ["f"], "f": ["main", "g"], "g": ["f"]}, {"main": ["main"], "f": ["g"], "g": ["f"]}, {"f": ["main"]}][c[6] if len(c) > 6 else 0]
    srcs = [A, B] if two else [A]
    t1, t2 = (DTrace(srcs, t, calls) for t in touched)
    d = TraceDiff(t1, t2)
    b1, b2 = ({(s.uid, o) for l in t.values() for s, o in l} for t in touched)

    def expand(regions, what):
        out = []
        for r in regions:
            check(r.length > 0, f"{what}: an empty region")
            out += [(r.source.uid, o) for o in range(r.offset, r.offset + r.length)]
        check(len(out) == len(set(out)), f"{what}: a byte is listed twice")
        return set(out)
    g1s, g2s = expand(d.input_chunks_only_in_first, "first"), expand(d.input_chunks_only_in_second, "second")
    check(g1s == b1 - b2, lambda: f"bytes only in the first trace: {sorted(g1s)}, expected {sorted(b1 - b2)}")
    check(g2s == b2 - b1, lambda: f"bytes only in the second trace: {sorted(g2s)}, expected {sorted(b2 - b1)}")
    check(d.has_input_chunks_only_in_first == bool(b1 - b2) and d.has_input_chunks_only_in_second == bool(b2 - b1), "has_input_chunks is wrong")
    check({f.name for f in d.functions_only_in_first} == set(touched[0]) - set(touched[1]), "functions only in the first trace are wrong")
    check({f.name for f in d.functions_only_in_second} == set(touched[1]) - set(touched[0]), "functions only in the second trace are wrong")
    both = list(d.functions_in_both)
    check(sorted(x for x, _ in both) == sorted(set(touched[0]) & set(touched[1])), "functions in both traces are wrong")
    for name, td in both:
        p, q = ({(s.uid, o) for s, o in t[name]} for t in touched)
        check([(o.source.uid, o.offset) for o in td.bytes_only_in_first] == sorted(p - q), f"bytes of {name} only in the first trace are wrong")
        check([(o.source.uid, o.offset) for o in td.bytes_only_in_second] == sorted(q - p), f"bytes of {name} only in the second trace are wrong")
        check(expand(td.regions_only_in_first, name) == p - q and expand(td.regions_only_in_second, name) == q - p, f"regions of {name} are wrong")
        check(bool(td) == (p != q), f"the difference of {name} is wrong")
    text = str(d)
    check(("exact same input byte regions" in text) == (b1 == b2), "the report is wrong about the input bytes")
    for name in set(touched[0]) ^ set(touched[1]):
        where = "reference trace but not in the diffed trace" if name in touched[0] else "diffed trace but not in the reference trace"
        check(f"Function {name} was called in the {where}" in text, f"the report lacks function {name}")
    if not two:
        im = d.to_image()
        w, h = im.size
        check(w * h >= n, "the image is too small")
        for o in range(n):
            p, q = (1, o) in b1, (1, o) in b2
            want = {(True, True): (255, 255, 255), (True, False): (0, 0, 255), (False, True): (255, 0, 0), (False, False): (0, 0, 0)}[p, q]
            check(im.getpixel((o % w, o // w)) == want, lambda: f"byte {o} is drawn as {im.getpixel((o % w, o // w))}, expected {want}")
    st.nontrivial += b1 != b2
    st.states += 1


def p_gen(thorough):
    for n in list(range(0, 80 if thorough else 40)) + [100, 255, 1000]:
        yield ["image", n]
    for kind in range(3):
        for off in list(range(0, 50, 1 if thorough else 3)) + [15, 16, 17]:
            for ln in (0, 1, 2, 3, 16, 31, 32):
                for ctx in (0, 1, 2, 31, 32):
                    if off + ln <= 60:
                        yield ["context", kind, off, ln, ctx]


def esc(b):
    return {10: "\\n", 13: "\\r", 92: "\\\\", 9: "\\t"}.get(b) or (chr(b) if 32 <= b <= 126 else f"\\x{b:02x}")


DATA = [bytes(range(32, 92)), b"\n\r\t\\ab" * 10, bytes((i * 37) % 256 for i in range(60))]


def p_run(c):
    if c[0] == "image":
        n = c[1]
        im = file_diff(n, lambda i: i % 2 == 0, lambda i: i % 3 == 0)
        w, h = im.size
        check(w * h >= n, f"{n} bytes do not fit in {w}x{h}")
        for i in range(w * h):
            want = (255, 255, 255) if i >= n or i % 6 == 0 else (0, 0, 255) if i % 2 == 0 else (255, 0, 0) if i % 3 == 0 else (0, 0, 0)
            check(im.getpixel((i % w, i // w)) == want, f"byte {i} of {n} is drawn wrong")
        if n:
            # the animation of reading the bytes forwards, some of them
            acc = list(range(0, n, max(1, n // 3)))[:3]
            tr = Trace(b"", "")
            tr.source = Input(uid=1, path="in", size=n, content=bytes(n))
            tr.accesses = [type("A", (), {"taints": staticmethod(lambda o=o: Taints([ByteOffset(source=tr.source, offset=o)]))})() for o in acc]
            with tempfile.TemporaryDirectory(dir=os.environ.get("VH_SCRATCH", "/dev/shm")) as d:
                temporal_animation(d + "/x.gif", tr)
                from PIL import Image
                im = Image.open(d + "/x.gif").convert("L")
                check(im.size[0] * im.size[1] >= n, "the animation is too small")
                for i in range(im.size[0] * im.size[1]):
                    dark = im.getpixel((i % im.size[0], i // im.size[0])) < 128
                    check(dark == (i == acc[0]), f"byte {i} of {n} is drawn wrong in the first frame of the animation")
    else:
        import io
        _, kind, off, ln, ctx = c
        data = DATA[kind]
        with tempfile.NamedTemporaryFile(dir=os.environ.get("VH_SCRATCH", "/dev/shm")) as f:
            f.write(data)
            f.flush()
            out = io.StringIO()
            print_file_context(out, f.name, off, ln, num_bytes_context=ctx, indent="  ")
        lines = out.getvalue().split("\n")
        check(lines[0] == f"  @{off}", f"header {lines[0]!r}")
        before = min(off, ctx // 2)
        start = off - before
        want = "  " + "".join(map(esc, data[start:start + ln + ctx]))
        check(lines[1] == want, lambda: f"context {lines[1]!r}, expected {want!r}")
        if ln:
            pad = 2 + len("".join(map(esc, data[start:off])))
            mark = " " * pad + "^" * len("".join(map(esc, data[off:off + ln])))
            check(lines[2] == mark, lambda: f"marker {lines[2]!r}, expected {mark!r}")
    st.nontrivial += 1
    st.states += 1


# ---- longer traces
NSHAPES = {"calls": lambda k: "fr)" * k, "deep": lambda k: "rf" * k + "r)" * k, "unfinished": lambda k: "fo" * k + "r!", "loop": lambda k: "rl" * k, "blocks": lambda k: "br" * k,
           "other": lambda k: "o" * k + "f" + "o" * k + "r)" + "o" * k + "b", "mixed": lambda k: "f" + "gr)b" * k + ")" + "rl" * k, "back": lambda k: "r" * (k // 2) + "kkr" * (k // 3),
           "nested": lambda k: "f" + "gf)b)b" * k + ")"}


def ns_gen(thorough):
    for name in NSHAPES:
        for k in list(range(4, 14)) + [17, 20, 33, 40, 65, 70] + ([100, 129, 150] if thorough else [129]):
            if k > 70 and name in ("mixed", "nested", "deep"):
                continue
            yield [name, k]


def ns_run(c):
    n_run([bytes(65 + i % 26 for i in range(2 * c[1])).decode(), NSHAPES[c[0]](c[1])])


def as_gen(thorough):
    for n in (5, 17, 64, 130, 256, 300, 513):
        for kind in ("up", "down", "even", "swap", "blocks", "pairs"):
            yield [n, kind]


def as_run(c):
    """The order of many accesses to one input."""
    n, kind = c
    seq = {"up": list(range(n)), "down": list(range(n))[::-1], "even": list(range(0, n, 2)), "swap": [i ^ 1 for i in range(n // 2 * 2)],
           "blocks": [i for b in range(0, n, 100) for i in reversed(range(b, min(n, b + 100)))], "pairs": [j for i in range(n - 1) for j in (i, i + 1)]}[kind]
    tr = Trace(bytes(n), "")
    tr.accesses = [type("A", (), {"taints": staticmethod(lambda o=o: Taints([ByteOffset(source=tr.source, offset=o)]))})() for o in seq]
    props = tr.input_properties(tr.source)
    first = {}
    for i, o in enumerate(seq):
        first.setdefault(o, i)
    check(list(props.unused_byte_offsets) == [o for o in range(n) if o not in first], "unused bytes")
    check(list(props.out_of_order_byte_offsets) == [o for o in range(1, n) if o in first and o - 1 in first and first[o - 1] > first[o]], "bytes out of order")
    check([tuple(x) for x in props.file_seeks] == [(i - 1, seq[i - 1], seq[i]) for i in range(1, len(seq)) if seq[i] < seq[i - 1]], "seeks")
    st.nontrivial += 1
    st.states += 1


def xs_gen(thorough):
    for name, f in {"calls": lambda k: ("fr)" * k, k), "blocks": lambda k: ("br" * k, k), "loop": lambda k: ("rl" * k, k), "mixed": lambda k: ("fr)gr)r" * k, 3 * k),
                    "deep": lambda k: ("rf" * k + "r)" * k, 2 * k)}.items():
        for k in (3, 4, 5, 6, 7, 8, 12, 16, 17, 20, 33, 40):
            s, n = f(k)
            yield [bytes((i * 7 + i // 26) % 26 + 97 for i in range(n)).decode(), s]


def ds_gen(thorough):
    for n in (8, 9, 16, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1025):
        for a in range(6):
            for b in range(6):
                if n < 300 or thorough or (a, b) in ((1, 3), (5, 1), (2, 3), (4, 0)):
                    yield [n, a, b]
    for k in (3, 17, 64, 100, 257, 300):
        yield [k, -1, -1]


def pattern(k, n):
    return [lambda o: False, lambda o: True, lambda o: o % 2 == 0, lambda o: o < n // 2, lambda o: o >= n - 1, lambda o: o % 7 < 4 and o > 2][k]


def ds_run(c):
    n, a, b = c
    if a < 0:  # many functions
        A = Input(uid=1, path="/nonexistent/a", size=10, content=bytes(10))
        t = [{"main": []} | {f"fn{i}": [(A, i % 10)] for i in range(n) if i % 7 != r} for r in (0, 3)]
        for x in t[0]:
            if x not in ORDER:
                ORDER.append(x)
        for x in t[1]:
            if x not in ORDER:
                ORDER.append(x)
        d = TraceDiff(*(DTrace([A], x, {"main": [y for y in x if y != "main"]}) for x in t))
        check({f.name for f in d.functions_only_in_first} == set(t[0]) - set(t[1]), "functions only in the first trace are wrong")
        check({f.name for f in d.functions_only_in_second} == set(t[1]) - set(t[0]), "functions only in the second trace are wrong")
        check(sorted(x for x, _ in d.functions_in_both) == sorted(set(t[0]) & set(t[1])), "functions in both traces are wrong")
        text = str(d)
        for name in set(t[0]) ^ set(t[1]):
            where = "reference trace but not in the diffed trace" if name in t[0] else "diffed trace but not in the reference trace"
            check(f"Function {name} was called in the {where}" in text, f"the report lacks function {name}")
    else:
        A = Input(uid=1, path="/nonexistent/a", size=n, content=bytes(i % 251 for i in range(n)))
        s1, s2 = ([o for o in range(n) if pattern(x, n)(o)] for x in (a, b))
        d = TraceDiff(*(DTrace([A], {"main": [(A, o) for o in x]}, {}) for x in (s1, s2)))
        for got, want in ((d.input_chunks_only_in_first, sorted(set(s1) - set(s2))), (d.input_chunks_only_in_second, sorted(set(s2) - set(s1)))):
            got = sorted(o for r in got for o in range(r.offset, r.offset + r.length))
            check(got == want, lambda: f"bytes only in one trace: {got[:20]}, expected {want[:20]}")
        (name, td), = d.functions_in_both
        check([o.offset for o in td.bytes_only_in_first] == sorted(set(s1) - set(s2)) and [o.offset for o in td.bytes_only_in_second] == sorted(set(s2) - set(s1)), "bytes of a function")
        check(("exact same input byte regions" in str(d)) == (s1 == s2), "the report is wrong about the input bytes")
        im = d.to_image()
        w, h = im.size
        check(w * h >= n, "the image is too small")
        q1, q2 = set(s1), set(s2)
        for o in range(n):
            want = {(True, True): (255, 255, 255), (True, False): (0, 0, 255), (False, True): (255, 0, 0), (False, False): (0, 0, 0)}[o in q1, o in q2]
            check(im.getpixel((o % w, o // w)) == want, lambda: f"byte {o} of {n} is drawn as {im.getpixel((o % w, o // w))}, expected {want}")
    st.nontrivial += 1
    st.states += 1


def cs_gen(thorough):
    for off in (0, 1, 15, 16, 17, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 5000, 65535, 65536, 70000):
        for ln in (1, 2, 33, 64, 100, 255, 256, 257, 1000, 5000):
            for ctx in (0, 1, 32, 64, 100, 257, 300):
                yield [off, ln, ctx]


def cs_run(c):
    import io
    off, ln, ctx = c
    data = bytes((i * 37 + i // 256) % 256 for i in range(80000))
    with tempfile.NamedTemporaryFile(dir=os.environ.get("VH_SCRATCH", "/dev/shm")) as f:
        f.write(data)
        f.flush()
        out = io.StringIO()
        print_file_context(out, f.name, off, ln, num_bytes_context=ctx, indent="  ")
    lines = out.getvalue().split("\n")
    start = off - min(off, ctx // 2)
    shown = min(ln, 32)  # of a longer excerpt the beginning is shown
    want = "  " + "".join(map(esc, data[start:start + shown + (ctx if ln <= 32 else ctx // 2)])) + (f" [ … plus {ln - 32} additional byte{'s' if ln > 33 else ''} … ]" if ln > 32 else "")
    check(lines[0] == f"  @{off}" and lines[1] == want, lambda: f"context of {ln} bytes at {off} is {lines[1][:60]!r}..., expected {want[:60]!r}...")
    mark = " " * (2 + len("".join(map(esc, data[start:off])))) + "^" * len("".join(map(esc, data[off:off + shown])))
    check(lines[2] == mark, lambda: f"the mark of {ln} bytes at {off} is misplaced")
    st.nontrivial += 1
    st.states += 1


SUITES = [
    Suite("c35_scale", "runs of nine shapes of 4-13 and up to 129 (150) repetitions, every navigation query on every event", ns_gen, ns_run),
    Suite("c35_many", "up to 513 accesses to one input in six orders", as_gen, as_run),
    Suite("c35_xlong", "grammar extraction from runs of five shapes of up to 40 repetitions", xs_gen, x_run),
    Suite("c36_scale", "inputs of up to 1025 bytes, six patterns of use against six; up to 300 functions", ds_gen, ds_run),
    Suite("c36_far", "excerpts of up to 5000 bytes at offsets up to 70000", cs_gen, cs_run),
    Suite("c35_nav", "every run of a small program (reads, basic blocks, loops, nested calls, unfinished calls, other events) up to 5-9 (7-11) steps; every navigation query on every event",
          n_gen, n_run, lambda c: f"input {c[0]!r}, steps {c[1]}"),
    Suite("c35_inputs", "every sequence of up to 3-4 (4-5) accesses to sets of bytes of one or two inputs", a_gen, a_run),
    Suite("c35_extract", "grammar extraction from every run of a small forward parser up to 6 (7-8) steps", x_gen, x_run, lambda c: f"input {c[0]!r}, steps {c[1]}"),
    Suite("c36_diff", "every pair of traces over one or two sources: every set of bytes touched by each of two functions in each trace", d_gen, d_run),
    Suite("c36_draw", "images of every size, contexts of every position", p_gen, p_run),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
