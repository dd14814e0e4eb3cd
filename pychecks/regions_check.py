"""C25 sets and regions of tainted bytes."""
import itertools, sys
import pvh
from pvh import Suite, check, fail, st
from polytracker.inputs import Input
from polytracker import tracing
from polytracker.cfg import FunctionInfo
from polytracker.tracing import ByteOffset, TaintedRegion, Taints, TaintDiff

CONT = {"A": b"abaab\xffba", "B": b"aaaabbaa", "C": bytes(8)}


def inputs(kind):
    ids = {0: (3, 4, 5), 1: (3, 3, 3), 2: (-1, -1, 7)}[kind]
    return [Input(u, p, 8, content=CONT[p]) for u, p in zip(ids, "ABC")]


def runs(offs):
    r = []
    for o in sorted(offs):
        if r and r[-1][0] + r[-1][1] == o:
            r[-1][1] += 1
        else:
            r.append([o, 1])
    return [tuple(x) for x in r]


def sets_gen(th):
    n = 6 if th else 5
    for kind in range(3):
        for a in range(1 << n):
            for b in range(1 << n) if kind == 0 or th else range(1 << 4):
                yield [kind, [a, b, (a * 7 + b) & 3]]


def bits(m):
    return [i for i in range(8) if m >> i & 1]


def key(r):
    return (r.source.path, r.offset, r.length)


def sets_run(case):
    ins = inputs(case[0])
    want = {i.path: bits(m) for i, m in zip(ins, case[1])}
    plain = [(p, o) for p in want for o in want[p]]
    offs = [ByteOffset(i, o) for i in ins for o in want[i.path]]
    wr = sorted((p, o, n) for p in want for o, n in runs(want[p]))
    orders = [offs, offs[::-1], offs[1::2] + offs[::2]]
    for k, order in enumerate(orders):
        got = [key(r) for r in Taints.to_regions(order)]
        check(sorted(got) == wr, lambda: f"regions are {got}, not {wr}")
        t = Taints(iter(order + order[:1]))  # repeats do not count
        check(len(t) == len(plain) and bool(t) == bool(plain), lambda: f"{len(t)} bytes, not {len(plain)}")
        got = [key(r) for r in t.regions()]
        check(sorted(got) == wr, lambda: f"regions of the set are {got}, not {wr}")
        per = {}
        for p, o, n in got:
            per.setdefault(p, []).append(o)
        check(all(x == sorted(x) for x in per.values()), "regions are not in increasing order")
        it = [(b.source.path, b.offset) for b in t]
        check(sorted(it) == sorted(plain), "iteration does not yield exactly the bytes")
        for p in want:
            check([o for q, o in it if q == p] == want[p], "bytes are not in increasing order per source")
        check({s.path for s in t.sources()} == {p for p in want if want[p]}, "sources")
        for i in ins:
            f = t.from_source(i)
            check([b.offset for b in f] == want[i.path] and all(b.source == i for b in f), "from_source")
            check([(r.offset, r.length) for r in f.regions()] == runs(want[i.path]), "regions of one source")
        st.transitions += 4
    # searching
    t = Taints(offs)
    for pat in (b"a", b"ab", b"aa", b"\xff", b"ba", "ab", 97, 0, b"\0\0", b"aaaabbaa", b"aaa", b"zz"):
        pb = pat.encode() if isinstance(pat, str) else bytes([pat]) if isinstance(pat, int) else pat
        w = sorted((p, o + j, len(pb)) for p in want for o, n in runs(want[p])
                   for j in range(n - len(pb) + 1) if CONT[p][o + j:o + j + len(pb)] == pb)
        g = [key(r) for r in itertools.islice(t.find(pat), 200)]
        check(sorted(g) == w, lambda: f"find({pat!r}) yields {g}, not {w}")
        check((pat in t) == bool(w), lambda: f"{pat!r} in taints is {not w}")
        st.transitions += 1
    st.nontrivial += len(plain) > 1


def diff_gen(th):
    n = 4
    for kind in range(3):
        for a in range(1 << n):
            for b in range(1 << n):
                for c in range(1 << n):
                    for d in (0, 5, 6, 15) if th else (0, 6):
                        yield [kind, a, b, c, d]


def diff_run(case):
    kind, a, b, c, d = case
    ins = inputs(kind)

    def T(x, y):
        return Taints([ByteOffset(ins[0], o) for o in bits(x)] + [ByteOffset(ins[1], o) for o in bits(y)])
    t1, t2 = T(a, b), T(c, d)
    df = t1.diff(t2)
    for got, gr, (x, y) in ((df.bytes_only_in_first, df.regions_only_in_first, (a & ~c, b & ~d)),
                        (df.bytes_only_in_second, df.regions_only_in_second, (c & ~a, d & ~b))):
        w = [("A", o) for o in bits(x)] + [("B", o) for o in bits(y)]
        g = [(e.source.path, e.offset) for e in got]
        check(sorted(g) == sorted(w), lambda: f"difference {g}, not {w}")
        wr = [("A", o, n) for o, n in runs(bits(x))] + [("B", o, n) for o, n in runs(bits(y))]
        r = [key(e) for e in gr]
        check(sorted(r) == wr, lambda: f"regions of the difference {r}, not {wr}")
    check(bool(df) == ((a, b) != (c, d)), "truth of a difference")
    st.transitions += 2
    st.nontrivial += (a, b) != (c, d)


def slice_gen(th):
    for off in range(0, 4):
        for ln in range(0, 5):
            for a in [None] + list(range(-6, 7)):
                for b in [None] + list(range(-6, 7)):
                    yield [off, ln, a, b]


def slice_run(case):
    off, ln, a, b = case
    i = inputs(0)[0]
    r = TaintedRegion(i, off, ln)
    plain = list(range(off, off + ln))
    check(r.value == i.content[off:off + ln] and bytes(r) == r.value, "value of a region")
    s = r[a:b]
    w = plain[a:b]
    check(list(range(s.offset, s.offset + s.length)) == w, lambda: f"slice [{a}:{b}] of {plain} is {s.offset}+{s.length}, not {w}")
    check(s.source == i and s.value == bytes(i.content[x] for x in w), "bytes of a slice")
    for x in range(ln):
        e = r[x]
        check(isinstance(e, ByteOffset) and e.offset == plain[x] and e.length == 1 and e.source == i, "element of a region")
    try:
        r[ln]
        fail("an element beyond the end was returned")
    except IndexError:
        pass
    st.transitions += 1
    st.nontrivial += bool(w)


def cmp_gen(th):
    rs = [[k, i, o, n] for k in (0, 1) for i in range(2) for o in range(3) for n in range(1, 3)]
    for x in rs:
        for y in rs:
            yield [x, y]


def cmp_run(case):
    x, y = case

    def R(z):
        i = inputs(z[0])[z[1]]
        return ByteOffset(i, z[2]) if z[3] == 1 else TaintedRegion(i, z[2], z[3])
    a, b = R(x), R(y)
    same = (a.source.uid, a.source.path, a.offset, a.length) == (b.source.uid, b.source.path, b.offset, b.length)
    check((a == b) == same and (a != b) != same, lambda: f"{x} == {y} is {a == b}")
    check(not same or hash(a) == hash(b), "equal regions with different hashes")
    check((a < b) + (b < a) + same == 1, lambda: f"{x} and {y} are not ordered")
    if a.source == b.source and (a.offset, a.length) < (b.offset, b.length):
        check(a < b, lambda: f"{x} < {y} does not hold")
    check(len({a, b}) == 2 - same, "set of two regions")
    st.transitions += 1
    st.nontrivial += same


def chunk_gen(th):
    n = 14 if th else 11
    for m in range(1 << n):
        yield m


def chunk_run(m):
    offs = [i for i in range(16) if m >> i & 1]
    want = [(a, a + n) for a, n in runs(offs)]
    for o in (offs, offs[::-1], offs[::2] + offs[1::2] + offs[:1]):
        got = [tuple(x) for x in FunctionInfo.tainted_chunks(o)]
        check(got == want, lambda: f"chunks of {o} are {got}, not {want}")
    f = FunctionInfo("f", {"A": offs, "B": offs[1:]}, {"A": offs[:1], "C": offs})
    check([(s, tuple(c)) for s, c in f.cmp_chunks()] == [("A", c) for c in want] + [("B", (a, a + n)) for a, n in runs(offs[1:])], "cmp_chunks")
    check([(s, tuple(c)) for s, c in f.input_chunks()] == [("A", (a, a + n)) for a, n in runs(offs[:1])] + [("C", c) for c in want], "input_chunks")
    st.transitions += 5
    st.nontrivial += len(want) > 1


def scale_gen(th):
    for n in list(range(1, 40)) + [100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097] + ([65537] if th else []):
        for base in (0, 1, 200, 255, 256, 65530, (1 << 31) - 2, (1 << 32) - 3, 1 << 40):
            for gap in (0, 1, 2, 7):
                yield [n, base, gap]
    for k in (2, 3, 17, 130, 256, 300):
        yield [k, None, 0]


def scale_run(case):
    n, base, gap = case
    if base is None:  # many inputs
        ins = [Input(5 + i, f"in{i % 200:03}" if i % 2 else f"IN{i}", 100, content=bytes(100)) for i in range(n)]
        offs = [ByteOffset(i, o) for o in (9, 3, 4) for i in ins]
        want = sorted((i.uid, o, k) for i in ins for o, k in ((3, 2), (9, 1)))
        for got in (Taints.to_regions(offs), Taints(offs).regions()):
            got = [(r.source.uid, r.offset, r.length) for r in got]
            check(sorted(got) == want, lambda: f"regions of {n} inputs are {got[:20]}..., not {want[:20]}...")
        t = Taints(offs)
        check(len(t) == 3 * n and len(set(t.sources())) == n, "number of bytes or sources")
        st.nontrivial += 1
        return
    # runs of n bytes: content repeats with period 251, so every byte of a window is known
    size = 3 * n + 40 + 3 * gap
    far = base > 1 << 20
    content = None if far else bytes((i * 7 + i // 256) % 251 for i in range(base + size))
    i = Input(3, "A", base + size, content=content)
    j = Input(4, "B", base + size, content=content)
    offs = list(range(base, base + n)) + list(range(base + n + gap, base + 2 * n + gap)) + list(range(base + 2 * n + 2 * gap, base + 2 * n + 2 * gap + 3))
    wr = runs(set(offs))
    both = [("A", o, k) for o, k in wr] + [("B", base, 1)]
    for order in (offs, offs[::-1], offs[::2] + offs[1::2]):
        taints = [ByteOffset(i, o) for o in order] + [ByteOffset(j, base)]
        t = Taints(taints)
        for got in (Taints.to_regions(taints), t.regions()):
            got = [key(r) for r in got]
            check(sorted(got) == both, lambda: f"regions are {got}, not {both}")
        check([b.offset for b in t if b.source == i] == sorted(set(offs)), "iteration does not yield the bytes in order")
        check(len(t) == len(set(offs)) + 1, "number of bytes")
        one = t.from_source(i)
        check([b.offset for b in one] == sorted(set(offs)) and set(one.sources()) == {i}, "bytes of one source")
        check([key(r) for r in one.regions()] == [("A", o, k) for o, k in wr], "regions of one source")
        st.transitions += 4
    d = Taints([ByteOffset(i, o) for o in offs]).diff(Taints([ByteOffset(i, o) for o in offs[1:-1]] + [ByteOffset(i, base + n + 2 * gap + n + 3)]))
    check([e.offset for e in d.bytes_only_in_first] == [offs[0], offs[-1]], "difference")
    check([tuple(c) for c in FunctionInfo.tainted_chunks(offs)] == [(o, o + k) for o, k in wr], "chunks")
    r = TaintedRegion(i, base, n)
    for a in (None, 0, 1, n // 2, n - 1, n, -1, -n, n + 5):
        for b in (None, 0, 1, n // 2, n - 1, n, -1, -n, n + 5):
            x = r[a:b]
            w = range(base, base + n)[a:b]
            check((x.offset, x.length) == (w.start, len(w)) or (x.length == 0 and not len(w)), lambda: f"slice [{a}:{b}] of {n} bytes is {x.offset}+{x.length}")
    check(r[n - 1].offset == base + n - 1, "last element")
    if not far:
        check(r.value == content[base:base + n], "value of a region")
        for k in {1, 2, n // 2, n - 1, n} - {0}:
            if k <= n:
                pat = content[base + n - k:base + n]
                t = Taints([ByteOffset(i, o) for o in range(base, base + n)])
                w = [base + q for q in range(n - k + 1) if content[base + q:base + q + k] == pat]
                g = [x.offset for x in itertools.islice(t.find(pat), len(w) + 9)]
                check(g == w and pat in t, lambda: f"find of {k} bytes yields {g[:9]}, not {w[:9]}")
    st.nontrivial += 1


SUITES = [
    Suite("c25_scale", "runs of 1-39 bytes and around powers of two up to 4097, at offsets up to 2^40, with every small gap, and up to 300 inputs", scale_gen, scale_run),
    Suite("c25_sets", "all sets of up to 6 bytes in each of two inputs and 2 of a third, in three orders, with distinct and shared input ids; 12 search patterns", sets_gen, sets_run),
    Suite("c25_diff", "all pairs of sets of 4 bytes of two inputs", diff_gen, diff_run),
    Suite("c25_slice", "all slices of all small regions", slice_gen, slice_run),
    Suite("c25_cmp", "all pairs of small regions", cmp_gen, cmp_run),
    Suite("c25_chunks", "all sets of 11 offsets", chunk_gen, chunk_run),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
