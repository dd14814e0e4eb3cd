"""C04/C08-C11: histories recorded by the real recording code (rec.so), read back with the real reader."""
import ctypes as C, itertools, os, struct, sys
from pathlib import Path
import pvh, tdagw
from pvh import Suite, check, fail, st
from polytracker import taint_dag as T

L = None
INV = (1 << 64) - 1


def setup():
    global L
    L = C.CDLL(os.environ["VH_REC"])
    for n, a, r in [("rec_new", [C.c_char_p], C.c_void_p), ("rec_del", [C.c_void_p], None),
                    ("rec_open", [C.c_void_p, C.c_int, C.c_char_p, C.c_size_t], C.c_int64),
                    ("rec_close", [C.c_void_p, C.c_int], C.c_int64),
                    ("rec_read", [C.c_void_p, C.c_int, C.c_int64, C.c_size_t, C.c_size_t, C.c_void_p], C.c_int64),
                    ("rec_readv", [C.c_void_p, C.c_int, C.c_int64, C.c_size_t, C.c_void_p], C.c_int64),
                    ("rec_named", [C.c_void_p, C.c_char_p, C.c_size_t, C.c_size_t, C.c_size_t, C.c_void_p], C.c_int64),
                    ("rec_label", [C.c_size_t], C.c_uint32), ("rec_set", [C.c_size_t, C.c_uint32], None),
                    ("rec_union", [C.c_void_p, C.c_uint32, C.c_uint32], C.c_int64),
                    ("rec_cf", [C.c_void_p, C.c_uint32], C.c_int64),
                    ("rec_sink", [C.c_void_p, C.c_int, C.c_int64, C.c_size_t, C.c_size_t], C.c_int64),
                    ("rec_sinkl", [C.c_void_p, C.c_int, C.c_int64, C.c_uint32, C.c_size_t], C.c_int64),
                    ("rec_tcf", [C.c_void_p, C.c_uint32, C.c_uint32], C.c_int64),
                    ("rec_enter", [C.c_void_p, C.c_uint32], C.c_int64), ("rec_leave", [C.c_void_p, C.c_uint32], C.c_int64),
                    ("rec_fentry", [C.c_void_p, C.c_void_p, C.c_size_t], C.c_int64), ("rec_fexit", [C.c_void_p, C.c_uint32], C.c_int64),
                    ("sec_new", [C.c_char_p], C.c_void_p), ("sec_del", [C.c_void_p], None),
                    ("sec_source", [C.c_void_p, C.c_char_p, C.c_size_t, C.c_int, C.c_uint64], C.c_int64),
                    ("sec_labels", [C.c_void_p, C.c_uint32, C.c_int64, C.c_size_t, C.c_void_p], C.c_int64),
                    ("sec_sink", [C.c_void_p, C.c_int64, C.c_uint32, C.c_uint32], C.c_int64),
                    ("sec_string", [C.c_void_p, C.c_char_p, C.c_size_t], C.c_int64),
                    ("rec_enc", [C.c_int, C.c_uint64, C.c_uint64, C.c_int], C.c_uint64)]:
        f = getattr(L, n)
        f.argtypes, f.restype = a, r
    L.rec_init()
    for n, k in (("in", 5), ("out", 0)):
        with open(n, "wb") as f:
            f.write(b"x" * k)


def no(r, what):
    check(r != -2, f"{what}: the run was stopped with an error")
    return r


# ---------------------------------------------------------------- histories
class Rec:
    """Executes operations on the real recorder and keeps what they mean."""

    def __init__(self):
        self.path = os.path.join(os.getcwd(), "t.tdag")
        self.h = L.rec_new(self.path.encode())
        check(self.h, "the trace could not be created")
        self.src, self.closed, self.labels, self.sinks = [], set(), [None], []
        self.marked, self.fns, self.ev, self.cf = [], [], [], []
        self.rd, self.wr, self.mem = {}, {}, [0] * 64
        self.new = []
        self.out = (C.c_uint32 * 2)()

    def idx(self, fd):
        if fd < 0:
            return None
        for i in range(len(self.src) - 1, -1, -1):
            if self.src[i][1] == fd:
                return None if i in self.closed else i
        return None

    def last(self, k=0):
        return max(len(self.labels) - 1 - k, 0)

    def rng(self, r, i, off, n, what):
        if i is None:
            check(r == -1, f"{what}: an untracked descriptor was given labels")
            return
        check(r == 0, f"{what}: no labels")
        a, b = self.out[0], self.out[1]
        check(a == len(self.labels) and (b + 1) % (1 << 32) == a + n, f"{what}: labels {a}..{b}, expected {len(self.labels)}..{len(self.labels) + n - 1}")
        for k in range(n):
            self.labels.append(frozenset([(i, off + k)]))
        return a

    def op(self, o):
        k = o[0]
        st.transitions += 1
        if k == "open":
            no(L.rec_open(self.h, o[1], o[2].encode(), len(o[2].encode())), "open")
            try:
                size = os.path.getsize(o[2])
            except OSError:
                size = INV
            self.src.append((o[2].encode(), o[1], size))
        elif k == "close":
            no(L.rec_close(self.h, o[1]), "close")
            i = self.idx(o[1])
            if i is not None:
                self.closed.add(i)
        elif k in ("read", "readv"):
            _, fd, off, n = o
            i = self.idx(fd)
            real = off
            if off < 0 and i is not None:
                real = self.rd.get(i, 0)
                self.rd[i] = real + n
            if k == "read":
                r = L.rec_read(self.h, fd, off, 0, n, self.out)
            else:
                r = L.rec_readv(self.h, fd, off, n, self.out)
            a = self.rng(no(r, k), i, real, n, k)
            if k == "read" and i is not None:
                for x in range(n):
                    self.mem[x] = a + x
            for x in range(8):
                check(L.rec_label(x) == self.mem[x], f"{k}: byte {x} carries label {L.rec_label(x)} instead of {self.mem[x]}")
        elif k == "named":
            _, name, n = o
            r = L.rec_named(self.h, name.encode(), len(name.encode()), 8, n, self.out)
            self.src.append((name.encode(), -1, INV))
            a = self.rng(no(r, k), len(self.src) - 1, 0, n, k)
            for x in range(n):
                self.mem[8 + x] = a + x
        elif k == "union":
            a, b = min(o[1], self.last()), self.last(o[2])
            if a == 0 or b == 0:
                return
            r = no(L.rec_union(self.h, a, b), k)
            want = (self.labels[a] or frozenset()) | (self.labels[b] or frozenset())
            if r == len(self.labels):
                self.labels.append(want)
            else:
                check(0 < r < len(self.labels) and self.labels[r] == want, f"union of {a} and {b} gave {r}")
            self.mem[2] = r
            L.rec_set(2, r)
        elif k == "cf":
            l = self.last(o[1])
            if l:
                no(L.rec_cf(self.h, l), k)
                self.marked.append(l)
        elif k == "sink":
            _, fd, off, at, n = o
            i = self.idx(fd)
            no(L.rec_sink(self.h, fd, off, at, n), k)
            if i is not None:
                if off < 0:
                    off = self.wr.get(i, 0)
                    self.wr[i] = off + n
                for x in range(n):
                    if self.mem[at + x]:
                        self.sinks.append((off + x, self.mem[at + x], i))
        elif k == "sinkl":
            _, fd, off, lk, n = o
            l = self.last(lk)
            i = self.idx(fd)
            no(L.rec_sinkl(self.h, fd, off, l, n), k)
            if i is not None:
                if off < 0:
                    off = self.wr.get(i, 0)
                    self.wr[i] = off + n
                if l:
                    self.sinks += [(off + x, l, i) for x in range(n)]
        elif k == "fentry":
            n = o[1].encode()
            r = no(L.rec_fentry(self.h, n, len(n)), k)
            if n not in self.fns:
                self.fns.append(n)
            check(r == self.fns.index(n), f"function {n} has index {r}")
            self.ev.append((0, r))
        elif k == "fexit":
            no(L.rec_fexit(self.h, o[1]), k)
            self.ev.append((1, o[1]))
        elif k == "enter":
            no(L.rec_enter(self.h, o[1]), k)
            self.cf.append((0, o[1], None))
        elif k == "leave":
            no(L.rec_leave(self.h, o[1]), k)
            self.cf.append((1, o[1], None))
        elif k == "tcf":
            l = self.last(o[1])
            no(L.rec_tcf(self.h, l, o[2]), k)
            self.cf.append((2, o[2], l))
        else:
            raise AssertionError(k)

    def finish(self):
        L.rec_del(self.h)
        self.h = None


def name_of(td, off):
    return os.fsencode(td.sections_by_type[T.TDStringSection].read_string(off))


def compare(r, td):
    fh = list(td.fd_headers)
    check(len(fh) == len(r.src), f"{len(fh)} sources read, {len(r.src)} recorded")
    for i, ((p, h), (n, fd, size)) in enumerate(zip(fh, r.src)):
        check(name_of(td, h.name_offset) == n and p == Path(os.fsdecode(n)), f"source {i} is named {p}, recorded {n!r}")
        check(h.fd == fd and h.size == size, f"source {i}: fd {h.fd} size {h.size}, recorded {fd} {size}")
        check(h.invalid_size() == (size == INV) and h.invalid_fd() == (fd == -1), f"source {i}: validity of size or descriptor")
    check(td.label_count == len(r.labels), f"{td.label_count} labels read, {len(r.labels)} recorded")
    memo, nodes = [frozenset()], list(td.nodes)
    check(len(nodes) == len(r.labels) - 1, f"{len(nodes)} nodes read for {len(r.labels)} labels")
    kids = [()]
    for l in range(1, len(r.labels)):
        for n in (td.decode_node(l), nodes[l - 1]):
            if isinstance(n, T.TDSourceNode):
                s, k = frozenset([(n.idx, n.offset)]), ()
            elif isinstance(n, T.TDRangeNode):
                check(0 < n.first <= n.last < l, f"label {l} refers to {n}")
                k = tuple(range(n.first, n.last + 1))
                s = frozenset().union(*(memo[x] for x in k))
            elif isinstance(n, T.TDUnionNode):
                check(0 < n.left < l and 0 < n.right < l, f"label {l} refers to {n}")
                k = (n.left, n.right)
                s = memo[k[0]] | memo[k[1]]
            else:
                fail(f"label {l} reads as {n}")
            check(s == r.labels[l], f"label {l} reads as {sorted(s)}, recorded {sorted(r.labels[l])}")
        memo.append(s)
        kids.append(k)
    m, q = set(), list(r.marked)
    while q:
        x = q.pop()
        if x not in m:
            m.add(x)
            q += kids[x]
    # a label created from marked ones is not itself marked; marks applied before it existed reach only older labels
    got = {l for l in range(1, len(r.labels)) if td.decode_node(l).affects_control_flow}
    check(got == m, f"labels marked: read {sorted(got)}, recorded {sorted(m)}")
    check(not td.decode_node(0).affects_control_flow and isinstance(td.decode_node(0), T.TDUntaintedNode), "label 0 is not untainted")
    il = list(td.input_labels())
    want = [l for l in range(1, len(r.labels)) if not kids[l]]
    check(il == want, f"input labels {il}, recorded {want}")
    sk = [(s.offset, s.label, s.fdidx) for s in td.sinks]
    check(sk == r.sinks, f"outputs read {sk}, recorded {r.sinks}")
    fns = [os.fsencode(n) for n, _ in td.fn_headers]
    check(fns == r.fns, f"functions read {fns}, recorded {r.fns}")
    ev = [(e.kind, e.fnidx) for e in td.events]
    check(ev == r.ev, f"function events read {ev}, recorded {r.ev}")


class Opened:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "rb")
        self.td = T.TDFile(self.f)
        return self.td

    def __exit__(self, *a):
        self.td.buffer.close()
        self.f.close()


OPS = [["open", 3, "in"], ["open", 4, "out"], ["open", 3, "gone"], ["close", 3],
       ["read", 3, 0, 2], ["read", 3, -1, 3], ["readv", 3, (1 << 54) - 2, 1], ["readv", 9, 0, 1],
       ["named", "argv[0]", 2], ["named", "", 0],
       ["union", 1, 0], ["union", 2, 1], ["cf", 0], ["cf", 1],
       ["sink", 4, -1, 0, 3], ["sink", 4, 7, 1, 2], ["sinkl", 4, -1, 0, 2], ["sinkl", 3, (1 << 54) - 2, 1, 1],
       ["fentry", "f"], ["fentry", "gg"], ["fexit", 0], ["enter", 300], ["tcf", 0, 300], ["leave", 300]]
PRE = [[], [["open", 3, "in"], ["open", 4, "out"], ["read", 3, 0, 4], ["union", 1, 1], ["union", 4, 0]]]


def gen_hist(th):
    for p in range(len(PRE)):
        d = 4 if th or p == 0 else 3
        for n in range(d + 1):
            for h in itertools.product(range(len(OPS)), repeat=n):
                yield [p, list(h)]


def run_hist(c):
    r = Rec()
    for o in PRE[c[0]]:
        r.op(o)
    for i in c[1]:
        r.op(OPS[i])
    r.finish()
    with Opened(r.path) as td:
        compare(r, td)
    st.nontrivial += bool(c[1])


def d_hist(c):
    return " ; ".join(" ".join(map(str, o)) for o in PRE[c[0]] + [OPS[i] for i in c[1]])


# ------------------------------------------------- C08: layout of recorded traces
def run_shape(c):
    r = Rec()
    for o in PRE[c[0]]:
        r.op(o)
    for i in c[1]:
        r.op(OPS[i])
    r.finish()
    strs = sum(2 + len(n) + (len(n) % 2) for n in [s[0] for s in r.src] + r.fns)
    nsrc = [l for l in range(1, len(r.labels)) if len(r.labels[l]) == 1]
    cf = 0
    for k, f, l in r.cf:
        cf += 1 + len(varint(f)) + (len(varint(l)) if k == 2 else 0)
    want = {1: 16 * len(r.src), 2: 8 * len(r.labels), 3: strs, 4: 16 * len(r.sinks), 6: 4 * len(r.fns), 7: 4 * len(r.ev), 8: cf}
    with open(r.path, "rb") as f:
        f.seek(0, 2)
        flen = f.tell()
        f.seek(0)
        hd = f.read(8 + 24 * 64)
        check(hd[:4] == b"TDAG", "no TDAG at the start")
        magic, cnt = struct.unpack_from("<HH", hd, 4)
        secs = [struct.unpack_from("<IIQQ", hd, 8 + 24 * i) for i in range(cnt)]
        check(sorted(s[0] for s in secs) == [1, 2, 3, 4, 5, 6, 7, 8], f"section tags {[s[0] for s in secs]}")
        check(magic == (sum(s[0] for s in secs) ^ cnt), f"magic {magic}")
        for tag, al, off, size in secs:
            check(al and off % al == 0, f"section {tag} at {off} is not aligned to {al}")
            check(off >= 8 + 24 * cnt and off + size <= flen, f"section {tag} [{off},{off + size}) is not between header and end of file {flen}")
            if tag != 5:
                check(size == want[tag], f"section {tag} declares {size} bytes, {want[tag]} were recorded")
            else:
                top = max(nsrc, default=-1)
                check(size % 8 == 0 and size * 8 > top, f"the index declares {size} bytes, the last input label is {top}")
        iv = sorted((o, o + s, t) for t, _, o, s in secs if s)
        for a, b in zip(iv, iv[1:]):
            check(a[1] <= b[0], f"sections {a[2]} and {b[2]} overlap")
        # room for every table up to its capacity
        cap = {1: 255 * 16, 2: 8 << 31, 3: 1 << 20, 4: 16 << 20, 5: 1 << 28, 6: 65535 * 4, 7: 4 * ((1 << 32) - 1), 8: 1 << 30}
        order = sorted((o, t) for t, _, o, _ in secs) + [(flen, None)]
        for (o, t), (o2, _) in zip(order, order[1:]):
            check(o2 - o >= min(cap[t], want.get(t, 0)), f"section {t} has no room")
    st.nontrivial += bool(c[1])


def varint(v):
    r = b""
    while v >= 128:
        r += bytes([v & 127 | 128])
        v >>= 7
    return r + bytes([v])


# ------------------------------------------------- C09: extreme field values
def pat(n, k):
    base = [b"a", b"\xc3\xa9", b"\xff\x80", b"z\x00", b"/.."][k]
    return (base * (n // len(base) + 1))[:n]


NAMES = [(n, k) for n in (0, 1, 2, 3, 255, 256, 65534, 65535) for k in range(5) if n or not k]
FDS = (-1, 0, 255, 65536, (1 << 31) - 1, -(1 << 31))
SIZES = (0, 1, (1 << 32) - 1, 1 << 32, 1 << 63, INV - 1, INV)
OFFS = (0, 1, 255, 256, (1 << 31) - 1, 1 << 32, (1 << 53), (1 << 54) - 1)
SOFFS = OFFS + ((1 << 63) - 1,)
LABS = (1, 255, 65536, (1 << 31) - 1, (1 << 32) - 1)
IDXS = (0, 1, 127, 128, 254, 255)


def gen_ext(th):
    for n in NAMES:
        for fd in FDS:
            for s in SIZES:
                yield ["src", [[n, fd, s]]]
    short = [n for n in NAMES if n[0] <= 256]
    for a in NAMES:
        for b in short:
            for c in (NAMES if th else short):
                yield ["src", [[a, 3, 0], [b, 4, 1], [c, 5, 2]]]
    for a in itertools.product(SOFFS, LABS, IDXS):
        yield ["sink", [list(a)]]
        yield ["sink", [[0, 1, 0], list(a), [SOFFS[-1], LABS[-1], 255]]]
    for i in IDXS:
        for o in OFFS:
            yield ["lab", [[i, o, 1]]]
            for n in ((1, 2, 63, 64, 65) if th else (2, 64)):
                if o + n <= 1 << 54:
                    yield ["lab", [[0, 5, 3], [i, o, n], [7, 0, 1]]]
    for n in (0, 1, 254, 255):
        yield ["many", n]


def run_ext(c):
    kind, xs = c
    path = os.path.join(os.getcwd(), "s.tdag")
    h = L.sec_new(path.encode())
    check(h, "the trace could not be created")
    out = (C.c_uint32 * 2)()
    src, sinks, labs = [], [], [None]
    if kind == "many":
        xs = [[[1 + i % 7, 0], i, i] for i in range(xs)]
        kind = "src"
    for x in xs:
        st.transitions += 1
        if kind == "src":
            (n, k), fd, size = x
            nm = pat(n, k)
            r = no(L.sec_source(h, nm, len(nm), fd, size), "source")
            check(r == len(src), f"source {len(src)} has index {r}")
            src.append((nm, fd, size))
        elif kind == "sink":
            no(L.sec_sink(h, *x), "output record")
            sinks.append(tuple(x))
        else:
            i, o, n = x
            no(L.sec_labels(h, i, o, n, out), "labels")
            check(out[0] == len(labs) and out[1] == len(labs) + n - 1, f"labels {list(out)}")
            labs += [(i, o + k) for k in range(n)]
    L.sec_del(h)
    with Opened(path) as td:
        fh = [(name_of(td, x.name_offset), x.fd, x.size) for p, x in td.fd_headers]
        check(len(fh) == len(src), f"{len(fh)} sources read, {len(src)} recorded")
        for a, b in zip(fh, src):
            check(a == b, lambda: f"source {(a[0][:20], len(a[0])) + a[1:]} read, recorded {(b[0][:20], len(b[0])) + b[1:]}")
        for (p, x), (n, _, size) in zip(td.fd_headers, src):
            check(p == Path(os.fsdecode(n)), "path of a source")
            check(x.invalid_size() == (size == INV), f"size {size} counts as {'invalid' if x.invalid_size() else 'valid'}")
        sk = [(s.offset, s.label, s.fdidx) for s in td.sinks]
        check(sk == sinks, f"outputs read {sk}, recorded {sinks}")
        got = [(n.idx, n.offset) if isinstance(n, T.TDSourceNode) else n for n in td.nodes]
        check(got == labs[1:], f"labels read {got[:5]}, recorded {labs[1:6]}")
        check(not list(td.events) and not list(td.fn_headers), "events or functions that were not recorded")
    st.nontrivial += 1


# ------------------------------------------------- C09: long label tables
BLOCKS = [("s", 1), ("s", 63), ("s", 64), ("u", 1), ("u", 62), ("u", 64), ("u", 130)]


def gen_blk(th):
    for n in (1, 2, 3) + ((4,) if th else ()):
        for c in itertools.product(range(len(BLOCKS)), repeat=n):
            yield [BLOCKS[i] for i in c]
    yield [["s", 70000], ["u", 3], ["s", 5]]
    yield [["s", 2], ["u", 3], ["s", 66000], ["u", 70], ["s", 1]]
    if th:
        yield [["s", 1 << 20], ["u", 300], ["s", 70]]


def run_blk(c):
    path = os.path.join(os.getcwd(), "b.tdag")
    h = L.rec_new(path.encode())
    check(h, "the trace could not be created")
    no(L.rec_open(h, 3, b"in", 2), "open")
    out = (C.c_uint32 * 2)()
    want, off, pair = [None], 0, (1, 3)
    for k, n in [["s", 24]] + c:
        st.transitions += 1
        if k == "s":
            no(L.rec_readv(h, 3, off, n, out), "read")
            check(out[0] == len(want) and out[1] == len(want) + n - 1, f"labels {list(out)}")
            want += [("s", 0, off + i) for i in range(n)]
            off += n
        else:
            done = 0
            while done < n and pair[1] < len(want):
                a, b = pair
                pair = (a + 1, b) if a + 3 < b else (1, b + 1)
                if want[a][0] == "s" and want[b][0] == "s" and a + 1 < b:
                    r = no(L.rec_union(h, a, b), "union")
                    check(r == len(want), f"union of the unrelated bytes {a} and {b} is {r}")
                    want.append(("u", a, b))
                    done += 1
    marks = {x for x in (1, len(want) - 1, len(want) // 2) if 0 < x < len(want)}
    for m in marks:
        no(L.rec_cf(h, m), "mark")
    L.rec_del(h)
    seen, q = set(), list(marks)
    while q:
        x = q.pop()
        if x not in seen and x < len(want):
            seen.add(x)
            if want[x][0] == "u":
                q += want[x][1:]

    def low(n):
        if isinstance(n, T.TDSourceNode):
            return ("s", n.idx, n.offset)
        if isinstance(n, T.TDUnionNode):
            return ("u",) + tuple(sorted((n.left, n.right)))
        return n
    with Opened(path) as td:
        check(td.label_count == len(want), f"{td.label_count} labels read, {len(want)} recorded")
        for i, n in enumerate(td.nodes):
            check(low(n) == want[i + 1], f"label {i + 1} reads as {n}, recorded {want[i + 1]}")
        for l in itertools.chain(range(1, min(len(want), 300)), range(max(1, len(want) - 300), len(want)), range(1, len(want), 1021)):
            n = td.decode_node(l)
            check(low(n) == want[l], f"label {l} decodes as {n}, recorded {want[l]}")
            check(n.affects_control_flow == (l in seen), f"mark of label {l}")
        il, w = list(td.input_labels()), [i for i in range(1, len(want)) if want[i][0] == "s"]
        check(il == w, lambda: f"input labels: read {len(il)}, recorded {len(w)}, first difference at {next((x for x in itertools.zip_longest(il, w) if x[0] != x[1]), None)}")
    st.nontrivial += len(want) > 64


# ------------------------------------------------- C04: stored entries as the reader decodes them
V31 = sorted({0, 1, 2, 3, 127, 128, 255, 256} | {(1 << k) + d for k in (15, 16, 24, 30) for d in (-1, 0, 1)} | {(1 << 31) - 1, (1 << 31) - 2})
O54 = sorted({0, 1} | {(1 << k) + d for k in (8, 22, 23, 31, 32, 53) for d in (-1, 0)} | {(1 << 54) - 1})


def gen_enc(th):
    for cf in (0, 1):
        for a in V31:
            yield ["u", a, cf]
            yield ["r", a, cf]
        for i in range(256) if th else IDXS + (2, 63, 64, 126, 129):
            yield ["s", i, cf]


def run_enc(c):
    k, a, cf = c
    rows = []
    if k == "s":
        rows = [(a, o) for o in O54]
    else:
        rows = [(a, b) for b in V31 if a + (k == "u") < b]
    raw = [L.rec_enc("sur".index(k), x, y, cf) for x, y in rows]
    path = os.path.join(os.getcwd(), "e.tdag")
    with open(path, "wb") as f:
        f.write(tdagw.trace(labels=raw))
    with Opened(path) as td:
        for i, (x, y) in enumerate(rows):
            n = td.decode_node(i + 1)
            st.transitions += 1
            check(n.affects_control_flow == bool(cf), f"{k} {x} {y}: mark {cf} read as {n.affects_control_flow}")
            if k == "s":
                check(isinstance(n, T.TDSourceNode) and (n.idx, n.offset) == (x, y), f"input byte {(x, y)} read as {n}")
            elif k == "u":
                check(isinstance(n, T.TDUnionNode) and {n.left, n.right} == {x, y}, f"pair {(x, y)} read as {n}")
            else:
                check(isinstance(n, T.TDRangeNode) and (n.first, n.last) == (x, y), f"range {(x, y)} read as {n}")
    st.nontrivial += bool(rows)


# ------------------------------------------------- C10: control-flow log
IDS = sorted({0, 1, 126} | {(1 << k) + d for k in (7, 14, 21, 28, 31) for d in (-1, 0, 1)} | {(1 << 32) - 1, (1 << 32) - 2})


def norm(e):
    if isinstance(e, T.TDEnterFunctionEvent):
        return ("enter", list(e.callstack))
    if isinstance(e, T.TDLeaveFunctionEvent):
        return ("leave", list(e.callstack))
    if isinstance(e, T.TDTaintedControlFlowEvent):
        return ("branch", list(e.callstack), e.label)
    return e


def record_cf(evs):
    path = os.path.join(os.getcwd(), "c.tdag")
    h = L.rec_new(path.encode())
    check(h, "the trace could not be created")
    for e in evs:
        st.transitions += 1
        if e[0] == "e":
            no(L.rec_enter(h, e[1]), "enter")
        elif e[0] == "l":
            no(L.rec_leave(h, e[1]), "leave")
        else:
            no(L.rec_tcf(h, e[2], e[1]), "branch")
    L.rec_del(h)
    return path


def gen_nest(th):
    """Executions of one thread: calls, returns, tainted branches, and frames abandoned without a return."""
    F = 3

    def rec(evs, stack, n, pend):
        # pend: functions of the frames abandoned since the last event
        yield list(evs)
        if n == 0:
            return
        top = stack[-1] if stack else None
        if top is not None and top not in pend:
            lab = len(evs) + 1
            yield from rec(evs + [["t", top, lab]], stack, n - 1, ())
            yield from rec(evs + [["l", top]], stack[:-1], n - 1, ())
        if not pend:
            for f in range(F):
                yield from rec(evs + [["e", f]], stack + [f], n - 1, ())
        for k in range(1, len(stack)):
            if not pend:
                cut = tuple(stack[-k:])
                rest = stack[:-k]
                if rest[-1] not in cut:
                    # the next event is one of the function execution continues in
                    yield from rec2(evs + [["x", k]], rest, n, cut)

    def rec2(evs, stack, n, pend):
        top = stack[-1]
        lab = len(evs) + 1
        yield from rec(evs + [["t", top, lab]], stack, n - 1, ())
        yield from rec(evs + [["l", top]], stack[:-1], n - 1, ())
    yield from rec([], [], 8 if th else 6, ())


IDMAPS = [[0, 1, 2], [127, 128, (1 << 32) - 1], [(1 << 14) - 1, 1 << 14, 1 << 28]]


def expect(evs, name):
    stack, want = [], []
    for e in evs:
        if e[0] == "x":
            for _ in range(e[1]):
                want.append(("leave", stack[:]))
                stack.pop()
        elif e[0] == "e":
            stack.append(name(e[1]))
            want.append(("enter", stack[:]))
        elif e[0] == "l":
            want.append(("leave", stack[:]))
            stack.pop()
        else:
            want.append(("branch", stack[:], e[2]))
    while stack:  # frames still open at the end of the run
        want.append(("leave", stack[:]))
        stack.pop()
    return want


def read_cf(path, names=None):
    with Opened(path) as td:
        s = td.sections_by_type[T.TDControlFlowLogSection]
        if names is not None:
            s.function_id_mapping(names)
        a = [norm(e) for e in list(s)]  # events stay what they were while the rest is read
        b = [norm(e) for e in s]
    check(a == b, "reading the log twice gives different events")
    return a


def diff(got, want):
    for i, (a, b) in enumerate(itertools.zip_longest(got, want)):
        if a != b:
            return f"event {i}: read {a}, happened {b}"


def run_nest(evs):
    h = sum(len(e) for e in evs) + len(evs)
    m = IDMAPS[h % 3]
    real = [[e[0], m[e[1]]] + e[2:] for e in evs if e[0] != "x"]
    path = record_cf(real)
    got = read_cf(path)
    want = expect(evs, lambda f: m[f])
    check(got == want, lambda: diff(got, want))
    if m is IDMAPS[0]:
        names = ["main", "f(int)", "\u00e9"]
        got = read_cf(path, names)
        want = expect(evs, lambda f: names[f])
        check(got == want, lambda: diff(got, want))
    st.nontrivial += any(e[0] == "t" for e in evs)


def gen_mag(th):
    for f in IDS:
        for l in IDS:
            yield [f, l, 0]
            for g in (IDS if th else (0, 127, 128, 1 << 14, (1 << 32) - 1)):
                yield [f, l, g]


def run_mag(c):
    f, l, g = c
    evs = [["e", f], ["t", f, l], ["e", g], ["t", g, 1], ["t", g, l], ["l", g], ["t", f, l], ["l", f]]
    got = read_cf(record_cf(evs))
    want = expect(evs, lambda x: x)
    check(got == want, lambda: diff(got, want))
    st.nontrivial += 1


def gen_scale(th):
    """Deep recursion, unwound by returns or all at once; long logs."""
    for n in list(range(1, 40)) + [100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025, 1400] + ([3000] if th else []):
        for how in range(4):
            for same in (0, 1):
                yield [n, how, same]
    for n in (1000, 5000, 20000):
        yield [n, 4, 0]


def run_scale(c):
    n, how, same = c
    if how == 4:  # a loop that calls
        evs = [["e", 7]]
        for i in range(n):
            evs += [["e", 8 + i % 300], ["t", 8 + i % 300, i + 1], ["l", 8 + i % 300]]
    else:
        f = [5] + [6 if same else 10 + i for i in range(n)]
        evs = [["e", x] for x in f] + [["t", f[-1], 99]]
        if how == 0 or (how == 2 and same):  # returns
            for x in reversed(f[1:]):
                evs += [["l", x], ["t", 5, 3]] if x == f[1] and not same else [["l", x]]
        elif how == 1:  # the outermost function goes on at once
            evs += [["x", n], ["t", 5, 4]]
        elif how == 2:  # halfway
            k = n // 2
            evs += ([["x", n - k]] if n > k else []) + [["t", f[k], 4], ["l", f[k]]]
        # how 3: the run ends there
    real = [e for e in evs if e[0] != "x"]
    got = read_cf(record_cf(real))
    want = expect(evs, lambda x: x)
    check(got == want, lambda: str(diff(got, want))[:300])
    st.nontrivial += 1
    st.transitions += len(real)


def gen_any(th):
    """Any interleaving of events (several threads write into one log)."""
    A = [["e", 0], ["e", 1], ["l", 0], ["l", 1], ["t", 0], ["t", 1]] + ([["e", 2], ["l", 2], ["t", 2]] if th else [])
    for n in range(6 if not th else 6):
        for s in itertools.product(range(len(A)), repeat=n):
            yield [A[i] + ([9 + k] if A[i][0] == "t" else []) for k, i in enumerate(s)]


def run_any(evs):
    got = read_cf(record_cf(evs))
    br = [(e[1][-1] if e[1] else None, e[2]) for e in got if e[0] == "branch"]
    want = [(e[1], e[2]) for e in evs if e[0] == "t"]
    check(br == want, f"branches (function, label) read {br}, happened {want}")
    en = [e[1][-1] for e in got if e[0] == "enter"]
    want = [e[1] for e in evs if e[0] == "e"]
    check(en == want, f"entries read {en}, happened {want}")
    # the exits that happened are among the exits reported, in order
    lv = iter([e[1][-1] for e in got if e[0] == "leave"])
    for e in evs:
        if e[0] == "l":
            check(any(x == e[1] for x in lv), f"exit of {e[1]} is missing")
    st.nontrivial += bool(evs)


# ------------------------------------------------- C11: function trace
FN = [b"f", b"fo", b"foo", b"", b"g\x00h", b"g", b"\xff\xfe", b"in", b"n" * 65535]


def gen_fn(th):
    ops = list(range(len(FN))) + [-1, -2]
    for n in range(6 if th else 5):
        for s in itertools.product(ops if n < 5 else ops[:6] + [-1], repeat=n):
            yield list(s)
    yield list(range(1000, 1300)) + [1000, 1299, 1255, 1256]
    yield [x for i in range(600) for x in (1000 + i, -1)]


class Buf:
    b = None


def run_fn(c):
    path = os.path.join(os.getcwd(), "f.tdag")
    h = L.rec_new(path.encode())
    check(h, "the trace could not be created")
    L.rec_open(h, 3, b"in", 2)
    if Buf.b is None:
        Buf.b = C.create_string_buffer(70000)
    fns, ev = [], []
    for i, x in enumerate(c):
        st.transitions += 1
        if x < 0:
            if not fns:
                continue
            k = ev[-1][1] if x == -1 else 0
            no(L.rec_fexit(h, k), "exit")
            ev.append((1, k))
            continue
        n = FN[x] if x < 1000 else b"fn%d" % x
        # the caller's buffer is reused for the next name
        C.memset(Buf.b, 0x55, 64)
        C.memmove(Buf.b, n, len(n))
        r = no(L.rec_fentry(h, C.addressof(Buf.b), len(n)), "entry")
        if n not in fns:
            fns.append(n)
        check(r == fns.index(n), f"call {i} of {n[:20]!r} got function {r}, expected {fns.index(n)}")
        ev.append((0, r))
    C.memset(Buf.b, 0x55, 64)
    L.rec_del(h)
    with Opened(path) as td:
        got = [os.fsencode(n) for n, _ in td.fn_headers]
        check(got == fns, lambda: f"functions read {[x[:20] for x in got]}, recorded {[x[:20] for x in fns]}")
        e = [(x.kind, x.fnidx) for x in td.events]
        check(e == ev, f"events read {e}, recorded {ev}")
        for x in td.events:
            check(T.TDEvent.Kind(x.kind).name in repr(x), "kind of an event")
    st.nontrivial += bool(ev)


def gen_many(th):
    for n in [200, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 16385, 32767, 32768, 32769, 40000, 65000, 65535]:
        for step in (1, 3):
            yield [n, step]


def run_many(c):
    n, step = c
    path = os.path.join(os.getcwd(), "f.tdag")
    h = L.rec_new(path.encode())
    check(h, "the trace could not be created")
    names = [b"f%d" % (i * 7) for i in range(n)]
    ev = []
    for rnd in range(2):
        for i in range(0, n, step if rnd else 1):
            r = no(L.rec_fentry(h, names[i], len(names[i])), "entry")
            check(r == i, f"call of {names[i]!r} got function {r}, expected {i} (of {n})")
            ev.append((0, i))
            if i % 3 == 0:
                no(L.rec_fexit(h, r), "exit")
                ev.append((1, i))
    L.rec_del(h)
    st.transitions += len(ev)
    with Opened(path) as td:
        got = [os.fsencode(x) for x, _ in td.fn_headers]
        check(got == names, lambda: f"{len(got)} functions read, {n} recorded; first difference {next((p for p in zip(got, names) if p[0] != p[1]), None)}")
        e = [(x.kind, x.fnidx) for x in td.events]
        check(e == ev, lambda: f"{len(e)} events read, {len(ev)} recorded; first difference {next((p for p in zip(e, ev) if p[0] != p[1]), None)}")
    st.nontrivial += 1


SUITES = [
    Suite("c08_hist", "recording history; raw header and section table against what was recorded", gen_hist, run_shape, d_hist, setup=setup),
    Suite("c09_hist", "recording history; everything the reader returns against what was recorded", gen_hist, run_hist, d_hist, setup=setup),
    Suite("c09_ext", "one to three records with extreme names, descriptors, sizes, offsets, labels or indices", gen_ext, run_ext, setup=setup),
    Suite("c09_long", "all sequences of blocks of input and derived labels around the word boundaries of the input-label index; tables beyond 2^16 labels", gen_blk, run_blk, setup=setup),
    Suite("c04_py", "boundary values stored by the real encoder, decoded by the real reader", gen_enc, run_enc, setup=setup),
    Suite("c10_nest", "execution of one thread with calls, returns, branches and abandoned frames", gen_nest, run_nest, setup=setup),
    Suite("c10_mag", "function ids and labels at every varint boundary", gen_mag, run_mag, setup=setup),
    Suite("c10_any", "arbitrary event sequence", gen_any, run_any, setup=setup),
    Suite("c10_scale", "calls nested up to 1400 (thorough 3000) deep, unwound by returns, abandoned in part or whole; logs of up to 60000 events", gen_scale, run_scale, setup=setup),
    Suite("c11_many", "every one of up to 65535 functions entered twice", gen_many, run_many, setup=setup),
    Suite("c11_fn", "sequence of function entries and exits with names held in a reused buffer", gen_fn, run_fn, setup=setup),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
