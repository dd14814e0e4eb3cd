"""Writes trace files straight from the documented format (independent of the code under test)."""
import struct

CF = 1 << 62
INVALID = (1 << 64) - 1


def src(idx, off, cf=False):
    return 1 << 63 | (CF if cf else 0) | off << 8 | idx


def union(hi, lo, cf=False):
    return (CF if cf else 0) | hi << 31 | lo


def rng(first, last, cf=False):
    return (CF if cf else 0) | first << 31 | last


def varint(v):
    b = bytearray()
    while v >= 0x80:
        b.append(0x80 | v & 0x7F)
        v >>= 7
    b.append(v)
    return bytes(b)


def trace(sources=(), labels=(), sinks=(), functions=(), events=(), cflog=b"", index=None, order=(1, 2, 3, 4, 5, 6, 7, 8)):
    """sources: (name, fd, size); labels: encoded entries of labels 1..; sinks: (offset, label, idx)."""
    strings = bytearray()

    def string(s):
        s = s if isinstance(s, bytes) else s.encode()
        o = len(strings)
        strings.extend(struct.pack("<H", len(s)) + s)
        if len(strings) % 2:
            strings.append(0)
        return o
    sec = {}
    sec[1] = b"".join(struct.pack("<IiQ", string(n), fd, size) for n, fd, size in sources)
    sec[2] = struct.pack(f"<{len(labels) + 1}Q", 0, *labels)
    sec[6] = b"".join(struct.pack("<I", string(n)) for n in functions)
    sec[3] = bytes(strings)
    sec[4] = b"".join(struct.pack("<qIB3x", o, l, i) for o, l, i in sinks)
    if index is None:
        index = [i + 1 for i, v in enumerate(labels) if v >> 63]
    n = (max(index) // 64 + 1) if index else 0
    words = [0] * n
    for i in index:
        words[i // 64] |= 1 << i % 64
    sec[5] = struct.pack(f"<{n}Q", *words)
    sec[7] = b"".join(struct.pack("<BxH", k, f) for k, f in events)
    sec[8] = cflog
    align = {1: 8, 2: 8, 3: 2, 4: 8, 5: 8, 6: 4, 7: 2, 8: 1}
    pos = 8 + 24 * len(order)
    head, body = b"TDAG" + struct.pack("<HH", sum(order) ^ len(order), len(order)), b""
    for t in order:
        pad = -(pos + len(body)) % 8
        body += b"\xee" * pad
        head += struct.pack("<IIQQ", t, align[t], pos + len(body), len(sec[t]))
        body += sec[t]
    return head + body + b"\xee" * 16
