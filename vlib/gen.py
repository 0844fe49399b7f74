"""Generators of contents, sizes, compressed forms, read patterns and source streams."""
import os
import random
import zlib

TYPES = (b"blob", b"tree", b"commit", b"tag")
CHUNK = 4096 * 1000             # copy chunk of the library (only used to aim at sizes around it)
BOUNDS = (1, 2, 7, 8, 9, 15, 16, 17, 127, 128, 255, 256, 511, 512, 513, 1023, 1024, 2047, 2048, 4095, 4096, 4097,
          8175, 8180, 8181, 8182, 8183, 8184, 8185, 8186, 8187, 8188, 8190, 8191, 8192, 8193, 8200, 16383, 16384, 16385,
          32767, 32768, 65535, 65536, 65537, 131072)


def size(rng, maximum=200000):
    k = rng.random()
    if k < 0.12:
        s = rng.choice((0, 0, 1, 2, 3))
    elif k < 0.40:
        s = rng.choice(BOUNDS) + rng.randint(-2, 2)
    elif k < 0.75:
        s = int(2 ** rng.uniform(2, 17.5))
    else:
        s = rng.randint(0, 3000)
    return max(0, min(s, maximum))


def _text(rng, n):
    words = [bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz") for _ in range(rng.randint(1, 9))) for _ in range(rng.randint(3, 60))]
    out = bytearray()
    while len(out) < n:
        out += rng.choice(words) + rng.choice((b" ", b" ", b"\n", b"\t"))
    return bytes(out[:n])


def content(rng, n, kind=None):
    kind = kind or rng.choice(("random", "zeros", "text", "text", "pattern", "header", "mixed", "mixed", "lowent", "packlike"))
    if n == 0:
        return b""
    if kind == "random":
        return rng.randbytes(n)
    if kind == "zeros":
        return bytes([rng.choice((0, 0, 255, 120))]) * n
    if kind == "text":
        return _text(rng, min(n, 20000)).ljust(n, b"x") if n > 20000 else _text(rng, n)
    if kind == "pattern":
        p = rng.randbytes(rng.randint(1, 300))
        return (p * (n // len(p) + 1))[:n]
    if kind == "header":
        p = rng.choice((b"blob %d\0" % n, b"blob 12\0", b"\0", b"tree 0\0\0\0", zlib.compress(b"blob 3\0abc"), b"commit 99999\0"))
        return (p + rng.randbytes(n))[:n]
    if kind == "packlike":
        return (b"PACK\0\0\0\2\0\0\0\1" + zlib.compress(rng.randbytes(30)) + b"\xfftOc" + bytes(n))[:n]
    if kind == "lowent":
        a = rng.choice((b"ab", b"abcd", b"\0\1", bytes(range(16))))
        if n > 30000:
            blk = bytes(rng.choices(a, k=20000))
            return (blk * (n // 20000 + 1))[:n]
        return bytes(rng.choices(a, k=n))
    # mixed: segments of very different compressibility
    out = bytearray()
    while len(out) < n:
        m = rng.choice((1, 10, 100, 1000, 8192, 20000, 70000))
        out += content(rng, m, rng.choice(("random", "zeros", "text", "lowent", "pattern")))
    return bytes(out[:n])


def otype(rng):
    return rng.choice(TYPES)


def tree_content(rng, n_entries):
    return b"".join(b"100644 f%d\0" % i + rng.randbytes(20) for i in range(n_entries))


def deflate(rng, data, wide=False):
    """A valid zlib stream of data in one of many forms.  wide: any window size"""
    mode = rng.random()
    if mode < 0.35:
        return zlib.compress(data, rng.choice((0, 1, 1, 6, 9, -1, 3)))
    level = rng.randint(0, 9)
    wbits = rng.randint(9, 15) if wide and rng.random() < 0.3 else 15
    co = zlib.compressobj(level, zlib.DEFLATED, wbits, rng.randint(1, 9),
                          rng.choice((zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED)))
    if mode < 0.65:
        return co.compress(data) + co.flush()
    # many blocks, empty blocks in between
    out, i = [], 0
    step = rng.choice((1, 5, 50, 700, 5000, 40000))
    n = 0
    flushes = (zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH, zlib.Z_NO_FLUSH)
    if rng.random() < 0.4:
        for _ in range(rng.choice((1, 2, 5))):
            out.append(co.flush(zlib.Z_FULL_FLUSH))
    while i < len(data) and n < 300:
        m = rng.randint(1, 2 * step)
        out.append(co.compress(data[i:i + m]))
        f = rng.choice(flushes)
        if f != zlib.Z_NO_FLUSH:
            out.append(co.flush(f))
        i += m
        n += 1
    out.append(co.compress(data[i:]))
    for _ in range(rng.choice((0, 0, 0, 1, 3, 30))):
        out.append(co.flush(zlib.Z_FULL_FLUSH))
    out.append(co.flush())
    return b"".join(out)


class Source:
    """Readable source with a given way of splitting its data; counts what was pulled"""

    def __init__(self, data, mode="full", rng=None, fail_at=None, end_at=None, exc=None):
        self.data, self.pos, self.mode = data, 0, mode
        self.rng = rng or random.Random(0)
        self.fail_at, self.end_at, self.exc = fail_at, end_at, exc
        self.reads = 0
        self.max_request = 0
        self.closed = False

    def read(self, n=-1):
        self.reads += 1
        self.max_request = max(self.max_request, n)
        end = len(self.data) if self.end_at is None else min(self.end_at, len(self.data))
        if n is None or n < 0:
            n = end - self.pos
        m = min(n, end - self.pos)
        if self.fail_at is not None and self.pos + m > self.fail_at:
            if self.pos >= self.fail_at or self.mode != "partial":
                raise self.exc or IOError("source failed")
            m = self.fail_at - self.pos
        if m > 0 and self.mode == "one":
            m = 1
        elif m > 1 and self.mode in ("short", "partial"):
            m = self.rng.randint(1, m)
        elif m > 1 and self.mode == "half":
            m = (m + 1) // 2
        elif m > 100 and self.mode == "hundred":
            m = 100
        d = self.data[self.pos:self.pos + m]
        self.pos += m
        return d


SPLITS = ("full", "short", "half", "hundred", "full")


def split(rng, data):
    """data cut into pieces, empty ones included"""
    out, i = [], 0
    mode = rng.choice((1, 3, 100, 5000, 10 ** 9))
    while i < len(data) and len(out) < 500:
        m = rng.randint(0, mode)
        out.append(data[i:i + m])
        i += m
    out.append(data[i:])
    return out


def drive(c, stream, data, ops=40, rewinds=True, what="stream", full=None):
    """Monitor of one stream: random sized/unsized reads and rewinds against a shadow cursor.
    The stream must be positioned at its start. Ends with a complete read to the end."""
    rng = c.rng
    n = len(data)
    pos = 0
    style = rng.choice(("tiny", "mixed", "mixed", "big", "geom", "chunk", "exact"))
    step = rng.choice((1, 2, 3, 7, 8, 9, 100, 512, 4096, 8192, 65536))
    for k in range(ops):
        x = rng.random()
        if x < 0.06:
            got = stream.read() if rng.random() < 0.5 else stream.read(-1)
            want = data[pos:]
            c.ev("unsized reads")
            op = "read()"
        elif rewinds and x < 0.12:
            stream.seek(0)
            c.ev("rewinds")
            if 0 < pos < n:
                c.ev("rewinds midway")
            pos = 0
            continue
        else:
            if style == "tiny":
                r = rng.randint(1, 12)
            elif style == "big":
                r = rng.randint(1, n + 10)
            elif style == "geom":
                r = int(2 ** rng.uniform(0, 18))
            elif style == "chunk":
                r = step
            elif style == "exact":
                r = rng.choice((max(1, n - pos), max(1, n - pos - 1), n - pos + 1, 1, 8192))
            else:
                r = rng.choice((1, 2, 10, 500, 8191, 8192, 8193, rng.randint(1, n + 1), max(1, n - pos)))
            got = stream.read(r)
            want = data[pos:pos + r]
            c.ev("sized reads")
            op = "read(%d)" % r
            if r > len(want):
                c.ev("reads beyond the end")
        if got != want:
            i = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.fail("%s: %s at position %d of %d returned %d bytes instead of %d, first difference at %d" % (
                what, op, pos, n, len(got), len(want), i))
        pos += len(want)
        if pos == n and not rewinds and k > 3:
            break
    rest = stream.read()
    if pos == n:
        c.eq(len(rest), 0, what + ": data after the end")
    elif rest != data[pos:]:
        c.fail("%s: final read() at %d of %d returned %d bytes, equal prefix %s" % (what, pos, n, len(rest), rest == data[pos:pos + len(rest)]))
    for r in (1, 8192):
        g = stream.read(r)
        if g:
            c.fail("%s: read(%d) after the end returned %d bytes" % (what, r, len(g)))
    c.ev("bytes compared", n)
