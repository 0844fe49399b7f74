from vlib.world import *
from vlib import shim
import errno
import hashlib
import zlib
from gitdb.stream import FDCompressedSha1Writer, FDStream, FlexibleSha1Writer, Sha1Writer, ZippedStoreShaWriter

NEEDS_SHIM = True
LEVEL = "exploration"
RULE = ("one case = one writer of each kind fed a generated sequence of writes (sizes 0 to several MB, bytes/bytearray/memoryview, any split) with "
        "digest queries in between, against a shadow digest and buffer; the descriptor-backed ones write to files, pipes, and through failing or "
        "short calls; distinct = (writer, data size, number of writes, fault)")
MORE = 5
REQUIRE = {"writes": 8000, "digest queries": 4000, "writers closed": 360, "failing writes": 90, "short writes": 60}


def pieces(c, maximum=120000):
    rng = c.rng
    data = gen.content(rng, gen.size(rng, maximum))
    if rng.random() < .02:
        data = gen.content(rng, rng.randint(1 << 20, 6 << 20))
    return data, gen.split(rng, data)


def form(rng, b):
    k = rng.random()
    return b if k < .7 else bytearray(b) if k < .85 else memoryview(b)


class Shadow:
    def __init__(self, c, w, what):
        self.c, self.w, self.what = c, w, what
        self.h, self.buf = hashlib.sha1(), bytearray()

    def write(self, p):
        r = self.w.write(form(self.c.rng, p))
        self.c.ev("writes")
        self.h.update(p)
        self.buf += p
        self.c.eq(r, len(p), self.what + ": length returned by write()")
        if self.c.rng.random() < .4:
            self.digest()

    def digest(self):
        c = self.c
        k = c.rng.randrange(3)
        c.ev("digest queries")
        if k == 0:
            c.eq(self.w.sha(as_hex=False), self.h.digest(), self.what + ": binary digest")
        elif k == 1:
            c.eq(bt(self.w.sha(as_hex=True)), self.h.hexdigest().encode(), self.what + ": hex digest")
        else:
            c.eq(self.w.sha(), self.h.digest(), self.what + ": digest")

    def feed(self, ps):
        self.digest()
        for p in ps:
            self.write(p)
        self.digest()
        self.digest()


def plain(c):
    data, ps = pieces(c)
    s = Shadow(c, Sha1Writer(), "Sha1Writer")
    s.feed(ps)
    c.sig("plain", len(data), len(ps))


def forwarding(c):
    rng = c.rng
    data, ps = pieces(c)
    got = []
    ret = rng.choice(("none", "len", "other"))

    def sink(d):
        got.append(bytes(d))
        return {"none": None, "len": len(d), "other": 0}[ret]
    w = FlexibleSha1Writer(sink)
    s = Shadow(c, w, "FlexibleSha1Writer")
    s.digest()
    for p in ps:
        s.write(p)
        if b"".join(got) != bytes(s.buf):
            c.fail("FlexibleSha1Writer: bytes passed on differ", len(s.buf))
        if rng.random() < .01:
            got[:] = [b"".join(got)]
    s.digest()
    # a chain of two
    out = bytearray()
    inner = FlexibleSha1Writer(out.extend)
    outer = FlexibleSha1Writer(inner.write)
    for p in ps[:50]:
        c.eq(outer.write(p), len(p), "chained write")
    want = b"".join(ps[:50])
    c.eq(bytes(out), want, "bytes passed on by a chain")
    c.eq((outer.sha(), inner.sha()), (hashlib.sha1(want).digest(),) * 2, "digests of a chain")
    # an error of the target is reported
    exc = IOError("full")

    def bad(d):
        raise exc
    w = FlexibleSha1Writer(bad)
    c.raises(IOError, lambda: w.write(b"x"), "error of the target vanished")
    c.sig("forward", len(data), len(ps), ret)


def unzip(c, b, want, what):
    d = zlib.decompressobj()
    try:
        got = d.decompress(b)
    except zlib.error as e:
        c.fail(what + ": no zlib stream: %s" % e)
    c.check(d.eof and not d.unused_data, what + ": not exactly one complete zlib stream", len(d.unused_data))
    if got != want:
        c.fail(what + ": decompresses to something else", got, want)


def zipped(c):
    rng = c.rng
    data, ps = pieces(c)
    w = ZippedStoreShaWriter()
    s = Shadow(c, w, "ZippedStoreShaWriter")
    s.feed(ps)
    w.close()
    c.ev("writers closed")
    s.digest()
    unzip(c, bytes(w.getvalue()), data, "ZippedStoreShaWriter")
    c.eq(w.tell(), len(w.getvalue()), "position after writing")
    w.seek(0)
    raw = w.read(10) + w.read()
    c.check(raw == w.getvalue(), "reading back what was written")
    w.seek(0)
    unzip(c, w.read(), data, "ZippedStoreShaWriter, read")
    c.raises(ValueError, lambda: w.seek(rng.randint(1, 9)), "seek to another position")
    s.digest()
    c.sig("zipped", len(data), len(ps))
    c.sample(kind="zipped", size=len(data), writes=len(ps))


def descriptor(c):
    """FDCompressedSha1Writer and FDStream on files and pipes"""
    rng = c.rng
    data, ps = pieces(c)
    kind = rng.choice(("file", "file", "pipe"))
    if kind == "pipe" and len(data) > 30000:
        kind = "file"
    p = os.path.join(c.tmp, "f")
    decoy = os.path.join(c.tmp, "decoy")
    open(decoy, "wb").close()
    if kind == "file":
        fd = os.open(p, os.O_CREAT | os.O_RDWR, 0o600)
        pre = rng.choice((b"", b"", b"already there"))
        os.write(fd, pre)
    else:
        r, fd = os.pipe()
        pre = b""
    cls = rng.choice((FDCompressedSha1Writer, FDCompressedSha1Writer, FDStream))
    w = cls(fd)
    if cls is FDStream:
        for x in ps:
            c.ev("writes")
            c.eq(w.write(form(rng, x)), len(x), "length returned by FDStream.write")
        c.eq(w.tell(), len(data), "position of FDStream")
        c.eq(w.fileno(), fd, "descriptor of FDStream")
    else:
        s = Shadow(c, w, "FDCompressedSha1Writer")
        s.feed(ps)
    c.check(fd in fds(), "descriptor closed before close()")
    before = fds()
    w.close()
    after = fds()
    c.ev("writers closed")
    gone = {f: t for f, t in before.items() if f not in after and not t.startswith("/proc")}
    c.eq(sorted(gone), [fd], "descriptors closed by close()")
    d1 = [os.open(decoy, os.O_RDONLY) for _ in range(2)]
    if cls is not FDStream:
        s.digest()
    del w
    if cls is not FDStream:
        s.w = None
        del s
    gc.collect()
    for f in d1:
        try:
            os.close(f)
        except OSError:
            c.fail("descriptor closed again when the writer was dropped")
    if kind == "file":
        with open(p, "rb") as f:
            got = f.read()
        c.check(got.startswith(pre), "what was in the file before")
        got = got[len(pre):]
    else:
        got = b""
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            got += b
        os.close(r)
    if cls is FDStream:
        c.eq(got, data, "bytes written through FDStream")
        if kind == "file":
            fd = os.open(p, os.O_RDONLY)
            st = FDStream(fd)
            back, n = b"", 0
            if rng.random() < .5:
                while True:
                    b = st.read(rng.randint(1, len(data) + 10))
                    if not b:
                        break
                    back += b
                    n += 1
                    if n > 3000:
                        break
                if n <= 3000:
                    c.eq(back, pre + data, "reading through FDStream")
                    c.eq(st.tell(), len(pre + data), "position of FDStream after reading")
            else:
                c.eq(st.read(), pre + data, "reading everything through FDStream")
            st.close()
    else:
        unzip(c, got, data, "FDCompressedSha1Writer")
    c.sig(cls.__name__, kind, len(data), len(ps))


def faults(c):
    """failing and short calls: an error, or everything written; the descriptor is closed exactly once"""
    rng = c.rng
    data = gen.content(rng, gen.size(rng, 60000), "random")
    ps = gen.split(rng, data)[:30]
    ps.append(data[sum(map(len, ps)):])
    cls = rng.choice((FDCompressedSha1Writer, FDCompressedSha1Writer, FDStream))
    calls = None
    for k in [0] + list(range(1, 7)):
        p = os.path.join(c.tmp, "f%d" % k)
        fd = os.open(p, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        os.close(fd)
        mode = shim.COUNT if k == 0 else rng.choice((shim.FAIL, shim.SHORT, shim.SHORT, shim.ALL_SHORT))
        n = 1 if not calls else max(1, rng.choice((1, 2, calls, calls - 1, rng.randint(1, calls))))
        shim.arm(c.tmp, mode, n + 1, rng.choice((errno.ENOSPC, errno.EIO)))      # the open is the first call
        fd = os.open(p, os.O_RDWR)
        w = cls(fd)
        raised = None
        h = hashlib.sha1()
        try:
            for x in ps:
                if w.write(x) != len(x):
                    c.fail("%s.write() reports another length" % cls.__name__)
                h.update(x)
        except OSError as e:
            raised = e
        if cls is not FDStream and not raised:
            c.eq(w.sha(), h.digest(), "digest")
        try:
            w.close()
        except OSError as e:
            raised = raised or e
        hits, evs = shim.hits(), shim.events()
        shim.disarm()
        if k == 0:
            calls = len([e for e in evs if e.op == "write"])
        if fd in fds() and fds()[fd] == p:
            c.fail("%s: descriptor left open, mode %d" % (cls.__name__, mode), repr(raised))
        closes = [e for e in evs if e.op == "close" and e.path == p]
        if len(closes) > 1:
            c.fail("%s: descriptor closed twice" % cls.__name__, repr(raised))
        with open(p, "rb") as f:
            got = f.read()
        if hits:
            c.ev("short writes" if mode in (shim.SHORT, shim.ALL_SHORT) else "failing writes")
        if mode == shim.FAIL and hits and not raised:
            c.fail("%s: failed call %d of %d not reported" % (cls.__name__, n, calls))
        if not raised:
            if cls is FDStream:
                c.eq(got, data, "bytes written")
            else:
                unzip(c, got, data, "FDCompressedSha1Writer (mode %d)" % mode)
        c.sig(cls.__name__, mode, n, bool(raised), len(data))
        raised = None
        w = None
        os.unlink(p)


FAMILIES = [("plain", plain, 250, 6000), ("forwarding", forwarding, 250, 6000), ("zipped", zipped, 400, 9000), ("descriptor", descriptor, 500, 12000),
            ("faults", faults, 150, 3000)]
