from vlib.world import *
import hashlib
import tracemalloc
import zlib

LEVEL = "exploration"
RULE = ("one case = one large object of a generated size and compressibility driven through one operation (store, copy between databases, writing "
        "into a pack, piecewise reading of a loose or packed object, opening a stream, info) while the peak of traced allocations, the anonymous "
        "resident memory at every source/sink call, the largest single source request and the compressed input consumed are recorded and compared "
        "with bounds that do not depend on the object size; distinct = (operation, compressibility, size, read size)")
REQUIRE = {"operations measured": 50, "megabytes streamed": 1500, "opens measured": 20, "memory samples": 400}

MB = 1 << 20
CHUNK = gen.CHUNK           # documented chunk size of copies
COPY_BOUND = 10 * CHUNK         # up to six chunks are observed
BLOCK = None


def block():
    global BLOCK
    if BLOCK is None:
        import random
        BLOCK = random.Random(7).randbytes(MB + 4093)       # longer than zlib's window: does not compress
    return BLOCK


def piece(kind, pos, n):
    if kind == "zeros":
        return bytes(n)
    b = block()
    if kind == "half":          # every second 4 KB are zeros
        out = []
        end = pos + n
        while pos < end:
            m = min(4096 - pos % 4096, end - pos)
            out.append(bytes(m) if (pos >> 12) & 1 else piece("random", pos, m))
            pos += m
        return b"".join(out)
    o = pos % len(b)
    if o + n <= len(b):
        return b[o:o + n]
    d = b[o:]
    while len(d) < n:
        d += b[:n - len(d)]
    return d


class Meter:
    """peak of traced allocations and of anonymous resident memory since start()"""

    def __init__(self, c):
        self.c = c

    @staticmethod
    def anon():
        with open("/proc/self/statm") as f:
            x = f.read().split()
        return (int(x[1]) - int(x[2])) * 4096

    def start(self):
        gc.collect()
        tracemalloc.start(1)
        tracemalloc.reset_peak()
        self.base = tracemalloc.get_traced_memory()[0]
        self.anon0 = self.top = self.anon()
        return self

    def sample(self):
        self.c.ev("memory samples")
        self.top = max(self.top, self.anon())

    def stop(self):
        self.sample()
        peak = tracemalloc.get_traced_memory()[1] - self.base
        tracemalloc.stop()
        return peak, self.top - self.anon0


class Stream:
    """an endless supply, read like a file"""

    def __init__(self, kind, size, meter=None, most=None):
        self.kind, self.size, self.pos, self.max_request, self.meter, self.most = kind, size, 0, 0, meter, most
        self.h = hashlib.sha1()

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.size
        self.max_request = max(self.max_request, n)
        n = min(n, self.size - self.pos, self.most or n)
        d = piece(self.kind, self.pos, n)
        self.pos += n
        if self.meter:
            self.meter.sample()
        return d


def true_id(typ, kind, size):
    h = hashlib.sha1(typ + b" %d\0" % size)
    pos = 0
    while pos < size:
        d = piece(kind, pos, min(MB, size - pos))
        h.update(d)
        pos += len(d)
    return h.digest()


def shape(c):
    rng = c.rng
    kind = rng.choice(("zeros", "random", "half"))
    size = rng.randint(96, 128) * MB + rng.randint(-5, 5)
    if c.thorough and rng.random() < .3:
        size = rng.randint(150, 500) * MB
    return rng.choice(gen.TYPES), kind, size


def bounded(c, peak, anon, bound, what):
    c.ev("operations measured")
    c.peak("peak MB of " + what.split(",")[0], round(peak / MB, 2))
    c.peak("anonymous MB of " + what.split(",")[0], round(anon / MB, 2))
    if peak > bound:
        c.fail("%s: %.1f MB allocated at once, bound %.1f MB" % (what, peak / MB, bound / MB))
    if anon > 2 * bound + 16 * MB:
        c.fail("%s: anonymous memory grew by %.1f MB, bound %.1f MB" % (what, anon / MB, (2 * bound + 16 * MB) / MB))


def dbs(c, name):
    p = os.path.join(c.tmp, name)
    if c.rng.random() < .4:
        return GitDB(ref.git_repo(p))
    os.mkdir(p)
    return LooseObjectDB(p)


def put(c, root, typ, kind, size):
    """write the object without the library, -> id"""
    sha = true_id(typ, kind, size)
    p = ref.loose_path(root, sha)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    co = zlib.compressobj(1)
    with open(p, "wb") as f:
        f.write(co.compress(typ + b" %d\0" % size))
        pos = 0
        while pos < size:
            d = piece(kind, pos, min(MB, size - pos))
            f.write(co.compress(d))
            pos += len(d)
        f.write(co.flush())
    return sha


def pieces(c, s, kind, size, r, what, meter):
    """read s in pieces of r"""
    pos = 0
    n = 0
    while pos < size:
        d = s.read(r)
        if len(d) != min(r, size - pos) or (n % 7 == 0 and d != piece(kind, pos, len(d))):
            c.fail(what + ": wrong data at %d" % pos)
        pos += len(d)
        if n % max(1, 65536 // r) == 0:
            meter.sample()
        n += 1
    c.check(not s.read(r), what + ": data after the end")
    c.ev("megabytes streamed", size >> 20)


def store(c):
    rng = c.rng
    typ, kind, size = shape(c)
    db = dbs(c, "o")
    m = Meter(c)
    src = Stream(kind, size, m, rng.choice((None, None, 70000, 999999)))
    m.start()
    r = db.store(IStream(typ, size, src))
    peak, anon = m.stop()
    c.ev("megabytes streamed", size >> 20)
    c.eq(bytes(r.binsha), true_id(typ, kind, size), "id")
    bounded(c, peak, anon, COPY_BOUND, "store, %s, %d MB" % (kind, size >> 20))
    c.check(src.max_request <= 2 * CHUNK, "store asked its source for %d bytes at once" % src.max_request)
    c.sig("store", kind, size, src.most)


def copy_(c):
    """from one database into another, decoded or verbatim"""
    rng = c.rng
    typ, kind, size = shape(c)
    a, b = dbs(c, "a"), dbs(c, "b")
    sha = put(c, a.root_path(), typ, kind, size)
    mode = rng.choice(("decode", "verbatim"))
    m = Meter(c).start()
    s = a.stream(sha)
    if mode == "decode":
        class Via:
            def read(self, n):
                m.sample()
                return s.read(n)
        ist = IStream(s.type, s.size, Via())
    else:
        d = s.stream.data()

        class Via:
            def read(self, n):
                m.sample()
                return d.read(n)
        ist = IStream(s.type, s.size, Via(), sha)
    r = b.store(ist)
    peak, anon = m.stop()
    c.ev("megabytes streamed", size >> 20)
    c.eq(bytes(r.binsha), sha, "id")
    c.eq(b.info(sha).size, size, "size of the copy")
    bounded(c, peak, anon, COPY_BOUND, "copy " + mode + ", %s, %d MB" % (kind, size >> 20))
    c.sig("copy", mode, kind, size)


def pack(c):
    rng = c.rng
    typ, kind, size = shape(c)
    m = Meter(c)
    total = [0]

    def out(d):
        m.sample()
        total[0] += len(d)
        return len(d)
    origin = rng.choice(("stream", "loose"))
    sha = true_id(typ, kind, size)
    if origin == "loose":
        a = dbs(c, "a")
        put(c, a.root_path(), typ, kind, size)
    idx = bytearray()
    m.start()
    st = OStream(sha, typ, size, Stream(kind, size, m)) if origin == "stream" else a.stream(sha)
    if rng.random() < .3:
        p = os.path.join(c.tmp, "p")
        os.mkdir(p)
        PackEntity.create([st], p, zlib_compression=rng.choice((0, 1)))
    else:
        PackEntity.write_pack([st], out, index_write=idx.extend, zlib_compression=rng.choice((0, 1)))
    peak, anon = m.stop()
    c.ev("megabytes streamed", size >> 20)
    bounded(c, peak, anon, COPY_BOUND, "write into a pack, %s, %d MB" % (kind, size >> 20))
    c.sig("pack", origin, kind, size)


def big_pack(c, typ, kind, size):
    """a pack holding the object whole among small ones, -> (directory, id)"""
    rng = c.rng
    p = os.path.join(c.tmp, "packs")
    os.mkdir(p)
    sha = true_id(typ, kind, size)
    small = [ref.Entry(b"blob", b"small %d" % i) for i in range(3)]

    class Big:
        pass
    big = Big()
    big.sha = sha
    es = small[:1] + [big] + small[1:]
    import binascii
    import struct
    name = os.path.join(p, "pack-" + sha.hex())
    h = hashlib.sha1()
    with open(name + ".pack", "wb") as f:
        def w(d):
            h.update(d)
            f.write(d)
        w(struct.pack(">4sLL", b"PACK", 2, len(es)))
        for e in es:
            e.offset = f.tell()
            crc = 0
            if e is big:
                d = ref.entry_header(ref.NUM[typ], size)
                crc = binascii.crc32(d, crc)
                w(d)
                co = zlib.compressobj(1)
                pos = 0
                while pos <= size:
                    if pos == size:
                        d = co.flush()
                        pos += 1
                    else:
                        x = piece(kind, pos, min(MB, size - pos))
                        pos += len(x)
                        d = co.compress(x)
                    crc = binascii.crc32(d, crc)
                    w(d)
            else:
                d = ref.entry_header(ref.NUM[e.type], len(e.data)) + zlib.compress(e.data)
                crc = binascii.crc32(d)
                w(d)
            e.crc = crc & 0xffffffff
        f.write(h.digest())
    with open(name + ".idx", "wb") as f:
        f.write(ref.build_idx(es, h.digest(), rng.choice((1, 2))))
    return p, sha


def read(c):
    rng = c.rng
    typ, kind, size = shape(c)
    where = rng.choice(("loose", "packed"))
    r = rng.choice((4096, 10000, 65536, 65536, 300000, 1 << 20))
    if where == "loose":
        db = dbs(c, "a")
        sha = put(c, db.root_path(), typ, kind, size)
    else:
        p, sha = big_pack(c, typ, kind, size)
        db = PackedDB(p)
        db.has_object(sha)
    # opening and info do not touch the content
    for name in ("info", "stream"):
        m = Meter(c).start()
        x = getattr(db, name)(sha)
        if name == "stream":
            x.read(10)
        peak, anon = m.stop()
        c.eq((bt(x.type), x.size), (typ, size), name)
        c.ev("opens measured")
        c.peak("peak KB of opening (%s)" % where, peak >> 10)
        c.check(peak < MB, "%s() of a %d MB %s %s object allocates %d KB" % (name, size >> 20, kind, where, peak >> 10))
        c.check(anon < 16 * MB, "%s() of a %d MB %s %s object touches %d KB" % (name, size >> 20, kind, where, anon >> 10))
        del x
    m = Meter(c)
    block()
    m.start()
    s = db.stream(sha)
    pieces(c, s, kind, size, r, where, m)
    peak, anon = m.stop()
    bounded(c, peak, anon, 8 * r + 4 * MB, "read %s in pieces, %s of %d bytes, %d MB" % (where, kind, r, size >> 20))
    if rng.random() < .5:
        # again after rewinding, part of it
        s.stream.seek(0)
        m = Meter(c).start()
        pos = 0
        while pos < size // 3:
            d = s.read(r)
            pos += len(d)
        peak, anon = m.stop()
        bounded(c, peak, anon, 8 * r + 4 * MB, "read %s in pieces, rewound, %s of %d bytes, %d MB" % (where, kind, r, size >> 20))
    c.sig("read", where, kind, size, r)


class Counting:
    """compressed input that counts what is taken from it"""

    def __init__(self, data):
        self.data, self.taken, self.largest, self.far = data, 0, 0, 0

    def __len__(self):
        return len(self.data)

    def __getitem__(self, s):
        d = self.data[s]
        n = len(d) if isinstance(s, slice) else 1
        self.taken += n
        self.largest = max(self.largest, n)
        if isinstance(s, slice):
            self.far = max(self.far, (s.start or 0) + n)
        return d


def consumption(c):
    """how far into the compressed data a reader looks for what it was asked for"""
    from gitdb.stream import DecompressMemMapReader
    rng = c.rng
    size = rng.randint(2, 6) * MB
    kind = rng.choice(("random", "half", "random"))
    data = piece(kind, 0, size)
    typ = gen.otype(rng)
    hdr = typ + b" %d\0" % size
    if rng.random() < .5:
        m = Counting(zlib.compress(hdr + data, rng.choice((0, 1, 6))))
        t, s, st = DecompressMemMapReader.new(m)
        c.eq((bytes(t), s), (typ, size), "header")
        c.check(m.far <= 64 << 10, "opening a stream consumes %d bytes of compressed data" % m.far)
        c.ev("opens measured")
    else:
        m = Counting(zlib.compress(data, rng.choice((0, 1, 6))))
        st = DecompressMemMapReader(m, False, size)
        c.check(m.far == 0, "opening a stream consumes compressed data", m.far)
    r = rng.choice((100, 4096, 30000, 200000))
    pos = 0
    while pos < size:
        d = st.read(r)
        if d != data[pos:pos + len(d)] or len(d) != min(r, size - pos):
            c.fail("wrong data at %d" % pos)
        pos += len(d)
        # the data does not compress (below one half), so at most about that much input is needed
        if m.far > pos + 2 * r + (64 << 10):
            c.fail("%d bytes of compressed data consumed for %d bytes read in pieces of %d" % (m.far, pos, r))
        if pos > 800 * r:
            break
    c.check(m.largest <= 2 * r + (16 << 10), "%d bytes of compressed data taken at once for reads of %d" % (m.largest, r))
    c.ev("operations measured")
    c.sig("consumption", kind, size, r)


FAMILIES = [("store", store, 16, 60), ("copy", copy_, 12, 60), ("pack", pack, 12, 60), ("read", read, 20, 80), ("consumption", consumption, 60, 800)]
