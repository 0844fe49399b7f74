from vlib.world import *
import mmap
import struct
import zlib
from gitdb import fun
from gitdb.stream import DecompressMemMapReader

LEVEL = "exploration"
RULE = ("one case = one batch of (type, size, following bytes, buffer kind) for which the pack header, loose header or variable-length size is produced "
        "and parsed, directly and through pack files, pack indices and loose databases, and compared with an independent encoder; distinct = (encoding, "
        "type, bit length of the size, buffer kind)")
MORE = 4
REQUIRE = {"pack headers": 13460, "loose headers": 3970, "delta sizes": 19200, "truncated sizes": 1860, "entries in packs": 1740, "delta distances": 500,
           "loose files": 640, "loose files recognized": 1000, "entries by id": 940, "sizes over 32 bit": 10000}


def sizes(rng, n):
    """sizes around every bit-group boundary"""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .7:
            out.append(max(0, (1 << rng.randint(0, 62)) + rng.randint(-2, 2)))
        elif k < .8:
            out.append(10 ** rng.randint(0, 18) + rng.randint(-1, 1))
        elif k < .9:
            out.append(rng.randint(0, 300))
        else:
            out.append(rng.randrange(1 << rng.randint(1, 62)))
    return out


def boundaries():
    return sorted({max(0, (1 << b) + d) for b in range(63) for d in range(-2, 3)})


def buffer(rng, data):
    k = rng.choice(("bytes", "bytearray", "memoryview", "mmap"))
    if k == "mmap":
        m = mmap.mmap(-1, max(1, len(data)))
        m[:len(data)] = data
        return m, k
    return {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[k](data), k


def trailing(rng):
    return rng.choice((b"", b"\0", b"\x80", b"\xff" * 12, b"\x80" * 12, b"\0" * 12, rng.randbytes(rng.randint(0, 30)), b"x\x9c" + rng.randbytes(8)))


def pack_one(c, t, n):
    rng = c.rng
    want = ref.entry_header(t, n)
    got = fun.create_pack_object_header(t, n)
    c.eq(bytes(got), want, "pack header of type %d and size %d" % (t, n))
    m, kind = buffer(rng, want + trailing(rng))
    r = fun.pack_object_header_info(m)
    c.eq(tuple(r), (t, n, len(want)), "parsed pack header of type %d and size %d (%s)" % (t, n, kind))
    c.ev("pack headers")
    if n >> 32:
        c.ev("sizes over 32 bit")
    c.sig("pack", t, n.bit_length(), kind)


def pack_header(c):
    for n in sizes(c.rng, 60):
        pack_one(c, c.rng.choice((1, 2, 3, 4, 6, 7)), n)


def pack_all(c):
    """all boundaries for one type"""
    for n in boundaries():
        pack_one(c, (1, 2, 3, 4, 6, 7)[c.index % 6], n)


def loose_one(c, t, n):
    rng = c.rng
    want = b"%s %d\0" % (t, n)
    got = fun.loose_object_header(t if rng.random() < .6 else t.decode(), n)
    c.eq(bytes(got), want, "loose header of type %s and size %d" % (t, n))
    # the header of any size in front of some content; only the header is of interest
    body = gen.content(rng, rng.choice((0, 1, 10, 300, 9000)))
    raw = gen.deflate(rng, want + body)
    m, kind = buffer(rng, raw)
    r = fun.loose_object_header_info(m)
    c.eq((bt(r[0]), r[1]), (t, n), "parsed loose header of type %s and size %d (%s)" % (t, n, kind))
    if raw[0] == 0x78:
        c.check(fun.is_loose_object(m), "file of type %s and size %d isn't recognized as loose object (%s)" % (t, n, kind), raw[:2])
        other = rng.choice((want, b"PACK" + raw, b"tree " + raw, bytes([raw[0], raw[1] ^ (1 << rng.randrange(8))]) + raw[2:]))
        c.check(not fun.is_loose_object(other), "something else is taken for a loose object", other[:2])
        c.ev("loose files recognized")
    r = DecompressMemMapReader.new(m, False)
    c.eq((bt(r[0]), r[1]), (t, n), "header parsed by the reader, type %s and size %d (%s)" % (t, n, kind))
    k = min(n, len(body))
    if k:
        # data starts right behind the header
        k = rng.randint(1, k)
        c.eq(r[2].read(k), body[:k], "content behind the header, type %s and size %d" % (t, n))
    c.ev("loose headers")
    if n >> 32:
        c.ev("sizes over 32 bit")
    c.sig("loose", t, n.bit_length(), kind)


def loose_header(c):
    for n in sizes(c.rng, 30):
        loose_one(c, c.rng.choice(gen.TYPES), n)


def loose_all(c):
    for n in boundaries():
        loose_one(c, gen.TYPES[c.index % 4], n)


def delta_size(c):
    rng = c.rng
    for n in sizes(rng, 60):
        pad = rng.choice((0, 0, 0, 1, 2))
        v = ref.varint(n, pad)
        off = rng.choice((0, 0, 1, 2, 5, rng.randint(0, 20)))
        pre = rng.choice((rng.randbytes(off), b"\xff" * off, b"\0" * off))
        m, kind = buffer(rng, pre + v + trailing(rng))
        if kind == "mmap":
            m, kind = memoryview(m[:]), "memoryview"
        r = fun.msb_size(m, off) if off or rng.random() < .5 else fun.msb_size(m)
        c.eq(tuple(r), (off + len(v), n), "size %d encoded in %d bytes at %d (%s)" % (n, len(v), off, kind))
        # two in a row, as in every delta
        n2 = sizes(rng, 1)[0]
        w = ref.varint(n2)
        p, a = fun.msb_size(pre + v + w, off)
        p, b = fun.msb_size(pre + v + w, p)
        c.eq((a, b, p), (n, n2, off + len(v) + len(w)), "two sizes in a row")
        c.ev("delta sizes", 2)
        if n >> 32:
            c.ev("sizes over 32 bit")
        if rng.random() < .2:
            # no end: must not be taken for a size
            cut = pre + bytes(x | 0x80 for x in v)
            try:
                r = fun.msb_size(cut, off)
            except Exception:
                pass
            else:
                c.fail("unterminated size was parsed", cut, off, r)
            c.ev("truncated sizes")
        c.sig("delta", n.bit_length(), pad, kind)


def in_pack(c):
    """headers as they are met in pack files: any announced size, any distance to the base"""
    rng = c.rng
    parts, entries, pos = [], [], 12
    starts = []
    for k in range(rng.randint(3, 14)):
        n = sizes(rng, 1)[0]
        t = rng.choice((1, 2, 3, 4, 6, 7))
        if not starts and t == 6:
            t = 3
        h = ref.entry_header(t, n)
        info = None
        if t == 6:
            # a base at one of the distances at which the encoding gets longer
            info = pos - rng.choice(starts)
            h += ref.ofs_bytes(info)
            c.ev("delta distances")
        elif t == 7:
            info = rng.randbytes(20)
            h += info
        body = zlib.compress(rng.randbytes(rng.choice((0, 5, 30))))
        fill = rng.choice((0, 0, 0, 1, 100, 127, 128, 129, 16500, 16511, 16512, 16513, 2113663 if rng.random() < .05 else 7))
        entries.append((pos, t, n, info, h))
        starts.append(pos)
        parts.append(h + body + bytes(fill))
        pos += len(parts[-1])
        # distances of exactly a boundary
        if rng.random() < .5:
            d = rng.choice((127, 128, 129, 16511, 16512, 16513, 2113663, 2113664) if rng.random() < .1 else (127, 128, 129, 16511, 16512, 16513))
            gap = starts[-1] + d - pos
            if gap > 0:
                parts.append(bytes(gap))
                pos += gap
                h = ref.entry_header(6, n) + ref.ofs_bytes(d)
                entries.append((pos, 6, n, d, h))
                starts.append(pos)
                parts.append(h + body)
                pos += len(h + body)
                c.ev("delta distances")
    data = b"PACK" + struct.pack(">LL", 2, len(entries)) + b"".join(parts) + bytes(40)
    p = os.path.join(c.tmp, "pack-%s.pack" % rng.randbytes(20).hex())
    with open(p, "wb") as f:
        f.write(data)
    pf = PackFile(p)
    # through an index, as databases do
    ids = sorted((rng.randbytes(20), pos) for pos, t, n, info, h in entries)
    at = {pos: sha for sha, pos in ids}
    ix = b"\xfftOc" + struct.pack(">L", 2) + b"".join(struct.pack(">L", sum(s[0] <= i for s, _ in ids)) for i in range(256))
    ix += b"".join(s for s, _ in ids) + bytes(4 * len(ids)) + b"".join(struct.pack(">L", o) for _, o in ids) + bytes(40)
    with open(p[:-5] + ".idx", "wb") as f:
        f.write(ix)
    db = PackedDB(c.tmp)
    rng.shuffle(entries)
    for pos, t, n, info, h in entries:
        if info is None:
            for s in (db.info(at[pos]), db.stream(at[pos])):
                check_info(c, s, at[pos], {1: b"commit", 2: b"tree", 3: b"blob", 4: b"tag"}[t], n, "by id, entry announcing %d" % n)
            c.ev("entries by id")
        for s, name in ((pf.info(pos), "info"), (pf.stream(pos), "stream")):
            what = "%s of the entry at %d, type %d, size %d, %r" % (name, pos, t, n, info)
            c.eq((s.pack_offset, s.type_id, s.size), (pos, t, n), what)
            if info is not None:
                c.eq(s.delta_info if t == 6 else bytes(s.delta_info), info, what)
        c.ev("entries in packs")
        c.sig("in pack", t, n.bit_length(), info.bit_length() if t == 6 else 0)
    # the bytes that follow are found at the right place
    collect()


def in_loose(c):
    rng = c.rng
    root = os.path.join(c.tmp, "o")
    os.mkdir(root)
    db = LooseObjectDB(root)
    gdb = GitDB(root)
    for n in sizes(rng, 20):
        t = rng.choice(gen.TYPES)
        sha = rng.randbytes(20)
        p = ref.loose_path(root, sha)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        body = gen.content(rng, rng.choice((0, 10, 8192, 20000)))
        with open(p, "wb") as f:
            f.write(gen.deflate(rng, b"%s %d\0" % (t, n) + body))
        for x in (db, gdb):
            check_info(c, x.info(sha), sha, t, n, "info of a loose file announcing %d" % n)
            check_info(c, x.stream(sha), sha, t, n, "stream of a loose file announcing %d" % n)
        c.ev("loose files")
        c.sig("in loose", t, n.bit_length())


FAMILIES = [("pack_all", pack_all, 12, 60), ("loose_all", loose_all, 8, 60), ("pack_header", pack_header, 500, 10000),
            ("loose_header", loose_header, 250, 6000), ("delta_size", delta_size, 400, 10000), ("in_pack", in_pack, 400, 8000), ("in_loose", in_loose, 80, 2000)]
