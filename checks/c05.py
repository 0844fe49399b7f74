from vlib.world import *
import hashlib

LEVEL = "exploration"
RULE = ("one case = one generated index file (version, id distribution, number of ids, offset widths) whose every table is read back and which is "
        "queried with every listed id and with near misses of them; distinct = (version, distribution, size, 64-bit share)")
MORE = 6
REQUIRE = {"present lookups": 5000, "absent lookups": 20000, "64-bit offsets": 500, "empty indices": 2,
           "64-bit tables over 16 bits": 1}


class E:
    __slots__ = ("sha", "offset", "crc")


def ids(rng, n, kind):
    out = set()
    pre = rng.randbytes(19)
    start = rng.randrange(1 << 160)
    hot = rng.sample(range(256), rng.randint(1, 4))
    for _ in range(n * 30):
        if len(out) >= n:
            break
        if kind == "random":
            s = rng.randbytes(20)
        elif kind == "last byte":
            s = pre + rng.randbytes(1)
        elif kind == "one bucket":
            s = pre[:1] + rng.randbytes(19)
        elif kind == "hot buckets":
            s = bytes([rng.choice(hot)]) + rng.randbytes(19)
        elif kind == "edges":
            s = rng.choice((b"\0", b"\xff", b"\x7f", b"\x80", b"\1", b"\xfe")) + rng.choice((b"\0" * 18, b"\xff" * 18, rng.randbytes(18))) + rng.randbytes(1)
        elif kind == "runs":
            start = (start + rng.choice((1, 1, 1, 2, 255, 256, rng.randrange(1 << 150)))) % (1 << 160)
            s = start.to_bytes(20, "big")
        else:   # shared prefixes of all lengths
            k = rng.randint(0, 19)
            s = pre[:k] + rng.randbytes(20 - k)
        out.add(s)
    return out


def index(c):
    rng = c.rng
    kind = rng.choice(("random", "last byte", "one bucket", "hot buckets", "edges", "runs", "prefixes"))
    n = rng.choice((0, 1, 2, 3, rng.randint(2, 30), rng.randint(30, 300), 255, 256, 257, 1500 if rng.random() < .2 else 60))
    v = rng.choice((1, 2, 2))
    wide = rng.choice(("none", "none", "high", "all", "mixed"))
    es = []
    offs = set()
    for s in ids(rng, n, kind):
        e = E()
        e.sha = s
        while True:
            o = rng.choice((12, rng.randrange(12, 1 << 20), rng.randrange(1 << 31), 0x7fffffff, 0x7ffffffe))
            if v == 1:
                o = rng.choice((o, rng.randrange(1 << 31, 1 << 32), 0xffffffff))
            elif wide in ("high", "mixed"):
                o = rng.choice((o, 0x80000000, 0x80000001, 0xffffffff, 1 << 32, rng.randrange(1 << 31, 1 << 34), rng.randrange(1 << 62)))
            if o not in offs or len(offs) > 3000:
                offs.add(o)
                break
        e.offset = o
        e.crc = rng.choice((0, 1, 0x80000000, 0xffffffff, rng.randrange(1 << 32)))
        es.append(e)
    f64 = None
    if v == 2 and wide == "all":
        f64 = lambda e: True
    elif v == 2 and wide == "mixed":
        f64 = lambda e: e.sha[-1] % 3 == 0
    psha = rng.randbytes(20)
    data = ref.build_idx(es, psha, v, f64)
    p = os.path.join(c.tmp, "pack-%s.idx" % hashlib.sha1(data).hexdigest())
    with open(p, "wb") as f:
        f.write(data)
    big = [e for e in es if v == 2 and (e.offset > 0x7fffffff or (f64 and f64(e)))]
    c.ev("64-bit offsets", len(big))
    c.log("index", str(v), kind, str(len(es)), wide)
    c.sig(v, kind, len(es), wide, len(big) * 4 // (len(es) or 1))
    c.sample(version=v, ids=len(es), distribution=kind, offsets=wide)
    if not es:
        c.ev("empty indices")
    es.sort(key=lambda e: e.sha)
    x = PackIndexFile(p)
    order = rng.randrange(4)
    if order == 0:
        c.eq(x.size(), len(es), "number of entries")
    elif order == 1 and es:
        c.eq(bytes(x.sha(0)), es[0].sha, "first id, asked first")
    elif order == 2 and es:
        c.eq(x.sha_to_index(es[-1].sha), len(es) - 1, "lookup, asked first")
    # tables
    c.eq(x.size(), len(es), "number of entries")
    c.eq(x.version(), v, "version")
    for i, e in enumerate(es):
        c.eq(bytes(x.sha(i)), e.sha, "id at a position", i)
        c.eq(x.offset(i), e.offset, "offset at a position", i, v)
        crc = e.crc if v == 2 else 0
        if v == 2:
            c.eq(x.crc(i), crc, "crc at a position", i)
        t = x.entry(i)
        c.eq((t[0], bytes(t[1]), t[2]), (e.offset, e.sha, crc), "entry at a position", i)
    c.eq(list(x.offsets()), [e.offset for e in es], "list of offsets", v, wide)
    c.eq(bytes(x.packfile_checksum()), psha, "pack checksum")
    c.eq(bytes(x.indexfile_checksum()), data[-20:], "index checksum")
    # lookups
    table = {e.sha: i for i, e in enumerate(es)}
    for s, i in table.items():
        c.eq(x.sha_to_index(s), i, "position of a listed id", s.hex(), v, kind)
    c.ev("present lookups", len(table))
    c.ev("table entries", len(es))
    q = {bytes(20), b"\xff" * 20, rng.randbytes(20)}
    for b in range(256):
        q.add(bytes([b]) + bytes(19))
        q.add(bytes([b]) + b"\xff" * 19)
    for s in (list(table) if len(table) < 80 else rng.sample(list(table), 80)):
        k = int.from_bytes(s, "big")
        bit = rng.randrange(160)
        for t in (k + 1, k - 1, k ^ 1, k ^ (1 << bit), k ^ (1 << 159), k ^ (1 << 152), k + (1 << 152), k - (1 << 152)):
            if 0 <= t < 1 << 160:
                q.add(t.to_bytes(20, "big"))
        j = rng.randint(1, 19)
        q.add(s[:j] + bytes(20 - j))
        q.add(s[:j] + b"\xff" * (20 - j))
    for s in q - set(table):
        r = x.sha_to_index(s)
        if r is not None:
            c.fail("position %r for an id that is not listed" % r, s.hex(), kind)
    c.ev("absent lookups", len(q - set(table)))


def gitindex(c):
    """indices written by git for packs, both versions, offsets forced into the 64-bit table"""
    rng = c.rng
    es = ref.random_entries(rng, rng.randint(1, 60), 200)
    es = ref.order_entries(rng, es)
    p = os.path.join(c.tmp, "pack-%s.pack" % rng.randbytes(20).hex())
    with open(p, "wb") as f:
        f.write(ref.build_pack(rng, es))
    v = rng.choice(("1", "2", "2,0xd", "2,0x%x" % rng.randint(13, 3000)))
    ref.git(["index-pack", "--index-version=" + v, p], cwd=c.tmp)
    c.sig("git", v, len(es))
    c.ev("indices by git")
    x = PackIndexFile(p[:-5] + ".idx")
    es.sort(key=lambda e: e.sha)
    c.eq(x.size(), len(es), "number of entries")
    for i, e in enumerate(es):
        c.eq(x.sha_to_index(e.sha), i, "position of a listed id", v)
        c.eq(x.offset(i), e.offset, "offset in git's index", v)
        if v != "1":
            c.eq(x.crc(i), e.crc, "crc in git's index", v)
    c.eq(list(x.offsets()), [e.offset for e in es], "list of offsets in git's index", v)
    for s in near_ids(rng, [e.sha for e in es], 30):
        c.check(x.sha_to_index(s) is None, "id found that is not listed", s.hex())


def lazy(c):
    """every query may come first on a fresh index"""
    rng = c.rng
    es = []
    for s in ids(rng, rng.randint(1, 20), "random"):
        e = E()
        e.sha, e.offset, e.crc = s, rng.randrange(1 << 31), rng.randrange(1 << 32)
        es.append(e)
    v = rng.choice((1, 2))
    psha = rng.randbytes(20)
    data = ref.build_idx(es, psha, v)
    p = os.path.join(c.tmp, "pack-%s.idx" % hashlib.sha1(data).hexdigest())
    with open(p, "wb") as f:
        f.write(data)
    es.sort(key=lambda e: e.sha)
    i = rng.randrange(len(es))
    e = es[i]
    qs = {"size": (lambda x: x.size(), len(es)), "sha": (lambda x: bytes(x.sha(i)), e.sha), "offset": (lambda x: x.offset(i), e.offset),
          "offsets": (lambda x: list(x.offsets()), [k.offset for k in es]), "lookup": (lambda x: x.sha_to_index(e.sha), i),
          "version": (lambda x: x.version(), v), "pack checksum": (lambda x: bytes(x.packfile_checksum()), psha),
          "index checksum": (lambda x: bytes(x.indexfile_checksum()), data[-20:]), "path": (lambda x: x.path(), p),
          "entry": (lambda x: bytes(x.entry(i)[1]), e.sha), "partial": (lambda x: x.partial_sha_to_index(e.sha, 40), i)}
    if v == 2:
        qs["crc"] = (lambda x: x.crc(i), e.crc)
    for n, (q, want) in qs.items():
        c.eq(q(PackIndexFile(p)), want, "first query %s on a fresh index" % n, v)
        c.sig("lazy", n, v)
    x = PackIndexFile(p)
    names = list(qs)
    rng.shuffle(names)
    for n in names:
        c.eq(qs[n][0](x), qs[n][1], "query %s after others" % n, v)


def large(c):
    """indices with more entries than 16 bits count, in every region"""
    rng = c.rng
    n = rng.randint(66000, 90000)
    v = rng.choice((1, 2, 2))
    wide = v == 2 and rng.choice((1., 1., .97))
    raw = hashlib.shake_256(rng.randbytes(8)).digest(n * 20)
    pre = rng.choice((b"", b"", b"\x80", rng.randbytes(2)))
    es = []
    base = rng.choice((1 << 31, (1 << 32) - 40000, 1 << 40)) if v == 2 else 12
    for i in range(n):
        e = E()
        e.sha = pre + raw[i * 20 + len(pre):i * 20 + 20]
        e.offset = base + i * 17
        if wide and rng.random() > wide:
            e.offset = 12 + i
        e.crc = (i * 2654435761) & 0xffffffff
        es.append(e)
    psha = rng.randbytes(20)
    data = ref.build_idx(es, psha, v)
    p = os.path.join(c.tmp, "pack-%s.idx" % hashlib.sha1(data).hexdigest())
    with open(p, "wb") as f:
        f.write(data)
    es.sort(key=lambda e: e.sha)
    x = PackIndexFile(p)
    big = sum(e.offset > 0x7fffffff for e in es) if v == 2 else 0
    c.sig("large", v, n, pre, big)
    c.sample(version=v, ids=n, wide=big)
    c.ev("64-bit offsets", big)
    if big > 65536:
        c.ev("64-bit tables over 16 bits")
    c.ev("indices over 16 bits")
    c.eq(x.size(), n, "number of entries")
    o, s, f = x.offset, x.sha, x.sha_to_index
    bad = [i for i, e in enumerate(es) if o(i) != e.offset]
    c.check(not bad, "offset at a position of a large index", bad[:3], len(bad), v, pre)
    bad = [i for i, e in enumerate(es) if bytes(s(i)) != e.sha]
    c.check(not bad, "id at a position of a large index", bad[:3], len(bad), v, pre)
    bad = [i for i, e in enumerate(es) if f(e.sha) != i]
    c.check(not bad, "position of a listed id of a large index", bad[:3], len(bad), v, pre)
    bad = [i for i in rng.sample(range(n), 3000) if v == 2 and x.crc(i) != es[i].crc]
    c.check(not bad, "crc at a position of a large index", bad[:3], len(bad), v, pre)
    c.check(list(x.offsets()) == [e.offset for e in es], "list of offsets of a large index", v, pre)
    c.eq(bytes(x.packfile_checksum()), psha, "pack checksum")
    c.eq(bytes(x.indexfile_checksum()), data[-20:], "index checksum")
    c.ev("present lookups", n)
    c.ev("table entries", n)
    q = near_ids(rng, [e.sha for e in rng.sample(es, 2000)], 4000)
    have = {e.sha for e in es}
    for t in q:
        if bytes(t) not in have:
            c.check(f(t) is None, "position for an id that is not listed in a large index", bytes(t).hex(), v)
            c.ev("absent lookups")


FAMILIES = [("large", large, 8, 60), ("index", index, 900, 12000), ("git", gitindex, 60, 800), ("lazy", lazy, 200, 2000)]
