from vlib.world import *
import hashlib
import zlib

LEVEL = "exploration"
RULE = ("one case = one run of the pack writer over a generated object sequence (types, sizes, origin of the streams, source splitting, compression "
        "level, announced count, iterator kind); the emitted bytes are parsed by an independent strict checker and (share) by git index-pack and "
        "verify-pack; distinct = (mode, origin, number, sizes, level)")
MORE = 4
REQUIRE = {"packs written": 140, "packs accepted by git": 60, "objects written": 800, "bad announcements refused": 50}
IndexWriter = packmod.IndexWriter


def objects(c, n, maxsize):
    rng = c.rng
    out = {}
    while len(out) < n:
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, maxsize))
        out[ref.oid(t, d)] = (t, d)
    return out


class Src:
    """gives readable objects for the model from some kind of database"""

    def __init__(self, c, model, kind):
        self.c, self.model, self.kind = c, model, kind
        rng = c.rng
        if kind == "loose":
            root = os.path.join(c.tmp, "src")
            os.makedirs(root)
            for t, d in model.values():
                ref.write_loose(root, t, d, gen.deflate(rng, ref.loose_bytes(t, d)))
            self.get = LooseObjectDB(root).stream
        elif kind == "mem":
            db = MemoryDB()
            for t, d in model.values():
                db.store(IStream(t, len(d), BytesIO(d)))
            self.get = db.stream
        elif kind == "packed":
            d = os.path.join(c.tmp, "srcpack")
            os.makedirs(d)
            es = ref.random_entries(rng, max(1, len(model)), 20000, delta_share=.6)
            ref.write_pack_files(rng, d, es)
            model.clear()
            model.update({e.sha: (e.type, e.data) for e in es})
            self.get = PackedDB(d).stream
        else:
            self.get = self.plain

    def plain(self, sha):
        t, d = self.model[sha]
        rng = self.c.rng
        return OStream(sha, t, len(d), gen.Source(d, rng.choice(gen.SPLITS), rng))


def check_bytes(c, pk, ix, model, order, what):
    try:
        ents = ref.check_pack(pk)
    except (ValueError, IndexError, zlib.error) as e:
        c.fail(what + ": invalid pack: %s" % e)
    c.eq([ref.oid(t, b) for _, t, b, _ in ents], order, what + ": objects in the pack")
    for (o, t, b, raw), sha in zip(ents, order):
        if (t, b) != model[sha]:
            c.fail(what + ": object differs", sha.hex())
        c.ev("objects written")
    if ix is not None:
        try:
            ref.check_idx_v2(ix, pk, ents)
        except (ValueError, IndexError) as e:
            c.fail(what + ": invalid index: %s" % e)
    return ents


def git_accepts(c, pk, ix, n, what):
    d = os.path.join(c.tmp, "g%d" % c.rng.randrange(1 << 40))
    os.makedirs(d)
    p = os.path.join(d, "pack-" + pk[-20:].hex())
    with open(p + ".pack", "wb") as f:
        f.write(pk)
    r = ref.git(["index-pack", "-o", p + ".own.idx", p + ".pack"], cwd=d, ok=False)
    if r.returncode:
        c.fail(what + ": git index-pack rejects the pack", r.stderr.decode("utf-8", "replace"))
    if ix is not None:
        with open(p + ".own.idx", "rb") as f:
            c.check(f.read() == ix, what + ": index differs from the one git makes for the pack")
        os.unlink(p + ".own.idx")
        with open(p + ".idx", "wb") as f:
            f.write(ix)
        r = ref.git(["verify-pack", p + ".idx"], cwd=d, ok=False)
        if r.returncode:
            c.fail(what + ": git verify-pack rejects it", r.stderr.decode("utf-8", "replace"))
    c.ev("packs accepted by git")


def sink(rng, buf):
    k = rng.randrange(3)
    if k == 0:
        return buf.extend
    if k == 1:
        def w(d):
            buf.extend(d)
            return len(d)
        return w
    return lambda d: buf.extend(bytes(d)) or len(d)


def setup(c, maxn=25, maxsize=60000):
    rng = c.rng
    n = rng.choice((0, 1, 2, 3, rng.randint(2, maxn), rng.randint(2, maxn), 300 if rng.random() < .1 else 5))
    model = objects(c, n, maxsize if n < 50 else 300)
    kind = rng.choice(("stream", "stream", "loose", "mem", "packed"))
    src = Src(c, model, kind)
    order = list(model)
    rng.shuffle(order)
    level = rng.choice((None, 0, 1, 6, 9, -1, rng.randint(0, 9)))
    form = rng.choice(("list", "tuple", "gen", "iter"))
    it = (src.get(s) for s in order)
    if form == "list":
        it = list(it)
    elif form == "tuple":
        it = tuple(it)
    elif form == "iter":
        it = iter(list(it))
    count = len(order) if rng.random() < .4 else None
    kw = {} if level is None else {"zlib_compression": level}
    if count is not None:
        kw["object_count"] = count
    c.log("%d objects from %s as %s" % (len(order), kind, form), str(kw))
    c.sig(kind, len(order), tuple(len(model[s][1]) for s in order)[:6], level, count)
    c.sample(objects=len(order), source=kind, iterable=form, sizes=[len(model[s][1]) for s in order][:10], level=str(level))
    return model, order, it, kw, "%d objects from %s" % (len(order), kind)


def write(c):
    rng = c.rng
    model, order, it, kw, what = setup(c)
    pk, ix = bytearray(), bytearray()
    want_index = rng.random() < .75
    r = PackEntity.write_pack(it, sink(rng, pk), sink(rng, ix) if want_index else None, **kw)
    pk, ix = bytes(pk), bytes(ix) if want_index else None
    check_bytes(c, pk, ix, model, order, what)
    c.eq(bytes(r[0]), pk[-20:], what + ": returned pack checksum")
    if want_index:
        c.eq(bytes(r[1]), ix[-20:], what + ": returned index checksum")
    else:
        c.check(r[1] is None, what + ": index checksum without an index", r[1])
    c.ev("packs written")
    if order and rng.random() < .4:
        git_accepts(c, pk, ix, len(order), what)


def many(c):
    """more objects than 16 bits count"""
    rng = c.rng
    n = (65536, 65537, 70000, 65535)[c.index % 4]
    start = rng.randrange(1 << 30)
    model = {}
    for k in range(start, start + n):
        d = b"%d" % k
        model[ref.oid(b"blob", d)] = (b"blob", d)
    order = list(model)
    what = "%d objects" % n
    pk, ix = bytearray(), bytearray()
    kw = {"object_count": n} if rng.random() < .5 else {}
    r = PackEntity.write_pack((OStream(s, b"blob", len(model[s][1]), BytesIO(model[s][1])) for s in order), pk.extend, ix.extend, **kw)
    pk, ix = bytes(pk), bytes(ix)
    c.eq((bytes(r[0]), bytes(r[1])), (pk[-20:], ix[-20:]), what + ": returned checksums")
    check_bytes(c, pk, ix, model, order, what)
    c.ev("packs written")
    git_accepts(c, pk, ix, n, what)
    c.sig("many", n, bool(kw))


def create(c):
    rng = c.rng
    model, order, it, kw, what = setup(c)
    repo = os.path.join(c.tmp, "r.git")
    root = ref.git_repo(repo)
    d = os.path.join(root, "pack")
    before = set(os.listdir(d))
    ent = PackEntity.create(it, d, **kw)
    new = sorted(set(os.listdir(d)) - before)
    c.eq(len(new), 2, what + ": files created", new)
    pkf = [n for n in new if n.endswith(".pack")]
    c.eq(len(pkf), 1, what + ": pack file", new)
    pk = open(os.path.join(d, pkf[0]), "rb").read()
    name = "pack-" + pk[-20:].hex()
    c.eq(new, [name + ".idx", name + ".pack"], what + ": names")
    ix = open(os.path.join(d, name + ".idx"), "rb").read()
    ents = check_bytes(c, pk, ix, model, order, what)
    c.eq(ent.pack().path(), os.path.join(d, name + ".pack"), what + ": path of the returned pack")
    c.eq(ent.pack().size(), len(order), what + ": size of the returned pack")
    c.eq(ent.index().size(), len(order), what + ": size of the returned index")
    for i in ents:
        sha = ref.oid(i[1], i[2])
        s = ent.stream(sha)
        check_info(c, s, sha, i[1], len(i[2]), what)
        c.eq(s.read(), i[2], what + ": content from the returned pack")
        c.check(ent.is_valid_stream(sha, use_crc=rng.random() < .5), what + ": verification in the returned pack", sha.hex())
    c.ev("packs written")
    if order:
        git_accepts(c, pk, ix, len(order), what)
        res = ref.cat_file_batch(repo, order)
        for sha in order:
            if res[sha] != model[sha]:
                c.fail(what + ": git does not read the object from the created pack", sha.hex())
        db = GitDB(root)
        for sha in rng.sample(order, min(4, len(order))):
            check_present(c, db, sha, *model[sha], what="git database with the created pack,")


def wrong(c):
    """announcements that do not fit the data"""
    rng = c.rng
    model = objects(c, rng.randint(1, 6), 20000)
    order = list(model)
    bad = rng.choice(("count", "count", "short", "long"))
    count = None
    objs = []
    victim = rng.randrange(len(order))
    for k, sha in enumerate(order):
        t, d = model[sha]
        n = len(d)
        if k == victim and bad == "short":
            n += rng.choice((1, 1, 2, 100, 5000000))
        elif k == victim and bad == "long":
            if not n:
                d, n = b"abc", 3
            n = rng.choice((n - 1, 0, n // 2))
        objs.append(OStream(sha, t, n, gen.Source(d, rng.choice(gen.SPLITS), rng)))
    if bad == "count":
        count = len(order) + rng.choice((1, 1, 2, 300))
    elif rng.random() < .5:
        count = len(order)
    it = objs if rng.random() < .5 else iter(objs)
    c.log(bad, str(count), str(len(order)))
    c.sig(bad, count, len(order), victim)
    if rng.random() < .5:
        try:
            PackEntity.write_pack(it, bytearray().extend, bytearray().extend if rng.random() < .5 else None, object_count=count)
        except Exception:
            c.ev("bad announcements refused")
            return
    else:
        d = os.path.join(c.tmp, "p")
        os.makedirs(d)
        try:
            PackEntity.create(it, d, object_count=count)
        except Exception:
            c.ev("bad announcements refused")
            c.check(not [f for f in os.listdir(d) if f.endswith((".pack", ".idx"))], "pack files after a refused creation", os.listdir(d))
            return
    c.fail("no error for a wrong announcement", bad, "announced count %s of %d" % (count, len(order)))


def big(c):
    rng = c.rng
    n = gen.CHUNK * rng.choice((1, 1, 2)) + rng.randint(-9, 9)
    model = {}
    for k in (rng.choice(("random", "zeros", "mixed")), "text"):
        d = gen.content(rng, n if not model else rng.randint(0, 100), k)
        model[ref.oid(b"blob", d)] = (b"blob", d)
    order = list(model)
    rng.shuffle(order)
    it = [OStream(s, b"blob", len(model[s][1]), gen.Source(model[s][1], rng.choice(("full", "half", "short")), rng)) for s in order]
    pk, ix = bytearray(), bytearray()
    PackEntity.write_pack(it, pk.extend, ix.extend, zlib_compression=rng.choice((0, 1, 9)))
    check_bytes(c, bytes(pk), bytes(ix), model, order, "big")
    git_accepts(c, bytes(pk), bytes(ix), 2, "big")
    c.ev("packs written")
    c.sig("big", n)


def writer(c):
    """the index writer fed with recorded offsets beyond 31 and 32 bits"""
    rng = c.rng
    n = rng.choice((0, 1, 2, rng.randint(1, 100)))
    rows = {}
    while len(rows) < n:
        pre = rng.choice((b"", b"\0", b"\xff", b"\x7f" * 18))
        rows[pre + rng.randbytes(20 - len(pre))] = (rng.choice((0, 0xffffffff, rng.randrange(1 << 32))),
                                                    rng.choice((12, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 1 << 32, rng.randrange(1 << 45), rng.randrange(1 << 31))))
    w = IndexWriter()
    for s in rng.sample(list(rows), n):
        w.append(s, *rows[s])
    psha = rng.randbytes(20)
    out = bytearray()
    sha = w.write(psha, sink(rng, out))

    class E:
        pass
    es = []
    for s, (crc, o) in rows.items():
        e = E()
        e.sha, e.crc, e.offset = s, crc, o
        es.append(e)
    want = ref.build_idx(es, psha, 2)
    c.check(bytes(out) == want, "index bytes for recorded offsets", sorted(o for _, o in rows.values())[-5:])
    c.eq(bytes(sha), want[-20:], "returned index checksum")
    c.ev("indices from recorded offsets")
    c.sig("writer", n, sum(o > 0x7fffffff for _, o in rows.values()))
    p = os.path.join(c.tmp, "pack-%s.idx" % hashlib.sha1(want).hexdigest())
    with open(p, "wb") as f:
        f.write(out)
    x = PackIndexFile(p)
    for s, (crc, o) in rows.items():
        i = x.sha_to_index(s)
        c.eq((x.offset(i), x.crc(i)), (o, crc), "entry read back from the written index")


FAMILIES = [("write", write, 260, 6000), ("create", create, 90, 1500), ("many", many, 1, 8), ("wrong", wrong, 140, 2000), ("big", big, 10, 100), ("writer", writer, 80, 1500)]
