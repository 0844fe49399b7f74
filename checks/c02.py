from vlib.world import *
import zlib

LEVEL = "exploration"
RULE = ("one case = one object in one stored form (loose/memory/packed whole/packed delta, one of many zlib forms) opened several times and "
        "driven by a random sequence of sized and unsized reads and rewinds, each compared with a shadow cursor; distinct = "
        "(form, size, compressed size, content prefix)")
MORE = 4
REQUIRE = {"sized reads": 2000, "rewinds midway": 100}


def opened(c, get, data, what, times=None):
    for k in range(times or c.rng.randint(1, 4)):
        s = get()
        c.eq(s.size, len(data), what + " size")
        gen.drive(c, Rewindable(s), data, ops=c.rng.choice((5, 20, 60)), what=what)
        c.ev("streams driven")
    if len(data) <= 300 and c.rng.random() < .3:
        s = get()
        got = []
        while True:
            b = s.read(1)
            if not b:
                break
            got.append(b)
            if len(got) > len(data) + 5:
                break
        c.eq(b"".join(got), data, what + " read byte by byte")


def loose(c):
    rng = c.rng
    data = gen.content(rng, gen.size(rng))
    typ = gen.otype(rng)
    comp = gen.deflate(rng, ref.loose_bytes(typ, data))
    root = os.path.join(c.tmp, "o")
    sha = ref.write_loose(root, typ, data, comp)
    db = LooseObjectDB(root)
    c.log("loose", typ, len(data), "compressed", len(comp))
    c.sig("loose", len(data), len(comp), data[:4])
    c.sample(form="loose", size=len(data), compressed=len(comp))
    opened(c, lambda: db.stream(sha), data, "loose %d/%d" % (len(data), len(comp)))


def stored(c):
    """what the library itself writes"""
    rng = c.rng
    data = gen.content(rng, gen.size(rng))
    typ = gen.otype(rng)
    if rng.random() < .5:
        db = MemoryDB()
        what = "memory"
    else:
        db = LooseObjectDB(c.tmp)
        what = "stored loose"
    sha = db.store(IStream(typ, len(data), BytesIO(data))).binsha
    c.sig(what, len(data), data[:4])
    opened(c, lambda: db.stream(sha), data, "%s %d" % (what, len(data)))


def packed(c):
    rng = c.rng
    n = rng.randint(1, 8)
    es = ref.random_entries(rng, n, 150000, delta_share=rng.choice((0, 0, .5)))
    p, es = ref.write_pack_files(rng, c.tmp, es)
    db = PackedDB(c.tmp)
    ent = db.entities()[0]
    c.eq(len(db.entities()), 1, "packs found")
    for e in rng.sample(es, min(3, len(es))):
        get = (lambda: db.stream(e.sha)) if rng.random() < .5 else (lambda: ent.stream(e.sha))
        what = "packed %s depth %d %d/%d" % (e.kind, e.depth(), len(e.data), len(e.raw))
        c.log(what)
        c.sig("packed", e.kind, e.depth(), len(e.data), len(e.raw))
        opened(c, get, e.data, what, 2)
        if e.kind == "base":
            opened(c, lambda: ent.pack().stream(e.offset), e.data, "pack file " + what, 1)
        else:
            # the raw delta of the entry
            opened(c, lambda: ent.pack().stream(e.offset), e.delta, "raw delta " + what, 1)
        c.ev("packed deltas" if e.depth() else "packed whole")
    c.sample(entries=[(e.kind, e.depth(), len(e.data), len(e.raw)) for e in es])


def raw(c):
    """the reader itself over arbitrary zlib data, as pack entries are read, trailing bytes behind it"""
    rng = c.rng
    from gitdb.stream import DecompressMemMapReader
    data = gen.content(rng, gen.size(rng))
    comp = gen.deflate(rng, data, wide=True)
    tail = rng.randbytes(rng.choice((0, 0, 1, 20, 5000)))
    buf = comp + tail
    if rng.random() < .5:
        buf = memoryview(buf)
    c.sig("raw", len(data), len(comp), len(tail))

    class S:
        size = len(data)

        def __init__(self):
            self.stream = DecompressMemMapReader(buf, False, len(data))
            self.read = self.stream.read
    opened(c, S, data, "raw %d/%d" % (len(data), len(comp)))
    s = S()
    s.read()
    # the number of compressed bytes belonging to the object is exact
    c.eq(s.stream.compressed_bytes_read(), len(comp), "compressed bytes of a fully read stream", len(data))
    s.stream.seek(0)
    c.eq(s.read(), data, "content after a rewind")


def objreader(c):
    """the reader over data in object format (header + content), lazily and eagerly parsed"""
    rng = c.rng
    from gitdb.stream import DecompressMemMapReader
    data = gen.content(rng, gen.size(rng))
    typ = gen.otype(rng)
    comp = gen.deflate(rng, ref.loose_bytes(typ, data))

    class S:
        size = len(data)

        def __init__(self):
            t, n, self.stream = DecompressMemMapReader.new(comp, close_on_deletion=False)
            c.eq((bt(t), n), (typ, len(data)), "parsed header")
            self.read = self.stream.read
    opened(c, S, data, "object reader %d/%d" % (len(data), len(comp)))
    c.sig("obj", len(data), len(comp))


def gitpacked(c):
    """objects and packs written by git itself"""
    rng = c.rng
    repo = os.path.join(c.tmp, "r.git")
    root = ref.git_repo(repo)
    base = gen.content(rng, rng.randint(2000, 60000), rng.choice(("text", "mixed", "random")))
    model = {}
    for k in range(rng.randint(2, 6)):
        i = rng.randint(0, len(base) - 1)
        base = base[:i] + gen.content(rng, rng.randint(0, 400)) + base[i + rng.randint(0, 300):]
        sha = bytes.fromhex(ref.git(["--git-dir", repo, "hash-object", "-w", "--stdin"], input=base).stdout.decode().strip())
        model[sha] = (b"blob", base)
    if rng.random() < .7:
        ref.git(["--git-dir", repo, "pack-objects", "-q", "--depth=%d" % rng.randint(1, 20), os.path.join(root, "pack", "pack")],
                input="\n".join(s.hex() for s in model).encode() + b"\n")
        for s in model:
            os.unlink(ref.loose_path(root, s))
    db = GitDB(root)
    for sha, (t, d) in model.items():
        opened(c, lambda: db.stream(sha), d, "git's object of %d" % len(d), 1)
        c.sig("git", len(d))


def big(c):
    rng = c.rng
    n = rng.choice((1 << 20, 3 << 20, 5000000)) + rng.randint(-9, 9)
    data = gen.content(rng, n, rng.choice(("mixed", "pattern", "zeros", "lowent", "random")))
    comp = gen.deflate(rng, ref.loose_bytes(b"blob", data))
    sha = ref.write_loose(c.tmp, b"blob", data, comp)
    db = LooseObjectDB(c.tmp)
    c.sig("big", n, len(comp))
    opened(c, lambda: db.stream(sha), data, "big loose %d/%d" % (n, len(comp)), 2)


FAMILIES = [("loose", loose, 700, 20000), ("stored", stored, 200, 4000), ("packed", packed, 250, 5000), ("raw", raw, 700, 20000),
            ("objreader", objreader, 300, 8000), ("git", gitpacked, 40, 500), ("big", big, 16, 200)]
