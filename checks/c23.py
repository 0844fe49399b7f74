from vlib.world import *
import ctypes
import resource
import zlib
from checks.c08 import fill
from checks.c09 import Live

LEVEL = "exploration"
RULE = ("one case = up to 25 streams open at the same time (loose, packed whole and delta, memory, pack entity, raw pack entries; same and different "
        "objects), their reads and rewinds interleaved at random with each other and with lookups, infos, stores, refreshes, collection of mappings, "
        "and deletion/repacking of the files; one shadow cursor per stream is compared at every read; distinct = (stream kind, event between two of "
        "its reads)")
MORE = 2.5
REQUIRE = {"reads": 16900, "switches between streams": 10610, "reads after the file was deleted": 500, "streams of the same object open": 1040,
           "other operations": 6000, "streams drained": 2410, "streams read in a forked process": 1200,
           "reads failing for want of memory": 60, "unknown attributes": 5000}


class Open:
    def __init__(self, kind, sha, s, data):
        self.kind, self.sha, self.s, self.data = kind, sha, s, data
        self.pos = 0
        self.since = set()
        self.events = 0
        self.deleted = False


def one(c, o, what=""):
    """one read or rewind"""
    rng = c.rng
    n = len(o.data)
    left = n - o.pos
    k = rng.random()
    if k < .07:
        o.s.stream.seek(0)
        o.pos = 0
        return
    if k < .12:
        got, want, op = o.s.read(), o.data[o.pos:], "read()"
    else:
        r = rng.choice((1, 3, 50, 1000, 8192, max(1, left // 2), max(1, left), left + 1))
        got, want, op = o.s.read(r), o.data[o.pos:o.pos + r], "read(%d)" % r
    c.ev("reads")
    if o.deleted:
        c.ev("reads after the file was deleted")
    if got != want:
        c.fail("%s stream of %s: %s at %d of %d returned %d bytes instead of %d (equal prefix: %s), after %s" % (
            o.kind, o.sha.hex()[:8], op, o.pos, n, len(got), len(want), want.startswith(bytes(got)), sorted(o.since)))
    o.pos += len(want)
    c.sig(o.kind, sorted(o.since)[:2], o.pos == n)
    o.since.clear()


def ask(c, o):
    """asking for an attribute which isn't there is answered, and has no effect"""
    n = c.rng.choice(("no_such_attribute", "_repr_html_", "__array_interface__", "getbuffer", "_ipython_display_"))
    try:
        v = getattr(o, n, None)
    except Exception as e:
        c.fail("asking a %s for an attribute it doesn't have: %s" % (type(o).__name__, type(e).__name__), n, str(e))
    c.check(v is None or n != "no_such_attribute", "attribute nobody knows", v)
    c.ev("unknown attributes")


def finish(c, o):
    got = o.s.read() if o.pos < len(o.data) else o.s.read(7)
    if got != o.data[o.pos:]:
        c.fail("%s stream of %s: rest from %d of %d differs, after %s" % (o.kind, o.sha.hex()[:8], o.pos, len(o.data), sorted(o.since)))
    if c.rng.random() < .3:
        o.s.stream.seek(0)
        if o.s.read() != o.data:
            c.fail("%s stream of %s: content after a final rewind differs" % (o.kind, o.sha.hex()[:8]))
    c.ev("streams drained")


def world(c, windows=False):
    rng = c.rng
    pool = {}
    r, alt = Live(c, "main"), Live(c, "alt")
    fill(c, alt, pool, 4)
    fill(c, r, pool, 5)
    es = ref.random_entries(rng, 10, 40000, delta_share=.6)
    r.add_pack(es)
    pool.update(r.packs[-1])
    for k in range(3):
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 60000))
        r.add_loose(t, d)
        pool[ref.oid(t, d)] = (t, d)
    r.alts = [alt]
    r.write_alts()
    pool.update(r.all())
    mem = MemoryDB()
    for sha in rng.sample(list(pool), min(8, len(pool))):
        t, d = pool[sha]
        mem.store(IStream(t, len(d), BytesIO(d)))

    def make():
        return {"git": GitDB(r.root), "loose": LooseObjectDB(r.root), "packed": PackedDB(os.path.join(r.root, "pack")), "memory": mem}
    dbs = make()
    entities = {}
    opened, last = [], None

    def open_one():
        kind = rng.choice(("git", "loose", "loose", "packed", "packed", "memory", "entity", "raw"))
        same = opened and rng.random() < .35
        if kind in ("entity", "raw"):
            if not r.files:
                return
            p, m = rng.choice(r.files)
            e = entities.get(p)
            if e is None:
                e = entities[p] = PackEntity(p + ".pack")
            if kind == "raw":
                it = e.pack().stream_iter()
                x = None
                for _ in range(rng.randint(1, 5)):
                    x = next(it, None) or x
                if x is None or not x.size:
                    return
                got = e.pack().stream(x.pack_offset).read()
                opened.append(Open("raw", b"raw", x, got))
                return
            sha = rng.choice(opened).sha if same else rng.choice(list(m))
            if sha not in m:
                return
            opened.append(Open(kind, sha, e.stream(sha), m[sha][1]))
        else:
            sha = rng.choice(opened).sha if same else rng.choice(list(pool))
            try:
                s = dbs[kind].stream(sha)
            except (BadObject, OSError):
                return
            opened.append(Open(kind, sha, s, pool[sha][1]))
        if any(o.sha == sha for o in opened[:-1]):
            c.ev("streams of the same object open")

    def other():
        k = rng.randrange(12)
        kind = rng.choice(list(dbs))
        db = dbs[kind]
        c.ev("other operations")
        try:
            if k == 0:
                db.has_object(rng.choice(list(pool)))
                return "lookup"
            if k in (1, 2):
                sha = rng.choice(opened).sha if opened and rng.random() < .7 else rng.choice(list(pool))
                db.info(sha).size
                return "info"
            if k == 3:
                list(db.sha_iter())
                db.size()
                return "enumeration"
            if k == 4:
                if kind in ("git", "loose", "memory"):
                    t, d = rng.choice(list(pool.values())) if rng.random() < .5 else (b"blob", gen.content(rng, gen.size(rng, 3000)))
                    db.store(istream(rng, t, d))
                    pool[ref.oid(t, d)] = (t, d)
                    if kind != "memory":
                        r.loose[ref.oid(t, d)] = (t, d)
                return "store"
            if k == 5:
                if kind != "memory":
                    db.update_cache(force=True)
                return "update"
            if k == 6:
                if windows:
                    return "nothing"
                name = r.change(pool, [alt])
                if name and "replaced" in name:
                    # they are what they were opened on
                    entities.clear()
                if name:
                    for o in opened:
                        here = r.all()
                        if o.sha not in here:
                            o.deleted = True
                return name or "nothing"
            if k == 7:
                collect()
                return "collection"
            if k == 8:
                dbs.update(make() if rng.random() < .3 else {})
                return "new databases"
            if k == 9:
                # copying one stream into a memory database reads only that stream
                sha = rng.choice(list(pool))
                s = db.stream(sha)
                m = MemoryDB()
                m.store(IStream(s.type, s.size, s))
                if m.stream(sha).read() != pool[sha][1]:
                    c.fail("copy differs")
                return "copy"
            if k == 10 and r.files:
                p, m = rng.choice(r.files)
                e = entities.get(p)
                if e:
                    e.is_valid_stream(rng.choice(list(m)), use_crc=False)
                    for x in e.info_iter():
                        pass
                return "verification"
            if k == 11:
                x = rng.choice(opened).s if opened else None
                e = rng.choice(list(entities.values())) if entities else PackEntity(os.path.join(r.root, "pack", "pack-gone.pack"))
                for o in (x, x and x.stream, db, e, e.pack(), e.index(), PackFile("gone.pack"), PackIndexFile("gone.idx")):
                    ask(c, o)
                return "unknown attributes"
        except (BadObject, OSError, AmbiguousObjectName):
            return "failed query"
        return "nothing"

    def fork():
        def rest():
            for o in opened:
                finish(c, o)
        e = in_child(rest)()
        c.ev("streams read in a forked process", len(opened))
        c.check(e is None, "streams after a fork:", e)

    for step in range(rng.choice((60, 200, 350))):
        k = rng.random()
        if k > .992 and opened:
            fork()
            for o in opened:
                o.since.add("fork")
        if k < .12 and len(opened) < 25:
            open_one()
            for o in opened[:-1]:
                o.since.add("open")
        elif k < .75 and opened:
            o = rng.choice(opened)
            if o is not last:
                c.ev("switches between streams")
                for x in opened:
                    if x is not o:
                        x.since.add("read of " + o.kind)
            one(c, o)
            last = o
        elif k < .92:
            name = other()
            for o in opened:
                o.since.add(name)
        elif opened:
            o = opened.pop(rng.randrange(len(opened)))
            if rng.random() < .7:
                finish(c, o)
            o = last = None
    c.peak("streams open", len(opened))
    rng.shuffle(opened)
    for o in opened:
        finish(c, o)
    c.sample(streams=len(opened), kinds=[o.kind for o in opened[:6]])
    opened.clear()
    entities.clear()
    dbs.clear()


def small(c):
    with small_windows(c.rng.choice((16384, 65536))):
        world(c, True)


def memory(c):
    """several streams of few objects in memory, read in lock step"""
    rng = c.rng
    mem = MemoryDB()
    model = {}
    for k in range(rng.randint(1, 3)):
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 30000))
        model[ref.oid(t, d)] = d
        mem.store(IStream(t, len(d), BytesIO(d)))
    opened = []
    for step in range(150):
        k = rng.random()
        if k < .15 or not opened:
            sha = rng.choice(list(model))
            if opened:
                c.ev("streams of the same object open")
            x = (mem.stream, mem.stream, mem.info)[rng.randrange(3)](sha)
            opened.append(Open("memory", sha, x if hasattr(x, "read") else mem.stream(sha), model[sha]))
        elif k < .25:
            mem.info(rng.choice(list(model)))
            c.ev("other operations")
        elif k < .3:
            sha = rng.choice(list(model))
            mem.stream_copy([sha], MemoryDB())
        else:
            o = rng.choice(opened)
            c.ev("switches between streams")
            one(c, o)
    for o in opened:
        finish(c, o)


LIBC = ctypes.CDLL(None)


def spans(a, b):
    """copy instructions for base[a:b]"""
    return [ref.copy_op(k, min(0x800000, b - k)) for k in range(a, b, 0x800000)]


def scarce(c):
    """memory is scarce for some of the reads: they fail, but none ever returns anything but what comes next"""
    rng = c.rng
    size = rng.randint(8 << 20, 30 << 20)
    block = rng.randbytes(256 << 10)
    data = (block * (size // len(block) + 1))[:size]
    mode = rng.choice(("loose", "whole", "delta", "delta", "chain"))
    if mode == "loose":
        ref.write_loose(c.tmp, b"blob", data, zlib.compress(ref.loose_bytes(b"blob", data), rng.choice((0, 1))))
        sha, db = ref.oid(b"blob", data), LooseObjectDB(c.tmp)
    else:
        es = [ref.Entry(b"blob", data)]
        for k in range({"whole": 0, "delta": 1, "chain": rng.randint(2, 3)}[mode]):
            b = es[-1]
            n, cut, new = len(b.data), rng.randrange(len(b.data)), b"inserted %d" % k
            ops = spans(0, cut) + [ref.insert_op(new)] + spans(cut, n)
            es.append(ref.Entry(b"blob", b.data[:cut] + new + b.data[cut:], rng.choice(("ofs", "ref")), b, ref.make_delta(n, n + len(new), ops)))
        level = rng.choice((0, 1))
        ref.write_pack_files(rng, c.tmp, es, deflate=lambda d: zlib.compress(d, level))
        sha, data, db = es[-1].sha, es[-1].data, PackedDB(c.tmp)
        del es
    n = len(data)
    s = db.stream(sha)
    if rng.random() < .3:
        s.size
    pos, failed = 0, False
    for step in range(rng.randint(3, 8)):
        tight = rng.random() < .6
        k = rng.choice((-1, -1, n // 2, n, 1 << 20, 100))
        if rng.random() < .3:
            s.stream.seek(0)
            pos, failed = 0, False
        got = err = want = None
        LIBC.malloc_trim(0)
        with open("/proc/self/statm") as f:
            used = int(f.read().split()[0]) * 4096
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        room = rng.choice((0, 1 << 20, rng.randint(1 << 20, n)))
        if tight:
            resource.setrlimit(resource.RLIMIT_AS, (used + room, hard))
        try:
            got = s.read(k)
        except Exception as e:
            err = type(e).__name__
        finally:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
        want = data[pos:] if k < 0 else data[pos:pos + k]
        c.log("read(%d) at %d of %d" % (k, pos, n), "tight" if tight else "", err or "")
        if err:
            # a stream may need to be rewound after a read that failed
            c.check(tight or failed, "%s: read failed though there is memory" % mode, err)
            c.ev("reads failing for want of memory" if tight else "reads refused after one that failed")
            failed = True
            continue
        c.check(got == want, "%s: read(%d) at %d of %d %s returned %d other bytes" % (
            mode, k, pos, n, "after a read that failed for want of memory" if failed else "", len(got)))
        pos += len(got)
        c.ev("reads with scarce memory" if tight else "reads")
        c.sig("scarce", mode, k < 0, failed, tight)
    s.stream.seek(0)
    c.check(s.read() == data, mode + ": content after a final rewind differs")


FAMILIES = [("world", world, 400, 8000), ("small", small, 60, 1000), ("memory", memory, 60, 1000), ("scarce", scarce, 40, 600)]
