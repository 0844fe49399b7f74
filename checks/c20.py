from vlib.world import *
from checks.c08 import Repo, fill
import zlib

LEVEL = "exploration"
RULE = ("one case = a history of successful and failing reads, stores, lookups, enumerations (some abandoned midway), refreshes and pack creations on "
        "loose, git, packed and memory databases whose streams are kept open and dropped in random order; descriptor table and memory map of the "
        "process are compared with the start at checkpoints and after the databases are gone; distinct = (operation, outcome, open streams)")
MORE = 2
REQUIRE = {"checkpoints": 1500, "operations": 11450, "failing operations": 2500, "streams open at once": 2380, "final comparisons": 170,
           "pack files mapped": 800, "descriptors seen open": 2000}


def zero_maps():
    with open("/proc/self/maps") as f:
        return sum("/dev/zero" in l for l in f)


class Monitor:
    def __init__(self, c):
        self.c = c
        collect()
        self.fd0 = set(fds())
        self.zero0 = zero_maps()

    def now(self):
        """(descriptors opened since, mappings below tmp, buffers)"""
        f = {k: v for k, v in fds().items() if k not in self.fd0 and not v.startswith("/proc/")}
        return f, maps(self.c.tmp), zero_maps() - self.zero0

    def quiet(self, what):
        """no stream is open"""
        c = self.c
        gc.collect()
        f, m, z = self.now()
        c.ev("checkpoints")
        packs = (".pack", ".idx")
        bad = sorted(v for v in f.values() if not v.endswith(packs))
        if bad:
            c.fail(what + ": descriptors left open", len(bad), bad[:4])
        bad = sorted(x for x in m if not x.endswith(packs))
        if bad:
            c.fail(what + ": files left mapped", len(bad), bad[:4])
        if z > 0:
            c.fail(what + ": %d buffers of resolved deltas left" % z)
        self.packs(f, m, what)

    def packs(self, f, m, what, windows=1):
        c = self.c
        for kind, names in (("descriptors", [v for v in f.values() if v.endswith((".pack", ".idx"))]), ("mappings", [x for x in m if x.endswith((".pack", ".idx"))])):
            n = {}
            for x in names:
                n[x] = n.get(x, 0) + 1
            for x, k in n.items():
                if k > windows:
                    c.fail(what + ": %d %s of one pack file" % (k, kind), x)
            if kind == "mappings":
                c.ev("pack files mapped", len(n))

    def gone(self, what):
        c = self.c
        collect()
        f, m, z = self.now()
        c.ev("final comparisons")
        if f or m or z > 0:
            c.fail(what + ": still held after everything was dropped and collected", sorted(f.values())[:5], m[:5], z)


def corrupt(c, root, sha):
    """damage one loose file"""
    rng = c.rng
    p = ref.loose_path(root, sha)
    with open(p, "rb") as f:
        b = bytearray(f.read())
    k = rng.randrange(4)
    if k == 0:
        b = b[:rng.randint(0, max(0, len(b) - 5))]
    elif k == 1:
        b = bytearray()
    elif k == 2:
        b[:4] = b"\0\0\0\0"
    else:
        b = bytearray(zlib.compress(rng.choice((b"noheader", b"blob x\0abc", b"blob 3", b"a b c\0"))))
    os.unlink(p)
    with open(p, "wb") as f:
        f.write(b)


ERRORS = (BadObject, AmbiguousObjectName, ValueError, OSError, zlib.error, EOFError, AssertionError, IndexError, KeyError, gitdb.exc.ODBError)


def history(c):
    rng = c.rng
    pool = {}
    r = Repo(c, "main")
    alt = Repo(c, "alt")
    fill(c, alt, pool, 5)
    fill(c, r, pool, 10)
    if not r.packs:
        r.add_pack(ref.random_entries(rng, 8, 3000, delta_share=.6))
    for k in range(4):
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 30000))
        r.add_loose(t, d)
        pool[ref.oid(t, d)] = (t, d)
    r.alts = [alt]
    r.write_alts()
    pool.update(r.all())
    for sha in rng.sample(list(r.loose), rng.randint(0, 2)):
        corrupt(c, r.root, sha)
    out = os.path.join(c.tmp, "new packs")
    os.mkdir(out)
    mon = Monitor(c)
    dbs = {"git": GitDB(r.root), "loose": LooseObjectDB(r.root), "packed": PackedDB(os.path.join(r.root, "pack")), "memory": MemoryDB()}
    held = []
    entities = []
    for step in range(rng.choice((20, 60, 120))):
        kind = rng.choice(("git", "git") + tuple(dbs))
        db = dbs[kind]
        k = rng.random()
        c.ev("operations")
        failed = False
        op = "?"
        try:
            if k < .3:
                op = "stream"
                s = db.stream(rng.choice(list(pool)))
                if rng.random() < .8:
                    s.read(rng.choice((-1, 1, 100, 10000)))
                held.append(s)
                s = None
            elif k < .4:
                op = "info"
                db.info(rng.choice(list(pool)))
            elif k < .5:
                op = "absent"
                x = rng.randbytes(20)
                db.has_object(x)
                (db.info if rng.random() < .5 else db.stream)(x)
            elif k < .58:
                op = "store"
                t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 5000))
                if kind != "packed":
                    db.store(istream(rng, t, d))
                    pool[ref.oid(t, d)] = (t, d)
                    if rng.random() < .3:
                        db.store(istream(rng, t, d))
            elif k < .64:
                op = "failing store"
                t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 5000) + 1)
                if kind != "packed":
                    raw = rng.random() < .3
                    db.store(IStream(t, len(d), gen.Source(d, "short", rng, fail_at=rng.randint(0, len(d) - 1)), ref.oid(t, d) if raw else None))
            elif k < .7:
                op = "enumerate"
                it = iter(db.sha_iter())
                for _ in range(rng.choice((0, 1, 3, 10 ** 6))):
                    if next(it, None) is None:
                        break
                if rng.random() < .3:
                    held.append(it)
                it = None
            elif k < .75:
                op = "prefix"
                if kind in ("git", "loose"):
                    h = rng.choice(list(pool)).hex()[:rng.randint(4, 40)]
                    db.partial_to_complete_sha_hex(rng.choice((h, "0000", h[:4])))
            elif k < .79:
                op = "update"
                if kind != "memory":
                    db.update_cache(force=rng.random() < .7)
            elif k < .85:
                op = "entity"
                pk = [f for f in os.listdir(os.path.join(r.root, "pack")) if f.endswith(".pack")]
                e = PackEntity(os.path.join(r.root, "pack", rng.choice(pk)))
                for x in (e.stream_iter() if rng.random() < .5 else e.info_iter()):
                    if rng.random() < .1:
                        break
                    if rng.random() < .2:
                        held.append(x)
                    if rng.random() < .2 and hasattr(x, "read"):
                        x.read(100)
                if rng.random() < .3:
                    for s in list(e.index().entry(i)[1] for i in range(min(3, e.index().size()))):
                        e.is_valid_stream(s, use_crc=rng.random() < .5 and e.index().version() == 2)
                if rng.random() < .3:
                    e.collect_streams(e.index().sha(0))[0].read(3)
                if rng.random() < .3:
                    entities.append(e)
                x = s = e = None
            elif k < .9:
                op = "sequential"
                pk = [f for f in os.listdir(os.path.join(r.root, "pack")) if f.endswith(".pack")]
                it = PackFile(os.path.join(r.root, "pack", rng.choice(pk))).stream_iter()
                for x in it:
                    if rng.random() < .1:
                        break
                x = it = None
            elif k < .95:
                op = "create"
                objs = [OStream(ref.oid(t, d), t, len(d), gen.Source(d, "short", rng, fail_at=rng.choice((None, None, None, 0)))) for t, d in
                        rng.sample(list(pool.values()), min(len(pool), rng.randint(0, 4)))]
                e = PackEntity.create(objs, out, zlib_compression=1)
                if e.index().size() and rng.random() < .7:
                    held.append(e.stream(e.index().sha(0)))
                e = None
                objs = None
            else:
                op = "transfer"
                m = dbs["memory"]
                m.stream_copy(list(m.sha_iter()), dbs[rng.choice(("git", "loose"))])
        except ERRORS:
            failed = True
        except StopIteration:
            pass
        s = it = x = e = objs = m = None
        c.ev("failing operations" if failed else "successful operations")
        c.sig(op, kind, failed, min(len(held), 5))
        while held and rng.random() < .2:
            held.pop(rng.randrange(len(held)))
        if len(held) > 1:
            c.ev("streams open at once")
        if rng.random() < .1:
            f, m, z = mon.now()
            c.ev("descriptors seen open", len(f))
            mon.packs(f, m, "while %d streams are open" % len(held))
            n = [v for v in m if not v.endswith((".pack", ".idx"))]
            c.check(len(n) <= len(held), "more loose files mapped than streams open", len(n), len(held))
            held.clear()
            mon.quiet("after %d operations, last %s %s" % (step, kind, op))
        if rng.random() < .02:
            dbs[kind] = {"git": lambda: GitDB(r.root), "loose": lambda: LooseObjectDB(r.root), "packed": lambda: PackedDB(os.path.join(r.root, "pack")),
                         "memory": MemoryDB}[kind]()
    held.clear()
    db = s = it = x = e = objs = m = None
    mon.quiet("at the end")
    if rng.random() < .4:
        for e in entities:
            e.close()
        e = None
    entities.clear()
    dbs.clear()
    mon.gone("at the end")


def loose(c):
    """many reads of single loose objects, each dropped: nothing may accumulate"""
    rng = c.rng
    root = os.path.join(c.tmp, "o")
    os.mkdir(root)
    ids = {}
    for k in range(6):
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 20000))
        ids[ref.write_loose(root, t, d)] = d
    bad = rng.choice(list(ids))
    corrupt(c, root, bad)
    mon = Monitor(c)
    db = LooseObjectDB(root)
    for k in range(60):
        sha = rng.choice(list(ids))
        c.ev("operations")
        mode = rng.randrange(5)
        try:
            if mode == 0:
                db.info(sha)
            else:
                s = db.stream(sha)
                if mode == 2:
                    s.read(rng.randint(1, 1000))
                elif mode == 3:
                    s.read()
                elif mode == 4:
                    s.read(1)
                    s.stream.close()
                    left = maps(root)
                    c.check(not left, "file still mapped after closing its stream", left)
                s = None
        except ERRORS:
            s = None
            c.check(sha == bad, "reading an intact object failed", sha.hex())
            c.ev("failing operations")
        f, m, z = mon.now()
        if f or m:
            gc.collect()
            f, m, z = mon.now()
        c.check(not f, "descriptor left open by reading one loose object", mode, sorted(f.values()))
        c.check(not m, "loose file left mapped", mode, m)
        c.ev("checkpoints")
    c.sig("loose", bad in ids, len(ids))


def windows(c):
    """packs larger than a window"""
    rng = c.rng
    es = ref.random_entries(rng, rng.randint(5, 30), 60000, delta_share=.4)
    p, es = ref.write_pack_files(rng, c.tmp, es)
    w = rng.choice((16384, 65536, 262144))
    if os.path.getsize(p[:-5] + ".idx") > w:
        return
    with small_windows(w) as mm:
        mon = Monitor(c)
        db = PackedDB(c.tmp)
        held = []
        n = max(1, os.path.getsize(p) // 4096 + 2)
        for k in range(rng.choice((20, 80))):
            e = rng.choice(es)
            s = db.stream(e.sha)
            if rng.random() < .5:
                c.check(s.read(100) == e.data[:100], "content")
            held.append(s)
            if rng.random() < .5:
                held.pop(rng.randrange(len(held)))
            c.ev("operations")
        f, m, z = mon.now()
        c.ev("descriptors seen open", len(f))
        mon.packs(f, m, "small windows", n)
        held.clear()
        s = db = None
        gc.collect()
        mm.collect()
        mon.gone("small windows")
    c.sig("windows", w, len(es))


def removed(c):
    """mappings of packs that are gone are released after an update"""
    rng = c.rng
    paths, ids = [], []
    d = os.path.join(c.tmp, "pack")
    os.mkdir(d)
    for k in range(rng.randint(2, 5)):
        es = ref.random_entries(rng, rng.randint(1, 8), 3000)
        p, es = ref.write_pack_files(rng, d, es)
        paths.append(p)
        ids.append([e.sha for e in es])
    mon = Monitor(c)
    db = PackedDB(d) if rng.random() < .5 else GitDB(c.tmp)
    for round_ in range(rng.randint(1, 3)):
        for l in ids:
            for sha in l:
                db.stream(sha).read(5)
                c.ev("operations")
        k = rng.randint(0, len(paths))
        for _ in range(k):
            i = rng.randrange(len(paths))
            p = paths.pop(i)
            ids.pop(i)
            os.unlink(p)
            os.unlink(p[:-5] + ".idx")
        db.update_cache(force=True)
        collect()
        f, m, z = mon.now()
        bad = [x for x in list(f.values()) + m if x.endswith("(deleted)")]
        c.check(not bad, "files of removed packs still held after an update", bad)
        mon.packs(f, m, "after an update")
        c.ev("checkpoints")
        c.sig("removed", k, len(paths))
    db = None
    mon.gone("after removing packs")


FAMILIES = [("removed", removed, 60, 800), ("history", history, 320, 6000), ("loose", loose, 40, 600), ("windows", windows, 60, 800)]
