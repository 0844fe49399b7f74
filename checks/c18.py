from vlib.world import *
from checks.c08 import Repo, fill
import zlib

LEVEL = "exploration"
RULE = ("one case = a memory database filled in several ways and a history of partial, repeated and failing transfers of generated id sequences into "
        "loose, git (packs, loose objects, alternates) and memory databases, against a set model; counts, target contents, untouched files and the "
        "source are checked after each; distinct = (target kind, where the ids are held, how many are missing, sequence form)")
MORE = 2
REQUIRE = {"transfers": 1130, "objects copied": 3000, "objects already present": 2500, "transfers of absent ids": 150, "interrupted transfers": 50,
           "git reads": 100, "large objects copied": 9}


class Target:
    def __init__(self, c, pool, n):
        rng = c.rng
        self.c = c
        self.kind = rng.choice(("loose", "git", "git", "memory"))
        self.model, self.repo = {}, None
        if self.kind == "memory":
            self.db, self.root = MemoryDB(), None
        elif self.kind == "git":
            self.repo = Repo(c, "git%d" % n)
            alt = Repo(c, "alt%d" % n)
            own = {}
            fill(c, alt, own, 4)
            sub = dict(rng.sample(list(pool.items()), rng.randint(0, len(pool)))) if pool else {}
            fill(c, self.repo, sub, 4)
            for typ, data in rng.sample(list(pool.values()), min(len(pool), 3)):
                alt.add_loose(typ, data)
            if rng.random() < .5:
                alt.add_pack([ref.Entry(*v) for v in {ref.oid(*v): v for v in rng.sample(list(pool.values()), min(len(pool), 3))}.values()] or [ref.Entry(b"blob", b"x")])
            if rng.random() < .7:
                self.repo.alts = [alt]
                self.repo.write_alts()
            self.root = self.repo.root
            self.db = GitDB(self.root)
            self.model = self.repo.all()
        else:
            self.root = os.path.join(c.tmp, "loose%d" % n)
            os.mkdir(self.root)
            for typ, data in rng.sample(list(pool.values()), rng.randint(0, len(pool))):
                self.model[ref.write_loose(self.root, typ, data)] = (typ, data)
            self.db = LooseObjectDB(self.root)

    def where(self, sha):
        if self.repo:
            return self.repo.where(sha)
        return sha in self.model


def readable(c, mem, src, what):
    for sha in c.rng.sample(list(src), min(len(src), 6)):
        check_present(c, mem, sha, *src[sha], what + ": memory database,")
    c.eq(set(map(bytes, mem.sha_iter())), set(src), what + ": ids of the memory database")
    c.eq(mem.size(), len(src), what + ": size of the memory database")


def fill_memory(c, mem, src):
    rng = c.rng
    for k in range(rng.choice((0, 1, 5, 12, 25))):
        typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 30000))
        sha = ref.oid(typ, data)
        if rng.random() < .3:
            raw = gen.deflate(rng, ref.loose_bytes(typ, data))
            mem.store(IStream(typ, len(data), gen.Source(raw, rng.choice(gen.SPLITS), rng), sha))
        else:
            mem.store(istream(rng, typ, data))
        src[sha] = (typ, data)


def history(c):
    rng = c.rng
    mem, src = MemoryDB(), {}
    fill_memory(c, mem, src)
    pool = dict(src)
    for k in range(rng.randint(0, 3)):
        typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))
        pool[ref.oid(typ, data)] = (typ, data)
    ts = [Target(c, pool, i) for i in range(rng.randint(1, 3))]
    streams = []
    for step in range(rng.choice((2, 4, 8))):
        t = rng.choice(ts)
        if rng.random() < .2:
            fill_memory(c, mem, src)
        if rng.random() < .2 and src:
            sha = rng.choice(list(src))
            st = mem.stream(sha)
            n = rng.randint(0, len(src[sha][1]))
            got = st.read(n) if n else b""
            streams.append((st, src[sha][1], got))
        ids = [rng.choice(list(src)) for _ in range(rng.randint(0, 2 * len(src)))] if src else []
        if src and rng.random() < .3:
            ids = list(src)
        form = rng.choice(("list", "tuple", "gen", "own"))
        bad = None
        if rng.random() < .2:
            bad = rng.choice([s for s in near_ids(rng, src, 1) if s not in t.model] or [rng.randbytes(20)])
            ids.insert(rng.randint(0, len(ids)), bad)
            form = rng.choice(("list", "gen"))
        if form == "own":
            ids = list(map(bytes, mem.sha_iter()))
        it = {"list": ids, "tuple": tuple(ids), "gen": (x for x in ids)}.get(form, None)
        if it is None:
            it = mem.sha_iter()
        done = ids[:ids.index(bad)] if bad else ids
        cut = None
        if not bad and form != "own" and rng.random() < .08:
            cut = rng.randint(0, len(ids))
            done = ids[:cut]

            def stopping():
                for x in done:
                    yield x
                raise KeyboardInterrupt()
            it = stopping()
        missing = {s for s in done if s not in t.model}
        what = "%s, %d ids, %d missing" % (t.kind, len(done), len(missing))
        c.log("transfer", what, form)
        before = snapshot(t.root) if t.root else None
        for s in done:
            c.sig(t.kind, t.where(s), form)
        if bad or cut is not None:
            try:
                n = mem.stream_copy(it, t.db)
                c.fail(what + ": no error", n)
            except BadObject:
                c.check(bad, what + ": BadObject")
                c.ev("transfers of absent ids")
            except KeyboardInterrupt:
                c.check(cut is not None, what)
                c.ev("interrupted transfers")
        else:
            n = mem.stream_copy(it, t.db)
            c.eq(n, len(missing), what + ": returned count")
        c.ev("transfers")
        c.ev("objects copied", len(missing))
        c.ev("objects already present", len(done) - len(missing))
        for s in missing:
            t.model[s] = src[s]
            if t.repo:
                t.repo.loose[s] = src[s]
        if before is not None:
            after = snapshot(t.root)
            new = {p for p in after if p not in before and after[p][0] == "file"}
            c.eq(new, {os.path.join(s.hex()[:2], s.hex()[2:]) for s in missing}, what + ": files added")
            for p, v in before.items():
                if after.get(p) != v:
                    c.fail(what + ": existing file or directory changed: " + p)
        c.eq(set(map(bytes, t.db.sha_iter())), set(t.model), what + ": ids of the target")
        look = list(missing)[:10] + rng.sample(list(t.model), min(len(t.model), 6))
        for s in look:
            check_present(c, t.db, s, *t.model[s], what + ":")
        if t.root and rng.random() < .5:
            fresh = type(t.db)(t.root)
            for s in look:
                check_present(c, fresh, s, *t.model[s], what + ": fresh database,", reads="all")
        readable(c, mem, src, what)
    for st, data, got in streams:
        c.check(got + st.read() == data, "stream opened before a transfer delivers something else")
    for t in ts:
        if t.kind == "git" and t.model and rng.random() < .4:
            got = ref.cat_file_batch(t.repo.repo, list(t.model))
            for sha in t.model:
                c.check(got[sha] == t.model[sha], "git reads another object", sha.hex())
                c.ev("git reads")
    c.sample(ids=len(src), targets=[t.kind for t in ts])


def large(c):
    """objects which can't be compressed, and are larger than what is copied at once"""
    rng = c.rng
    kind = rng.choice(("loose", "git", "memory"))
    size = rng.choice((gen.CHUNK + rng.randint(-2000, 2000), gen.CHUNK + rng.randint(1, 1 << 20), 2 * gen.CHUNK + rng.randint(-2000, 2000)))
    t, d = gen.otype(rng), rng.randbytes(size)
    sha = ref.oid(t, d)
    root = os.path.join(c.tmp, "o")
    os.mkdir(root)
    db = {"loose": LooseObjectDB, "git": GitDB, "memory": lambda r: MemoryDB()}[kind](root)
    mem = MemoryDB()
    mem.store(IStream(t, size, BytesIO(d)))
    if rng.random() < .3:
        m2 = MemoryDB()
        c.eq(mem.stream_copy([sha], m2), 1, "count")
        mem = m2
    c.eq(mem.stream_copy([sha], db), 1, "%s: count for a large object" % kind)
    check_present(c, db, sha, t, d, "%s: large object of %d bytes," % (kind, size), reads="all")
    c.ev("large objects copied")
    c.sig("large", kind, size)


FAMILIES = [("history", history, 600, 8000), ("large", large, 12, 200)]
