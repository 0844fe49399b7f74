import itertools
import shutil
from vlib.world import *
from vlib import crash, sub

LEVEL = "exploration"
RULE = ("one case = one generated repository (objects distributed over loose files, packs, alternates and nested alternates with overlaps, plus "
        "foreign files) and a random sequence of membership, info, stream, enumeration, size and store events on several open databases, each "
        "compared with the set model; distinct = (database kind, sources holding the object, event)")
MORE = 3
REQUIRE = {"object checks": 4000, "absence checks": 3000, "enumerations": 300, "objects in several sources": 130, "lookups in many packs": 2000, "alternates in cycles": 60,
           "enumerations during stores": 500, "linked directories": 250, "interpreters started": 40, "answers of other interpreters": 3000}


class Repo:
    """one objects directory and what it holds"""
    absolute = True
    linking = False

    def __init__(self, c, name):
        self.c = c
        self.root = ref.git_repo(os.path.join(c.tmp, name))
        self.repo = os.path.dirname(self.root)
        self.loose, self.packs, self.alts = {}, [], []

    def add_loose(self, typ, data):
        rng = self.c.rng
        ref.write_loose(self.root, typ, data, gen.deflate(rng, ref.loose_bytes(typ, data)))
        self.loose[ref.oid(typ, data)] = (typ, data)
        d = os.path.join(self.root, ref.oid(typ, data).hex()[:2])
        if self.linking and rng.random() < .06 and not os.path.islink(d):
            # kept elsewhere
            other = os.path.join(self.c.tmp, "elsewhere%d" % rng.randrange(10**9))
            os.rename(d, other)
            os.symlink(other if self.absolute and rng.random() < .5 else os.path.relpath(other, self.root), d)
            self.c.ev("linked directories")

    def add_pack(self, entries):
        ref.write_pack_files(self.c.rng, os.path.join(self.root, "pack"), entries)
        self.packs.append({e.sha: (e.type, e.data) for e in entries})

    def spell(self, other):
        """a path of the other one's objects directory, as bytes"""
        rng = self.c.rng
        p, k = other.root, rng.random()
        if k < .3:
            p = os.path.relpath(p, self.root)
        elif k < .35:
            p = os.path.join(self.root, "..", os.path.relpath(p, os.path.dirname(self.root)))
        elif k < .45:
            link = os.path.join(self.c.tmp, "link%d" % rng.randrange(10**6))
            os.symlink(p, link)
            p = link if rng.random() < .5 else os.path.relpath(link, self.root)
        elif k < .5:
            p += rng.choice(("/", "/.", "//"))
        return os.fsencode(p)

    def write_alts(self):
        rng = self.c.rng
        lines = [self.spell(a) for a in self.alts]
        if rng.random() < .3:
            lines.insert(rng.randint(0, len(lines)), rng.choice((os.fsencode(os.path.join(self.c.tmp, "does-not-exist")), b"../../nowhere", b"\xff/\xfe", b"info/alternates")))
        if rng.random() < .1:
            lines.insert(rng.randint(0, len(lines)), rng.choice((b"", b"# of the others", b"#")))
        with open(os.path.join(self.root, "info", "alternates"), "wb") as f:
            f.write(b"\n".join(lines) + rng.choice((b"\n", b"\n", b"")))

    def own(self):
        m = dict(self.loose)
        for p in self.packs:
            m.update(p)
        return m

    def reach(self, seen=None):
        """us and all others we refer to, directly or not"""
        seen = [] if seen is None else seen
        if self not in seen:
            seen.append(self)
            for a in self.alts:
                a.reach(seen)
        return seen

    def all(self):
        m = {}
        for r in self.reach():
            m.update(r.own())
        return m

    def cyclic(self):
        return any(r in a.reach() for r in self.reach() for a in r.alts)

    def count(self, sha):
        return sum((sha in r.loose) + sum(sha in p for p in r.packs) for r in self.reach())

    def entries_total(self):
        return len(self.loose) + sum(map(len, self.packs)) + sum(a.entries_total() for a in self.alts)

    def where(self, sha):
        return (sha in self.loose, sum(sha in p for p in self.packs), sum(sha in r.own() for r in self.reach()[1:]))


ODD = (b" space ", b"\xff\xfe", b"\xe2\x80\xa8sep", b"\xc2\x85nel", b"tab\tfeed\x0c", b"\x1c\x1d", b"cr\rin", b"'quote\"", b"#hash", b"back\\slash", b"\xed\xa0\x80", b"%41", b"*?[a]", b"$HOME", b"~",
       b"\xef\xbb\xbfbom", b"e\xcc\x81")


def wipe(p):
    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def foreign(c, r):
    """files that are no objects"""
    rng = c.rng
    for n in rng.sample(("pack/pack-1234.keep", "pack/tmp_pack_abc", "info/packs", "pack/multi-pack-index.tmp", "tmp_obj_xyz", "info/commit-graph",
                         "pack/pack-%040d.pack" % 0, "pack/pack-zz.rev", "pack/other.txt"), rng.randint(0, 4)):
        with open(os.path.join(r.root, n), "wb") as f:
            f.write(b"foreign")
    if r.loose and rng.random() < .4:
        h = rng.choice(list(r.loose)).hex()
        with open(os.path.join(r.root, h[:2], "tmp_obj_abcdef"), "wb") as f:
            f.write(b"foreign")
    # names which look much like those of objects
    for _ in range(rng.choice((0, 0, 1, 3))):
        h = rng.randbytes(20).hex()
        n = rng.choice((("zz", h[2:]), (h[:2], "x" + h[3:]), (h[:2], h[2:39] + "g"), ("pack/" + h[:2], h[2:]), ("A" + rng.choice("0123456789"), h[2:]),
                        (h[:2], h[2:] + "0"), (h[:2], h[3:]), (h[:2] + "0", h[3:] + "0"), (h[:2], h[2:] + ".lock"), (h[0] + "\xe4", h[2:]), (h[:2], h[2:20] + "-" + h[21:]),
                        (h[:2] + "/" + h[2:4], h[2:])))
        os.makedirs(os.path.join(r.root, n[0]), exist_ok=True)
        with open(os.path.join(r.root, *n), "wb") as f:
            f.write(b"foreign")
    if rng.random() < .1:
        h = rng.randbytes(20).hex()
        os.makedirs(os.path.join(r.root, h[:2], h[2:]), exist_ok=True)
    if rng.random() < .1 and os.path.isdir(os.path.join(r.root, "pack")):
        os.mkdir(os.path.join(r.root, "pack", "pack-%s.pack" % rng.randbytes(20).hex()))


def fill(c, r, pool, n):
    rng = c.rng
    for k in range(rng.choice((0, 1, 1, 2, 4))):
        es = ref.random_entries(rng, rng.randint(1, n), 4000)
        if not es:
            continue
        # overlap with what exists elsewhere
        for typ, data in rng.sample(list(pool.values()), min(len(pool), rng.choice((0, 0, 2, 5)))):
            e = ref.Entry(typ, data)
            if all(e.sha != x.sha for x in es):
                es.append(e)
        r.add_pack(es)
        pool.update({e.sha: (e.type, e.data) for e in es})
    for k in range(rng.randint(0, n)):
        if pool and rng.random() < .3:
            typ, data = rng.choice(list(pool.values()))
        else:
            typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))
        r.add_loose(typ, data)
        pool[ref.oid(typ, data)] = (typ, data)


def enumerate_(c, db, model, what, total=None):
    ids = [bytes(s) for s in db.sha_iter()]
    c.ev("enumerations")
    if set(ids) != set(model):
        c.fail(what + ": enumeration is not the set of held ids", "missing %d" % len(set(model) - set(ids)), "extra %d" % len(set(ids) - set(model)))
    c.eq(db.size(), len(ids), what + ": size() and the length of the enumeration")
    if total is not None:
        c.eq(len(ids), total, what + ": number of enumerated entries over all sources")


def enumerate_while(c, db, model, store, what):
    """an enumeration which is under way while objects are stored"""
    rng = c.rng
    present = set(model())
    it = iter(db.sha_iter())
    ids = [bytes(s) for s in itertools.islice(it, rng.randint(0, 1 + len(present) // 2))]
    for _ in range(rng.randint(1, 4)):
        store()
    ids += map(bytes, it)
    c.check(present <= set(ids) <= set(model()), what + ": enumeration while objects are stored", "missing %d" % len(present - set(ids)), "extra %d" % len(set(ids) - set(model())))
    c.ev("enumerations during stores")


def world(c):
    rng = c.rng
    pool = {}
    names = ["main", "älter nate", "third [1]", "fourth"]
    for i in range(4):
        if rng.random() < .25:
            names[i] = "%d%s" % (i, os.fsdecode(rng.choice(ODD)))
    repos = [Repo(c, n) for n in names[:rng.choice((1, 1, 2, 3, 4))]]
    for r in repos:
        r.linking = True
    for r in reversed(repos):
        fill(c, r, pool, rng.choice((3, 8, 15)))
    for i, r in enumerate(repos[:-1]):
        later = repos[i + 1:]
        r.alts = rng.sample(later, rng.randint(1, len(later))) if i == 0 or rng.random() < .5 else []
    if rng.random() < .3:
        # they may refer to each other, and to themselves
        for _ in range(rng.randint(1, 3)):
            r, o = rng.choice(repos), rng.choice(repos)
            if o not in r.alts:
                r.alts.insert(rng.randint(0, len(r.alts)), o)
    if repos[0].cyclic():
        c.ev("alternates in cycles")
    for r in repos:
        if r.alts or rng.random() < .2:
            r.write_alts()
    for r in repos:
        foreign(c, r)
    main = repos[0]
    if not main.packs and rng.random() < .5:
        for f in os.listdir(os.path.join(main.root, "pack")):
            wipe(os.path.join(main.root, "pack", f))
        os.rmdir(os.path.join(main.root, "pack"))

    def targets():
        out = [("git", GitDB(main.root), main.all, main)]
        if os.path.isdir(os.path.join(main.root, "pack")):
            out.append(("packed", PackedDB(os.path.join(main.root, "pack")), lambda: {k: v for p in main.packs for k, v in p.items()}, None))
        out.append(("loose", LooseObjectDB(main.root), lambda: main.loose, None))
        if main.alts and main not in (x for a in main.alts for x in a.reach()):
            out.append(("reference", ReferenceDB(os.path.join(main.root, "info", "alternates")),
                        lambda: {k: v for a in main.alts for k, v in a.all().items()}, None))
        if main.alts:
            out.append(("alternate git", GitDB(main.alts[0].root), main.alts[0].all, main.alts[0]))
        return out
    ts = targets()
    c.log("repositories", str([(len(r.loose), [len(p) for p in r.packs], len(r.alts)) for r in repos]))
    c.sample(repositories=[(len(r.loose), [len(p) for p in r.packs], len(r.alts)) for r in repos], ids=len(pool))

    def store(kind, db):
        if pool and rng.random() < .5:
            typ, data = rng.choice(list(pool.values()))
        else:
            typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))
        sha = db.store(istream(rng, typ, data)).binsha
        c.eq(bytes(sha), ref.oid(typ, data), "stored id")
        main.loose[bytes(sha)] = pool[bytes(sha)] = (typ, data)
        check_present(c, db, bytes(sha), typ, data, kind + " after the store,")
        c.ev("stores")
    for step in range(rng.choice((5, 30, 30))):
        kind, db, model, r = rng.choice(ts)
        m = model()
        op = rng.random()
        if op < .5 and pool:
            sha = rng.choice(list(pool))
            if sha in m:
                check_present(c, db, sha, *m[sha], kind + ",")
                n = r.count(sha) if r else 1
                if n > 1:
                    c.ev("objects in several sources")
                c.sig(kind, r.where(sha) if r else 1, "present")
            else:
                check_absent(c, db, sha, kind + " (held by another database),")
                c.sig(kind, main.where(sha), "absent")
        elif op < .75:
            for sha in near_ids(rng, m, 1):
                if sha not in m:
                    check_absent(c, db, sha, kind + ",")
        elif op < .9:
            enumerate_(c, db, m, kind, r.entries_total() if r and not r.cyclic() else None)
            c.sig(kind, len(m), "enumeration")
        elif kind in ("git", "loose"):
            store(kind, db)
        elif op < .95:
            enumerate_while(c, db, model, lambda: store("loose", next(t[1] for t in ts if t[0] == "loose")), kind)
        if rng.random() < .04 and kind in ("git", "loose"):
            enumerate_while(c, db, model, lambda: store(kind, db), kind)
        if rng.random() < .05:
            ts = targets()
    for kind, db, model, r in ts:
        m = model()
        enumerate_(c, db, m, kind + " at the end")
        for sha in rng.sample(list(m), min(8, len(m))):
            check_present(c, db, sha, *m[sha], kind + " at the end,")


def memory(c):
    rng = c.rng
    db, m = MemoryDB(), {}
    other = {}
    for k in range(rng.randint(0, 25)):
        typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))
        sha = ref.oid(typ, data)
        if rng.random() < .3:
            other[sha] = 1
            continue
        db.store(istream(rng, typ, data))
        m[sha] = (typ, data)
        s = rng.choice(list(m))
        check_present(c, db, s, *m[s], "memory,")
        c.sig("memory", len(data), typ)
        if rng.random() < .1:
            def store():
                typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))
                m[bytes(db.store(istream(rng, typ, data)).binsha)] = (typ, data)
            enumerate_while(c, db, lambda: m, store, "memory")
    for sha in list(other) + near_ids(rng, m, 2):
        if sha not in m:
            check_absent(c, db, sha, "memory,")
    enumerate_(c, db, m, "memory", len(m))


def manypacks(c):
    """enough hits to let the packs be reordered, several times"""
    rng = c.rng
    packs, allm = [], {}
    for k in range(rng.randint(3, 8)):
        es = ref.random_entries(rng, rng.randint(1, 20), 200)
        for t, d in rng.sample(list(allm.values()), min(len(allm), 3)):
            e = ref.Entry(t, d)
            if all(x.sha != e.sha for x in es):
                es.append(e)
        ref.write_pack_files(rng, c.tmp, es)
        m = {e.sha: (e.type, e.data) for e in es}
        packs.append(m)
        allm.update(m)
    db = PackedDB(c.tmp)
    n = 0
    for phase in range(4):
        hot = list(packs[rng.randrange(len(packs))])
        for k in range(rng.choice((400, 501, 700))):
            sha = rng.choice(hot)
            if not db.has_object(sha):
                c.fail("has_object() is False for a packed object", sha.hex(), "lookup %d" % n)
            n += 1
            if k % 10 == 0:
                s = rng.choice(list(allm))
                i = db.info(s)
                check_info(c, i, s, allm[s][0], len(allm[s][1]), "after %d lookups" % n)
                n += 1
            if k % 97 == 0:
                s = rng.choice(list(allm))
                c.eq(db.stream(s).read(), allm[s][1], "content after %d lookups" % n)
                for x in near_ids(rng, allm, 1)[:4]:
                    check_absent(c, db, x, "after %d lookups" % n)
        enumerate_(c, db, allm, "after %d lookups" % n, sum(map(len, packs)))
    c.ev("lookups in many packs", n)
    c.sig("many", len(packs), n)


def foreignowner(c):
    """the files belong to somebody else, as with shared repositories and alternates of other users"""
    rng = c.rng
    r = Repo(c, "main")
    r.linking = True
    r.absolute = False
    pool = {}
    fill(c, r, pool, 6)
    while len(r.loose) < 3:
        r.add_loose(gen.otype(rng), gen.content(rng, gen.size(rng, 20000)))
    if os.geteuid() != 0:
        return
    for root, dirs, files in os.walk(c.tmp):
        os.chmod(root, 0o755)
        for f in files:
            os.chmod(os.path.join(root, f), 0o444)
    rel = os.path.relpath(r.root, c.tmp)
    m = r.own()
    order = [rng.choice(list(m)) for k in range(12)]
    absent = [x for x in near_ids(rng, m, 2) if x not in m]

    def body():
        os.chdir(c.tmp)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            return ("skipped", 0)
        for kind, db, mod in (("git", GitDB(rel), m), ("loose", LooseObjectDB(rel), r.loose)):
            for sha in order:
                if sha in mod:
                    check_present(c, db, sha, *mod[sha], kind + ", files of another user,")
                else:
                    check_absent(c, db, sha, kind + ", files of another user,")
            for sha in absent:
                check_absent(c, db, sha, kind + ", files of another user,")
            enumerate_(c, db, mod, kind + ", files of another user")
        return ("ok", len(order))
    res = crash.child(body)[1]
    if res[0] != "ok":
        c.fail("reading as another user failed", res[1], res[2])
    what, n = res[1]
    if what == "ok":
        c.ev("reads of another user's files", n)
        c.sig("foreign", len(m), len(r.loose))


def answers(arg):
    """what databases answer, see started()"""
    out = []
    for kind, path in arg["dbs"]:
        db = {"git": GitDB, "loose": LooseObjectDB, "packed": PackedDB, "reference": ReferenceDB}[kind](os.fsdecode(bytes.fromhex(path)))
        a = {"ids": sorted({bytes(x).hex() for x in db.sha_iter()}), "size": db.size(), "objects": []}
        for h in arg["ask"]:
            x = bytes.fromhex(h)
            if db.has_object(x):
                i, s = db.info(x), db.stream(x)
                a["objects"].append((h, i.type.decode("ascii"), i.size, ref.oid(s.type, s.read()).hex()))
        out.append(a)
    return out


def started(c):
    """interpreters started in other ways give the same answers"""
    rng = c.rng
    pool = {}
    names = ["main"] + ["%d%s" % (i, rng.choice(("x", "älter nate", os.fsdecode(rng.choice(ODD))))) for i in range(rng.choice((1, 2, 3)))]
    if rng.random() < .3:
        names[0] += "ß"
    repos = [Repo(c, n) for n in names]
    for r in repos:
        r.linking = True
    for r in repos:
        fill(c, r, pool, 4)
    for i, r in enumerate(repos[:-1]):
        r.alts = rng.sample(repos[i + 1:], 1 if i else rng.randint(1, len(repos) - 1))
        r.write_alts()
    main = repos[0]
    dbs = [("git", main.root, main.all()), ("loose", main.root, main.loose), ("packed", os.path.join(main.root, "pack"), {k: v for p in main.packs for k, v in p.items()}),
           ("reference", os.path.join(main.root, "info", "alternates"), {k: v for a in main.alts for k, v in a.all().items()})]
    ask = list(pool) + near_ids(rng, pool, 1)
    way = rng.choice(list(sub.WAYS))
    got = sub.call(c, way, "checks.c08:answers", {"dbs": [(k, os.fsencode(p).hex()) for k, p, _ in dbs], "ask": [x.hex() for x in ask]})
    for (kind, path, m), a in zip(dbs, got):
        what = "%s, in an interpreter started %s:" % (kind, way)
        c.eq(a["ids"], sorted(x.hex() for x in m), what + " ids")
        c.eq([tuple(x) for x in a["objects"]], [(x.hex(), m[x][0].decode("ascii"), len(m[x][1]), x.hex()) for x in ask if x in m], what + " objects")
        c.ev("answers of other interpreters", len(ask))
    c.sig(way, len(repos))


FAMILIES = [("started", started, 40, 400), ("world", world, 500, 6000), ("memory", memory, 60, 800), ("manypacks", manypacks, 12, 200), ("foreignowner", foreignowner, 20, 200)]
