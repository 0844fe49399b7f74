from vlib.world import *
from checks.c08 import Repo, enumerate_, fill
import hashlib
import shutil

LEVEL = "exploration"
RULE = ("one case = one open database and a random history of external changes (packs added/removed/moved away and back, loose objects added/packed/"
        "deleted, alternates and pack directory appearing/changing/disappearing), stores and queries; after each forced update all answers are "
        "compared with the model of the disk and with a newly opened database; distinct = (database kind, kinds of changes since the last update, "
        "queries before)")
MORE = 4
REQUIRE = {"updates": 600, "external changes": 1440, "object checks": 3000, "absence checks": 3000, "own stores": 100,
           "packs repaired": 50, "packs replaced": 40}


class Live(Repo):
    """a repository whose disk state is changed from outside; packs carry their path"""

    def __init__(self, c, name):
        super().__init__(c, name)
        self.files = []         # [path without extension, {sha: ..}] of present packs
        self.away = []

    def add_pack(self, entries):
        p, _ = ref.write_pack_files(self.c.rng, os.path.join(self.root, "pack"), entries)
        m = {e.sha: (e.type, e.data) for e in entries}
        self.files.append((p[:-5], m))
        self.packs.append(m)

    def has_packdir(self):
        return os.path.isdir(os.path.join(self.root, "pack"))

    def freeze(self):
        """remember the time stamps of all directories, to be restored by thaw()"""
        self.times = {d: os.stat(d).st_mtime_ns for d, _, _ in os.walk(self.root)}

    def thaw(self):
        for d, t in self.times.items():
            if os.path.isdir(d):
                os.utime(d, ns=(t, t))

    def change(self, pool, others):
        """-> name of the change or None"""
        c, rng = self.c, self.c.rng
        k = rng.randrange(14)
        if k <= 1:
            if not self.has_packdir():
                return None
            es = ref.random_entries(rng, rng.randint(1, 8), 2000)
            if not es:
                return None
            if rng.random() < .4:
                for t, d in rng.sample(list(pool.values()), min(3, len(pool))):
                    e = ref.Entry(t, d)
                    if all(x.sha != e.sha for x in es):
                        es.append(e)
            self.add_pack(es)
            pool.update(self.packs[-1])
            return "pack added"
        if k == 2 and self.files:
            i = rng.randrange(len(self.files))
            p, m = self.files.pop(i)
            self.packs.remove(m)
            exts = [".pack", ".idx"]
            rng.shuffle(exts)
            for x in exts:
                os.unlink(p + x)
            return "pack removed"
        if k == 3 and self.files:
            i = rng.randrange(len(self.files))
            p, m = self.files.pop(i)
            self.packs.remove(m)
            q = os.path.join(os.path.dirname(self.root), os.path.basename(p))
            for x in (".pack", ".idx"):
                os.rename(p + x, q + x)
            self.away.append((p, q, m))
            return "pack moved away"
        if k == 4 and self.away and self.has_packdir():
            p, q, m = self.away.pop(rng.randrange(len(self.away)))
            for x in (".pack", ".idx"):
                os.rename(q + x, p + x)
            self.files.append((p, m))
            self.packs.append(m)
            return "pack moved back"
        if k in (5, 6):
            t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 2000))
            if pool and rng.random() < .5:
                t, d = rng.choice(list(pool.values()))
            self.add_loose(t, d)
            pool[ref.oid(t, d)] = (t, d)
            return "loose added"
        if k in (7, 8) and self.loose:
            for s in rng.sample(list(self.loose), rng.randint(1, min(3, len(self.loose)))):
                del self.loose[s]
                p = ref.loose_path(self.root, s)
                os.unlink(p)
                if rng.random() < .5 and not os.listdir(os.path.dirname(p)):
                    os.rmdir(os.path.dirname(p))
            return "loose deleted"
        if k == 9 and self.loose:
            if not self.has_packdir():
                os.mkdir(os.path.join(self.root, "pack"))
            take = rng.sample(list(self.loose), rng.randint(1, len(self.loose)))
            self.add_pack([ref.Entry(*self.loose[s]) for s in take])
            for s in take:
                del self.loose[s]
                os.unlink(ref.loose_path(self.root, s))
            return "loose packed"
        if k == 10:
            d = os.path.join(self.root, "pack")
            if self.has_packdir() and not self.files:
                shutil.rmtree(d)
                return "pack directory removed"
            if not self.has_packdir():
                os.mkdir(d)
                return "pack directory created"
            return None
        if k == 11 and others:
            self.alts = rng.sample(others, rng.randint(0, len(others)))
            if self.alts or rng.random() < .3:
                self.write_alts()
            elif os.path.exists(os.path.join(self.root, "info", "alternates")):
                os.unlink(os.path.join(self.root, "info", "alternates"))
            else:
                return None
            return "alternates changed"
        if k == 12 and len(self.files) > 1:
            # consolidate all packs
            m = {}
            for p, x in self.files:
                m.update(x)
            old = list(self.files)
            self.files, self.packs = [], []
            es = [ref.Entry(*v) for v in m.values()]
            rng.shuffle(es)
            self.add_pack(es)
            for p, _ in old:
                os.unlink(p + ".idx")
                os.unlink(p + ".pack")
            return "packs consolidated"
        if k == 13 and self.files:
            # another pack, or the same objects stored differently, under the name of a present one
            i = rng.randrange(len(self.files))
            p, m = self.files[i]
            how = rng.choice(("renamed", "removed first"))
            same = rng.random() < .4
            es = [ref.Entry(*v) for v in m.values()] if same else ref.random_entries(rng, rng.randint(1, 8), 2000)
            if not es:
                return None
            rng.shuffle(es)
            new = os.path.join(self.root, "new")
            os.mkdir(new)
            q, _ = ref.write_pack_files(rng, new, es)
            replace_files(rng, q[:-5], p, how)
            shutil.rmtree(new)
            x = {e.sha: (e.type, e.data) for e in es}
            self.packs[[z is m for z in self.packs].index(True)] = x
            self.files[i] = [p, x]
            pool.update(x)
            c.ev("packs replaced")
            return "pack replaced" + (" by one with the same objects" if same else "")
        return None


def replace_files(rng, src, dst, how):
    exts = [".pack", ".idx"]
    rng.shuffle(exts)
    if how == "removed first":
        for x in exts:
            os.unlink(dst + x)
    for x in exts:
        os.rename(src + x, dst + x)


def stale(c, db, pool, enum=True):
    """queries whose answers may be out of date; they fill the caches"""
    rng = c.rng
    for sha in rng.sample(list(pool), min(len(pool), rng.choice((1, 5, 20)))):
        for q in rng.sample(("has_object", "info", "stream"), rng.randint(1, 3)):
            try:
                getattr(db, q)(sha)
            except Exception:
                pass
    if enum and rng.random() < .3:
        try:
            list(db.sha_iter())
            db.size()
        except Exception:
            pass


def compare(c, kind, db, fresh, model, pool, changes):
    rng = c.rng
    what = kind + " updated after " + ", ".join(changes or ["nothing"]) + ":"
    enumerate_(c, db, model, what)
    c.eq(sorted(map(bytes, db.sha_iter())), sorted(map(bytes, fresh.sha_iter())), what + " enumeration compared with a new database")
    for sha in pool:
        if sha in model:
            check_present(c, db, sha, *model[sha], what, reads="all" if rng.random() < .3 else "none")
        else:
            check_absent(c, db, sha, what)
    if model and rng.random() < .5 and hasattr(db, "partial_to_complete_sha_hex"):
        sha = rng.choice(list(model))
        c.eq(bytes(db.partial_to_complete_sha_hex(sha.hex()[:30])), sha, what + " prefix")
        gone = [s for s in pool if s not in model]
        if gone:
            s = rng.choice(gone)
            c.raises(BadObject, lambda: db.partial_to_complete_sha_hex(s.hex()[:30]), what + " prefix of a vanished id")


def hammer(c, db, m):
    """ask often enough for the packs which are hit to be preferred"""
    rng = c.rng
    if m and rng.random() < .06:
        few = rng.sample(list(m), min(len(m), rng.choice((1, 2, 5))))
        for k in range(rng.choice((501, 520, 1200))):
            sha = rng.choice(few)
            if not db.has_object(sha):
                c.fail("an object is not found any more after %d queries" % k, sha.hex())
        c.ev("series of many queries")


def history(c):
    rng = c.rng
    pool = {}
    repos = [Live(c, n) for n in ("main", "alt", "alt2")[:rng.choice((1, 2, 3))]]
    for r in repos:
        if rng.random() < .7:
            fill(c, r, pool, 5)
    for i, r in enumerate(repos[:-1]):
        if rng.random() < .6:
            r.alts = rng.sample(repos[i + 1:], rng.randint(1, len(repos) - i - 1))
            r.write_alts()
    # whether they may refer to those using them
    loops = rng.random() < .25
    main = repos[0]
    if not main.files and rng.random() < .4:
        os.rmdir(os.path.join(main.root, "pack"))
    kind = rng.choice(("git", "git", "git", "packed", "reference", "loose"))
    altf = os.path.join(main.root, "info", "alternates")
    if kind == "packed" and not main.has_packdir():
        os.mkdir(os.path.join(main.root, "pack"))
    mk = {"git": lambda: GitDB(main.root), "packed": lambda: PackedDB(os.path.join(main.root, "pack")),
          "reference": lambda: ReferenceDB(altf), "loose": lambda: LooseObjectDB(main.root)}[kind]
    model = {"git": main.all, "packed": lambda: {k: v for p in main.packs for k, v in p.items()},
             "reference": lambda: {k: v for a in main.alts for k, v in a.all().items()}, "loose": lambda: main.loose}[kind]
    db = mk()
    if rng.random() < .6:
        compare(c, kind, db, mk(), model(), pool, ["opening"])
    trail = []
    for rnd in range(rng.randint(1, 6)):
        changes = []
        queried = rng.random() < .8
        frozen = rng.random() < .3
        if frozen:
            # file systems with coarse time stamps, or restored time stamps
            for r in repos:
                r.freeze()
            c.ev("changes without new time stamps")
        if queried:
            stale(c, db, pool)
        hammer(c, db, model())
        for k in range(rng.choice((1, 1, 2, 4, 8))):
            r = rng.choice(repos)
            if kind == "packed" and r is main:
                had = main.has_packdir()
            ch = r.change(pool, repos if loops and kind != "reference" else repos[repos.index(r) + 1:])
            if kind == "packed" and not main.has_packdir():
                os.mkdir(os.path.join(main.root, "pack"))
            if ch:
                changes.append(("" if r is main else "alternate's ") + ch)
                c.ev("external changes")
                c.log(changes[-1])
            if rng.random() < .3:
                stale(c, db, pool)
        if kind in ("git", "loose") and rng.random() < .4:
            t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 2000))
            if pool and rng.random() < .5:
                t, d = rng.choice(list(pool.values()))
            sha = bytes(db.store(istream(rng, t, d)).binsha)
            main.loose[sha] = pool[sha] = (t, d)
            c.ev("own stores")
            check_present(c, db, sha, t, d, kind + " after its own store,")
        if frozen:
            for r in repos:
                r.thaw()
        if main.cyclic():
            c.ev("updates with alternates in cycles")
        r = db.update_cache(force=True)
        c.ev("updates")
        c.log("update ->", str(r))
        compare(c, kind, db, mk(), model(), pool, changes)
        c.sig(kind, tuple(sorted(set(changes)))[:5], queried)
        trail.append(changes)
    c.sample(kind=kind, rounds=trail)
    del db
    collect()


def vanish(c):
    """directories of alternates disappear and come back"""
    rng = c.rng
    pool = {}
    main, alt, alt2 = Live(c, "main"), Live(c, "alt"), Live(c, "alt2")
    for r in (main, alt, alt2):
        fill(c, r, pool, 4)
    main.alts = [alt, alt2]
    main.write_alts()
    db = GitDB(main.root)
    if rng.random() < .7:
        stale(c, db, pool)
    gone = rng.choice((alt, alt2))
    os.rename(gone.root, gone.root + ".away")
    keep = [a for a in main.alts if a is not gone]
    main.alts = keep
    db.update_cache(force=True)
    c.ev("updates")
    c.ev("external changes")
    compare(c, "git", db, GitDB(main.root), main.all(), pool, ["directory of an alternate vanished"])
    os.rename(gone.root + ".away", gone.root)
    main.alts = [alt, alt2]
    db.update_cache(force=True)
    c.ev("updates")
    compare(c, "git", db, GitDB(main.root), main.all(), pool, ["directory of an alternate came back"])
    c.sig("vanish", gone is alt, len(pool))
    del db
    collect()


def repaired(c):
    """a damaged or incomplete pack is replaced or completed while the database is open"""
    rng = c.rng
    pool = {}
    main = Live(c, "main")
    fill(c, main, pool, 4)
    es = ref.random_entries(rng, rng.randint(1, 8), rng.choice((300, 6000, 200000)))
    if not es:
        return
    main.add_pack(es)
    pool.update(main.packs[-1])
    p = main.files[-1][0]
    good = {x: open(p + x, "rb").read() for x in (".pack", ".idx")}
    harm = []
    for x in rng.choice(((".pack",), (".pack",), (".idx",), (".pack", ".idx"))):
        d = good[x]
        k = rng.choice(("cut", "cut", "garbled", "emptied", "missing", "other"))
        if k == "cut":
            d = d[:rng.choice((rng.randint(1, len(d) - 1), rng.randint(max(1, len(d) - 40), len(d) - 1), min(12, len(d) - 1)))]
        elif k == "garbled":
            d = bytearray(d)
            for _ in range(rng.choice((1, 1, 5, 50))):
                d[rng.choice((rng.randrange(len(d)), rng.randrange(min(len(d), 1100))))] = rng.randrange(256)
        elif k == "emptied":
            d = b""
        elif k == "other":
            d = rng.randbytes(len(d))
        os.unlink(p + x)
        if k != "missing":
            with open(p + x, "wb") as f:
                f.write(d)
            # far from the time stamp of the intact one
            os.utime(p + x, ns=(1, os.stat(p + x).st_mtime_ns - 10**9))
        harm.append((x, k))
    kind = rng.choice(("git", "git", "packed", "reference"))
    user = Live(c, "user")
    user.alts = [main]
    with open(os.path.join(user.root, "info", "alternates"), "wb") as f:
        f.write(os.fsencode(main.root) + b"\n")
    pd = os.path.join(main.root, "pack")
    mk = {"git": lambda: GitDB(main.root), "packed": lambda: PackedDB(pd), "reference": lambda: ReferenceDB(os.path.join(user.root, "info", "alternates"))}[kind]
    model = main.all()
    if kind == "packed":
        model = {k: v for m in main.packs for k, v in m.items()}
    dbs = [mk() for _ in range(rng.choice((1, 1, 2)))]
    kept = []
    for _ in range(rng.randint(0, 3)):
        db = rng.choice(dbs)
        # a garbled index may announce billions of ids
        stale(c, db, pool, enum=False)
        if rng.random() < .4:
            try:
                db.update_cache(force=True)
            except Exception:
                pass
        if rng.random() < .5:
            try:
                kept.append(db.stream(rng.choice(es).sha))
            except Exception:
                pass
    how = rng.choice(("renamed", "removed first", "in place", "in place"))
    for x, k in rng.sample(harm, len(harm)):
        if k == "missing" or how != "in place":
            if k != "missing" and how == "removed first":
                os.unlink(p + x)
            with open(p + x + ".new", "wb") as f:
                f.write(good[x])
            os.rename(p + x + ".new", p + x)
            continue
        with open(p + x, "r+b") as f:
            at = 0
            while at < len(good[x]):
                n = rng.choice((len(good[x]), rng.randint(1, len(good[x]))))
                f.write(good[x][at:at + n])
                f.flush()
                at += n
                if rng.random() < .3:
                    stale(c, rng.choice(dbs), pool, enum=False)
                    c.ev("queries while a pack is being completed")
    c.sig("repaired", kind, tuple(harm), how)
    c.log("repaired", kind, str(harm), how)
    c.sample(kind=kind, harm=harm, how=how, databases=len(dbs))
    for db in dbs:
        db.update_cache(force=True)
        c.ev("updates")
        c.ev("packs repaired")
        c.ev("external changes")
        compare(c, kind, db, mk(), model, pool, ["a pack with its %s was repaired (%s)" % (" and ".join("%s %s" % h for h in harm), how)])
    del db, dbs, kept
    collect()


FAMILIES = [("repaired", repaired, 160, 2500), ("history", history, 500, 9000), ("vanish", vanish, 12, 200)]
