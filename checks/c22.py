from vlib.world import *
from vlib import crash, shim
from checks.c08 import Repo, fill
import zlib
from gitdb.stream import Sha1Writer, ZippedStoreShaWriter

NEEDS_SHIM = True
LEVEL = "exploration"
RULE = ("one case = a history of queries, refreshes, stores (new, repeated, verbatim, redirected, failing, transferred from memory) and pack creations "
        "on one repository; every operation is bracketed by snapshots (inode, mode, mtime, bytes of every file) and a log of all file-system calls "
        "that modify something; distinct = (operation, outcome, where the object was before)")
MORE = 1.5
REQUIRE = {"queries watched": 3800, "stores watched": 1150, "stores of present objects": 370, "packs created": 100, "new object files": 500,
           "modifying calls seen": 5000, "packs created again": 30, "failing stores": 80,
           "stores of another user's objects": 150}


class Watch:
    """brackets one operation"""

    def __init__(self, c, root):
        self.c, self.root = c, root
        self.before = snapshot(root)

    def run(self, fn):
        """-> (result, exception)"""
        c = self.c
        shim.arm(self.root, shim.COUNT)
        try:
            r, e = fn(), None
        except (BadObject, AmbiguousObjectName, ValueError, OSError, UnsupportedOperation, zlib.error, gitdb.exc.ODBError) as x:
            r, e = None, x
        self.events = shim.events()
        shim.disarm()
        self.after = snapshot(self.root)
        c.ev("modifying calls seen", len(self.events))
        return r, e

    def unchanged(self, what):
        """a query"""
        c = self.c
        c.ev("queries watched")
        if self.events:
            c.fail(what + ": modifies the file system", "%r" % self.events[:6])
        if self.after != self.before:
            c.fail(what + ": directory changed", self.diff())
        self.before = self.after

    def diff(self):
        b, a = self.before, self.after
        return "added %s removed %s changed %s" % (sorted(set(a) - set(b))[:4], sorted(set(b) - set(a))[:4], sorted(p for p in b if p in a and a[p] != b[p])[:4])

    def only_added(self, allowed, what):
        """nothing that existed was touched, only allowed paths were added; -> added paths"""
        c = self.c
        b, a = self.before, self.after
        for p, v in b.items():
            w = a.get(p)
            if w is None:
                c.fail(what + ": removed " + p)
            if v[0] == "dir":
                if w[:2] != v[:2]:
                    c.fail(what + ": directory replaced " + p)
            else:
                if (w[0], w[1]) != (v[0], v[1]):
                    c.fail(what + ": file replaced by another one " + p)
                if w[3:5] != v[3:5]:
                    c.fail(what + ": file written to " + p)
                if w[5] != v[5]:
                    c.fail(what + ": content changed " + p)
                if w[2] != v[2]:
                    c.fail(what + ": mode of a file changed " + p, oct(v[2]), oct(w[2]))
        old = {os.path.join(self.root, p) for p, v in b.items() if v[0] == "file"}
        for e in self.events:
            if e.op in ("open", "write", "truncate", "unlink") and e.path in old:
                c.fail(what + ": %s of an existing file" % e.op, "%r" % e)
            if e.op in ("rename", "link") and (e.path in old or (e.path2 in old and e.ret == 0)):
                c.fail(what + ": %s of or over an existing file" % e.op, "%r" % e)
            if e.op in ("utime", "chmod") and e.path in old:
                c.fail(what + ": %s of an existing file" % e.op, "%r" % e)
        added = set(a) - set(b)
        extra = added - set(allowed)
        if extra:
            c.fail(what + ": added " + str(sorted(extra)[:5]))
        self.before = a
        return added


def obj_paths(sha):
    h = sha.hex()
    return {h[:2], os.path.join(h[:2], h[2:])}


def clutter(c, r):
    """files of others, of which some are old or look like something that was left behind"""
    rng = c.rng
    dirs = [d for d in sorted(os.listdir(r.root)) if len(d) == 2] or ["ab"]
    packs = [n[:-5] for n in os.listdir(os.path.join(r.root, "pack")) if n.endswith(".pack")]

    def name():
        x = rng.randbytes(20).hex()
        k = rng.randrange(4)
        if k == 0:
            return rng.choice(dirs) + "/" + rng.choice(("tmp_obj_" + x[:6], "obj" + x[:6], "tmp" + x[:8], x[2:] + ".lock", x[2:30], x[2:] + "~", ".nfs" + x, "tmp_" + x[:4], x[2:] + ".tmp"))
        if k == 1:
            return rng.choice(("tmp_obj_" + x[:6], "obj" + x[:6], "info/alternates.lock", "info/packs", "info/commit-graph", "gc.pid", "incoming-" + x[:6], "tmp" + x[:8]))
        if k == 2 and packs:
            return "pack/" + rng.choice(packs) + rng.choice((".keep", ".promisor", ".bitmap", ".rev", ".mtimes", ".idx.lock", ".pack.tmp"))
        return "pack/" + rng.choice(("tmp_pack_" + x[:6], "tmp_idx_" + x[:6], ".tmp-77-pack-%s.pack" % x, ".tmp-77-pack-%s.idx" % x, "multi-pack-index", "pack-%s.idx" % x, "pack" + x[:6] + ".tmp", x[:8] + ".pack",
                                     "tmp" + x[:8], ".pack-%s.pack" % x))
    for _ in range(rng.randint(0, 12)):
        p = os.path.join(r.root, name())
        if os.path.exists(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(rng.choice((b"", rng.randbytes(30), b"x\x9c")))
        os.chmod(p, rng.choice((0o644, 0o444, 0o600, 0o400)))
        if rng.random() < .6:
            os.utime(p, (rng.choice((0, 1, 10 ** 9)),) * 2)
        c.ev("files of others")
    if rng.random() < .4:
        # a directory without objects
        os.makedirs(os.path.join(r.root, "%02x" % rng.randrange(256)), exist_ok=True)


def history(c):
    rng = c.rng
    pool = {}
    r, alt = Repo(c, "main"), Repo(c, "alt")
    fill(c, alt, pool, 5)
    fill(c, r, pool, 8)
    if not r.packs:
        r.add_pack(ref.random_entries(rng, 5, 2000))
    if rng.random() < .7:
        r.alts = [alt]
        r.write_alts()
    pool.update(r.all())
    if rng.random() < .6:
        clutter(c, r)
    for p in rng.sample(list(r.loose), min(2, len(r.loose))):
        os.chmod(ref.loose_path(r.root, p), rng.choice((0o644, 0o600, 0o440, 0o444)))
    os.umask(rng.choice((0o022, 0o077, 0o000, 0o027)))
    pdir = os.path.join(r.root, "pack")
    dbs = {"git": GitDB(r.root), "loose": LooseObjectDB(r.root), "packed": PackedDB(pdir)}
    if r.alts:
        dbs["reference"] = ReferenceDB(os.path.join(r.root, "info", "alternates"))
    w = Watch(c, c.tmp)
    base = os.path.relpath(r.root, c.tmp)
    made = []

    def query(db, kind):
        sha = rng.choice(list(pool)) if rng.random() < .8 else rng.randbytes(20)
        k = rng.randrange(10)
        if k < 2:
            return "stream", lambda: db.stream(sha).read(rng.choice((-1, 10, 5000)))
        if k == 2:
            return "info", lambda: db.info(sha)
        if k == 3:
            return "has", lambda: (db.has_object(sha), sha in db)
        if k == 4:
            return "size", db.size
        if k == 5:
            return "enumeration", lambda: list(db.sha_iter())
        if k == 6:
            return "update", lambda: db.update_cache(force=rng.random() < .7)
        if k == 7 and hasattr(db, "partial_to_complete_sha_hex"):
            return "prefix", lambda: db.partial_to_complete_sha_hex(sha.hex()[:rng.randint(4, 40)])
        if k == 8:
            f = os.path.join(pdir, rng.choice([n for n in os.listdir(pdir) if n.endswith(".pack") and os.path.exists(os.path.join(pdir, n[:-5] + ".idx"))]))

            def entity():
                e = PackEntity(f)
                for x in e.info_iter():
                    e.is_valid_stream(x.binsha, use_crc=e.index().version() == 2)
                for x in e.pack().stream_iter():
                    x.read(10)
                e.index().indexfile_checksum(), e.pack().checksum()
                e.close()
            return "entity", entity
        if k == 9:
            return "open", lambda: (GitDB(r.root).has_object(sha), PackedDB(pdir).entities(), LooseObjectDB(r.root).has_object(sha))
        return "databases", lambda: getattr(db, "databases", tuple)()
    for step in range(rng.choice((10, 25, 40))):
        k = rng.random()
        kind = rng.choice(list(dbs))
        if k < .6:
            name, fn = query(dbs[kind], kind)
            _, e = w.run(fn)
            w.unchanged("%s %s" % (kind, name))
            c.sig(kind, name, e is None)
            continue
        if kind not in ("git", "loose"):
            kind = rng.choice(("git", "loose"))
        db = dbs[kind]
        if k < .9:
            known = pool and rng.random() < .5
            t, d = rng.choice(list(pool.values())) if known else (gen.otype(rng), gen.content(rng, gen.size(rng, 6000)))
            if known and r.loose and rng.random() < .5:
                t, d = rng.choice(list(r.loose.values()))
            sha = ref.oid(t, d)
            where = r.where(sha)
            present = sha in r.loose
            how = rng.choice(("store", "store", "verbatim", "redirected", "failing", "transfer"))
            what = "%s %s of %s object" % (kind, how, "a present" if present else "an" if not any(where) else "a packed")
            if how == "verbatim":
                raw = gen.deflate(rng, ref.loose_bytes(t, d))
                _, e = w.run(lambda: db.store(IStream(t, len(d), BytesIO(raw), sha)))
            elif how == "redirected":
                db.set_ostream(rng.choice((ZippedStoreShaWriter, Sha1Writer))())
                _, e = w.run(lambda: db.store(istream(rng, t, d)))
                db.set_ostream(None)
                w.unchanged(what)
                continue
            elif how == "failing":
                if not d:
                    continue
                _, e = w.run(lambda: db.store(IStream(t, len(d), gen.Source(d, "short", rng, fail_at=rng.randint(0, len(d) - 1)))))
                c.check(e is not None, what + ": no error")
                w.only_added((), what)
                c.ev("failing stores")
                continue
            elif how == "transfer":
                m = MemoryDB()
                m.store(IStream(t, len(d), BytesIO(d)))
                _, e = w.run(lambda: m.stream_copy([sha], db))
            else:
                _, e = w.run(lambda: db.store(istream(rng, t, d)))
            if e is not None:
                c.fail(what + " failed", repr(e))
            c.ev("stores watched")
            added = w.only_added({os.path.join(base, p) for p in obj_paths(sha)}, what)
            mine = os.path.join(base, sha.hex()[:2], sha.hex()[2:])
            if present:
                c.ev("stores of present objects")
                c.check(not added, what + ": something added", sorted(added))
            if mine in added:
                c.ev("new object files")
                mode = w.after[mine][2]
                c.check(mode & 0o222 == 0 and mode & 0o400, what + ": new object file is not read-only", oct(mode))
            if how != "transfer" or mine in added:
                r.loose[sha] = (t, d)
            pool[sha] = (t, d)
            c.sig(kind, how, where)
        else:
            sel = dict(rng.sample(list(pool.items()), rng.randint(0, min(6, len(pool)))))
            if made and rng.random() < .4:
                sel, lv = rng.choice(made)
                c.ev("packs created again")
            else:
                lv = rng.choice((0, 1, 9))
                made.append((sel, lv))
            objs = [OStream(s, t, len(d), BytesIO(d)) for s, (t, d) in sorted(sel.items())]
            e, x = w.run(lambda: PackEntity.create(objs, pdir, zlib_compression=lv))
            if x is not None:
                c.fail("creating a pack of %d objects failed" % len(sel), repr(x))
            p = os.path.relpath(e.pack().path(), c.tmp)
            added = w.only_added({p, p[:-5] + ".idx"}, "pack creation")
            c.check(os.path.dirname(p) == os.path.join(base, "pack"), "pack created elsewhere", p)
            c.ev("packs created")
            m = {s: v for s, v in sel.items()}
            if m not in r.packs:
                r.packs.append(m)
            c.sig("create", len(sel), bool(added))
    c.sample(loose=len(r.loose), packs=len(r.packs))
    os.umask(0o022)


def foreign(c):
    """storing what somebody else has stored before, into a directory that is shared"""
    rng = c.rng
    if os.geteuid() != 0:
        return
    os.umask(0)
    r = Repo(c, "main")
    pool = {}
    fill(c, r, pool, 5)
    while len(r.loose) < 2:
        r.add_loose(gen.otype(rng), gen.content(rng, gen.size(rng, 20000)))
    for root, dirs, files in os.walk(c.tmp):
        os.chmod(root, 0o777)
        for f in files:
            os.chmod(os.path.join(root, f), 0o444)
    sticky = rng.random() < .3
    if sticky:
        for d in os.listdir(r.root):
            os.chmod(os.path.join(r.root, d), 0o1777)
    os.chmod(c.tmp, 0o755)
    d = os.path.dirname(c.tmp)
    while "verif-" in d:
        os.chmod(d, 0o711)      # temporary files have absolute names
        d = os.path.dirname(d)
    known, all_ = list(r.loose.items()), dict(r.all())
    kind = rng.choice(("git", "loose"))
    todo = []
    for k in range(rng.randint(2, 6)):
        new = rng.random() < .35
        t, d = (gen.otype(rng), gen.content(rng, gen.size(rng, 6000))) if new else rng.choice(known)[1]
        todo.append((t, d, rng.choice(("store", "store", "verbatim", "transfer"))))
    rel = os.path.relpath(r.root, c.tmp)

    def body():
        os.chdir(c.tmp)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            return ("skipped", 0)
        db = GitDB(rel) if kind == "git" else LooseObjectDB(rel)
        n = 0
        for t, d, how in todo:
            sha = ref.oid(t, d)
            p = ref.loose_path(r.root, sha)
            b = os.stat(p) if os.path.exists(p) else None
            names = sum((f for _, _, f in os.walk(r.root)), [])
            what = "%s %s of %s object, in a shared directory" % (kind, how, "a new" if b is None else "another user's")
            if how == "transfer":
                m = MemoryDB()
                m.store(IStream(t, len(d), BytesIO(d)))
                m.stream_copy([sha], db)
            else:
                data = zlib.compress(ref.loose_bytes(t, d)) if how == "verbatim" else d
                c.eq(bytes(db.store(IStream(t, len(d), BytesIO(data), sha if how == "verbatim" else None)).binsha), sha, what + ": id")
            now = sum((f for _, _, f in os.walk(r.root)), [])
            c.check(len(now) <= len(names) + (b is None), what + ": more files than before", len(now), len(names))
            if b is not None:
                a = os.stat(p)
                c.eq((a.st_ino, a.st_mode, a.st_uid, a.st_mtime_ns, a.st_size), (b.st_ino, b.st_mode, b.st_uid, b.st_mtime_ns, b.st_size), what + ": the file")
                n += 1
            elif os.path.exists(p):
                c.eq(os.stat(p).st_mode & 0o777, 0o444, what + ": mode")
            check_present(c, db, sha, t, d, what, reads="all")
        return ("ok", n)
    try:
        res = crash.child(body)[1]
    finally:
        os.umask(0o022)
    if res[0] != "ok":
        c.fail("storing into a directory shared with another user failed", res[1], res[2])
    what, n = res[1]
    if what == "ok":
        c.ev("stores of another user's objects", n)
        c.sig("foreign", kind, sticky, n)


FAMILIES = [("history", history, 600, 7000), ("foreign", foreign, 120, 2000)]
