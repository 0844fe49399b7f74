from vlib.world import *
from vlib import shim
import hashlib
import zlib
from gitdb.stream import FDCompressedSha1Writer, FlexibleSha1Writer, Sha1Writer, ZippedStoreShaWriter

NEEDS_SHIM = True
LEVEL = "exploration"
RULE = ("one case = a history of set_ostream, redirected, verbatim and ordinary stores over several loose, git and memory databases; every redirected "
        "store is watched by a file-system-call log and directory snapshots, what the stream received is compared with the object, and captured or "
        "taken compressed data is replayed into all database kinds; distinct = (database, writer, store kind, present before, size)")
MORE = 4
REQUIRE = {"redirected stores": 1310, "verbatim stores": 1370, "ordinary stores": 600, "stream settings checked": 3000, "replays read back": 1500,
           "failed redirected stores": 100, "git reads": 100,
           "file-system calls of ordinary stores": 1000}


class Target:
    def __init__(self, c, kind, n):
        self.c, self.kind = c, kind
        self.model = {}
        self.setting = None
        if kind == "memory":
            self.root, self.db = None, MemoryDB()
            return
        if kind == "git":
            self.root = ref.git_repo(os.path.join(c.tmp, "r%d" % n))
            if c.rng.random() < .3:
                ref.write_pack_files(c.rng, os.path.join(self.root, "pack"), [ref.Entry(b"blob", b"packed")])
                self.model[ref.oid(b"blob", b"packed")] = (b"blob", b"packed")
            self.db = GitDB(self.root)
        else:
            self.root = os.path.join(c.tmp, "l%d" % n)
            os.mkdir(self.root)
            self.db = LooseObjectDB(self.root)


class Sink:
    """one output stream and what it received"""
    KINDS = ("zipped", "zipped", "plain", "flexible", "fd", "own")

    def __init__(self, c, n, rng):
        self.c = c
        self.kind = rng.choice(self.KINDS)
        self.got = bytearray()
        self.path = self.fd = None
        if self.kind == "zipped":
            self.w = ZippedStoreShaWriter()
        elif self.kind == "plain":
            self.w = Sha1Writer()
        elif self.kind == "flexible":
            self.w = FlexibleSha1Writer(self.got.extend)
        elif self.kind == "own":
            got = self.got

            class Own(Sha1Writer):
                def write(self, data):
                    got.extend(data)
                    return super().write(data)
            self.w = Own()
        else:
            self.path = os.path.join(c.tmp, "out%d" % n)
            self.fd = os.open(self.path, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            self.w = FDCompressedSha1Writer(self.fd)

    def finish(self):
        """-> bytes received, or None for a writer that keeps none"""
        if self.kind == "zipped":
            self.w.close()
            self.raw = bytes(self.w.getvalue())
            return zlib.decompress(self.raw)
        if self.kind == "fd":
            self.w.close()
            with open(self.path, "rb") as f:
                self.raw = f.read()
            os.unlink(self.path)
            return zlib.decompress(self.raw)
        self.raw = None
        return bytes(self.got) if self.kind != "plain" else None

    def drop(self):
        if self.fd is not None:
            try:
                os.close(self.fd)
            except OSError:
                pass


def watch(c, t, fn, what):
    """run fn, which must touch nothing below the root of t"""
    if t.root is None:
        return fn()
    before = snapshot(t.root)
    shim.arm(t.root, shim.COUNT)
    try:
        return fn()
    finally:
        evs = shim.events()
        shim.disarm()
        if evs:
            c.fail(what + ": file-system changes below the root although redirected", "%r" % evs[:6])
        if snapshot(t.root) != before:
            c.fail(what + ": directory changed although redirected")


def setting(c, t, new):
    old = t.db.set_ostream(new)
    c.ev("stream settings checked")
    if old is not t.setting:
        c.fail("%s: set_ostream() returned something other than the previous stream" % t.kind, repr(old), repr(t.setting))
    t.setting = new
    if t.db.ostream() is not new:
        c.fail("%s: ostream() is not the stream set" % t.kind, repr(t.db.ostream()), repr(new))


def verify(c, t, sha, typ, data, what):
    check_present(c, t.db, sha, typ, data, what)
    c.ev("replays read back")
    if t.root:
        check_present(c, type(t.db)(t.root), sha, typ, data, what + " fresh database,", reads="all")
        p = ref.loose_path(t.root, sha)
        if os.path.exists(p):
            with open(p, "rb") as f:
                raw = f.read()
            try:
                got = ref.parse_loose(raw)
            except ValueError as e:
                c.fail(what + ": not a loose object: %s" % e)
            c.check(got == (typ, data), what + ": file holds another object")


def verbatim(c, t, typ, data, raw, via):
    """store compressed object data raw under its id"""
    rng = c.rng
    sha = ref.oid(typ, data)
    what = "%s verbatim from %s" % (t.kind, via)
    src = gen.Source(raw, rng.choice(gen.SPLITS), rng) if rng.random() < .7 else BytesIO(raw)
    # who only has the compressed form need not know the size of the content
    size = len(data) if rng.random() < .7 else rng.choice((0, len(raw)))
    ist = IStream(typ, size, src, sha) if rng.random() < .7 else IStream(typ, size, src)
    ist.binsha = sha
    had = sha in t.model
    r = t.db.store(ist)
    c.ev("verbatim stores")
    c.check(r is ist, what + ": store() returned another stream")
    c.eq(bytes(r.binsha), sha, what + ": id")
    t.model[sha] = (typ, data)
    verify(c, t, sha, typ, data, what)
    if t.root and not had:
        with open(ref.loose_path(t.root, sha), "rb") as f:
            c.check(f.read() == raw, what + ": stored bytes differ from those given")
    c.sig(t.kind, via, had, len(data))


def pick(c, pool):
    rng = c.rng
    if pool and rng.random() < .3:
        return rng.choice(list(pool.values()))
    return gen.otype(rng), gen.content(rng, gen.size(rng, 60000))


def history(c):
    rng = c.rng
    ts = [Target(c, k, i) for i, k in enumerate(("loose", "git", "memory", rng.choice(("loose", "git"))))]
    pool, captured, n = {}, [], 0
    opened = []
    for step in range(rng.choice((6, 15, 30))):
        n += 1
        t = rng.choice(ts)
        typ, data = pick(c, pool)
        sha = ref.oid(typ, data)
        k = rng.random()
        c.log("%s step %.2f" % (t.kind, k), typ, len(data))
        if t.kind == "memory" and k < .55:
            if rng.random() < .15:
                c.raises(UnsupportedOperation, lambda: t.db.set_ostream(Sha1Writer()), "MemoryDB.set_ostream()")
            t.db.store(istream(rng, typ, data))
            t.model[sha] = pool[sha] = (typ, data)
            captured.append((typ, data, bytes(t.db.stream(sha).stream.data()), "memory"))
            c.ev("ordinary stores")
        elif k < .4:
            # redirected store of a new stream
            s = Sink(c, n, rng)
            opened.append(s)
            prev = t.setting
            setting(c, t, s.w)
            what = "%s to %s" % (t.kind, s.kind)
            fail = rng.random() < .12
            if fail and data:
                src = gen.Source(data, "short", rng, fail_at=rng.randint(0, len(data) - 1))
                try:
                    watch(c, t, lambda: t.db.store(IStream(typ, len(data), src)), what)
                    c.fail(what + ": failing source not reported")
                except IOError:
                    pass
                c.ev("failed redirected stores")
                s.drop()
                c.check(t.db.ostream() is s.w, what + ": output stream lost after a failed store")
            else:
                r = watch(c, t, lambda: t.db.store(istream(rng, typ, data)), what)
                c.ev("redirected stores")
                c.eq(bytes(r.binsha), sha, what + ": id")
                c.eq(s.w.sha(), sha, what + ": digest of the stream")
                got = s.finish()
                if got is not None and got != ref.loose_bytes(typ, data):
                    c.fail(what + ": the stream did not receive the object", got, ref.loose_bytes(typ, data))
                pool[sha] = (typ, data)
                if s.raw:
                    captured.append((typ, data, s.raw, s.kind))
                elif got is not None:
                    captured.append((typ, data, gen.deflate(rng, got), "deflated"))
                if sha not in t.model:
                    check_absent(c, t.db, sha, what + ": object only redirected,")
                c.sig(t.kind, s.kind, sha in t.model, len(data))
            # restore the previous stream, or none
            setting(c, t, None if prev is None or rng.random() < .5 else prev)
            if rng.random() < .2:
                for bad in rng.sample((BytesIO(), [].append, object(), "x"), 2):
                    c.raises(TypeError, lambda: t.db.set_ostream(bad), "set_ostream() of something unsuitable")
                    c.check(t.db.ostream() is t.setting, "refused stream installed")
            setting(c, t, None)
        elif k < .5 and captured and t.kind != "memory":
            # redirected verbatim store: the stream gets the compressed form
            typ, data, raw, via = rng.choice(captured)
            buf = bytearray()
            w = FlexibleSha1Writer(buf.extend)
            setting(c, t, w)
            r = watch(c, t, lambda: t.db.store(IStream(typ, len(data), gen.Source(raw, rng.choice(gen.SPLITS), rng), ref.oid(typ, data))),
                      "redirected verbatim store")
            c.ev("redirected stores")
            c.eq(bytes(r.binsha), ref.oid(typ, data), "id of a redirected verbatim store")
            c.check(bytes(buf) == raw, "redirected verbatim store passed on other bytes")
            setting(c, t, None)
        elif k < .65:
            if t.root:
                shim.arm(t.root, shim.COUNT)
            r = t.db.store(istream(rng, typ, data))
            if t.root:
                c.ev("file-system calls of ordinary stores", len(shim.events()))
                shim.disarm()
            c.ev("ordinary stores")
            c.eq(bytes(r.binsha), sha, "id")
            t.model[sha] = pool[sha] = (typ, data)
            verify(c, t, sha, typ, data, t.kind + " ordinary store")
            if t.root and rng.random() < .7 and os.path.exists(ref.loose_path(t.root, sha)):
                d = t.db.stream(sha)
                raw = bytes(d.stream.data()[:]) if hasattr(d.stream, "data") else None
                if raw is not None and ref.oid(b"blob", b"packed") != sha:
                    captured.append((typ, data, raw, "loose"))
        elif captured:
            x = rng.choice(captured)
            verbatim(c, t, *x)
            pool[ref.oid(*x[:2])] = x[:2]
        else:
            verbatim(c, t, typ, data, gen.deflate(rng, ref.loose_bytes(typ, data)), "any")
            pool[sha] = (typ, data)
    # the whole state at the end
    for t in ts:
        ids = set(map(bytes, t.db.sha_iter()))
        c.eq(ids, set(t.model), t.kind + ": set of ids at the end")
        for sha, (typ, data) in t.model.items():
            check_present(c, t.db, sha, typ, data, t.kind + " at the end,", reads="all")
        if t.kind == "git" and t.model and rng.random() < .35:
            got = ref.cat_file_batch(os.path.dirname(t.root), list(t.model))
            for sha in t.model:
                c.check(got[sha] == t.model[sha], "git reads another object", sha.hex())
                c.ev("git reads")
    c.sample(stores=n, captured=len(captured))


FAMILIES = [("history", history, 550, 12000)]
