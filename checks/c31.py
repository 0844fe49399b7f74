from vlib.world import *
from vlib import crash
import subprocess
import threading

LEVEL = "exploration"
RULE = ("one case = one bare repository and a random history of git commands (storing, committing, every kind of repack, pruning, multi-pack indices, "
        "imported packs, alternates) and of stores and packs by gitdb; after each update an open and a new database are compared with what git lists and "
        "with the contents; distinct = (last two git commands, what gitdb did in between, packs)")
REQUIRE = {"git commands": 1500, "comparisons with git": 600, "objects compared": 6000, "objects written by gitdb": 500, "reads while git repacks": 800, "stores while git prunes": 800, "packs renamed or marked": 40}
MORE = 2


def tree(entries):
    out = b""
    for name, mode, sha in sorted(entries, key=lambda e: e[0] + (b"/" if e[1] == b"40000" else b"")):
        out += mode + b" " + name + b"\0" + sha
    return out


class Work:
    """a repository git works on; knows the content of everything that was ever created"""

    def __init__(self, c, name):
        self.c, self.rng = c, c.rng
        self.repo = os.path.join(c.tmp, name)
        self.root = ref.git_repo(self.repo)
        self.known = {}             # everything ever made
        self.base = gen.content(c.rng, c.rng.randint(100, 20000), c.rng.choice(("text", "mixed", "lowent")))
        self.commits = []
        self.alts = []
        cfg = {"core.compression": c.rng.choice(("-1", "0", "1", "9")), "pack.indexVersion": c.rng.choice(("1", "2", "2", "2")),
               "core.looseCompression": c.rng.choice(("0", "1", "9")), "pack.depth": c.rng.choice(("1", "10", "50")), "gc.auto": "0",
               "repack.useDeltaBaseOffset": c.rng.choice(("true", "true", "false")), "core.bigFileThreshold": c.rng.choice(("1k", "512m")),
               "pack.writeReverseIndex": c.rng.choice(("true", "false")), "pack.packSizeLimit": c.rng.choice(("0", "0", "1m")),
               "pack.threads": "1", "gc.cruftPacks": c.rng.choice(("true", "false")), "core.fsync": "none"}
        with open(os.path.join(self.repo, "config"), "a") as f:
            for k, v in cfg.items():
                a, b = k.split(".")
                f.write("[%s]\n\t%s = %s\n" % (a, b, v))
        c.log("config", str(cfg))

    def git(self, *a, input=None, ok=True):
        self.c.ev("git commands")
        return ref.git(["--git-dir", self.repo] + list(a), input=input, ok=ok)

    def blob(self):
        rng = self.rng
        if rng.random() < .6:
            i = rng.randint(0, len(self.base))
            self.base = self.base[:i] + gen.content(rng, rng.randint(0, 200)) + self.base[i + rng.randint(0, 100):]
            return b"blob", self.base
        return b"blob", gen.content(rng, gen.size(rng, 30000))

    def note(self, t, d):
        s = ref.oid(t, d)
        self.known[s] = (t, d)
        return s

    def put(self, t, d):
        """git stores an object"""
        s = self.note(t, d)
        got = self.git("hash-object", "-w", "-t", t.decode(), "--stdin", input=d).stdout.strip()
        self.c.eq(bytes.fromhex(got.decode()), s, "id of an object made by git")
        return s

    def commit(self, store):
        """a tree of some of the known blobs and a commit of it, which become reachable -> objects"""
        rng = self.rng
        present = self.listed()
        blobs = [s for s, v in self.known.items() if v[0] == b"blob" and s in present]
        rng.shuffle(blobs)
        names = {}
        for s in blobs[:rng.randint(1, 30)]:
            names[gen.name(rng) if hasattr(gen, "name") else b"f%d" % rng.randrange(1000)] = s
        t = tree([(n, b"100644", s) for n, s in names.items()])
        ts = store(b"tree", t)
        k = b"tree %s\n" % ts.hex().encode()
        if self.commits and self.commits[-1] in present:
            k += b"parent %s\n" % self.commits[-1].hex().encode()
        k += b"author a <a@b> %d +0000\ncommitter a <a@b> 1 +0000\n\n%s\n" % (rng.randint(0, 10 ** 9), b"m" * rng.randint(0, 50))
        ks = store(b"commit", k)
        self.commits.append(ks)
        self.git("update-ref", "refs/heads/master", ks.hex())
        if rng.random() < .2:
            g = store(b"tag", b"object %s\ntype commit\ntag t%d\ntagger a <a@b> 1 +0000\n\nm\n" % (ks.hex().encode(), rng.randint(0, 9)))
            self.git("update-ref", "refs/tags/t%d" % rng.randint(0, 9), g.hex())

    def listed(self):
        out = self.git("cat-file", "--batch-all-objects", "--batch-check=%(objectname)").stdout
        return {bytes.fromhex(l.decode()) for l in out.split()}

    def packs(self):
        d = os.path.join(self.root, "pack")
        return sorted(os.path.join(d, n) for n in os.listdir(d) if n.endswith(".pack")) if os.path.isdir(d) else []

    MAINTENANCE = (("repack", "-q", "-d"), ("repack", "-q", "-a", "-d"), ("repack", "-q", "-A", "-d"), ("repack", "-q", "-a", "-d", "-f", "--depth=50", "--window=50"),
                   ("repack", "-q", "-a", "-d", "-k"), ("repack", "-q", "-a", "-d", "--write-midx"), ("repack", "-q", "-d", "--geometric=2"), ("repack", "-q", "-a", "-d", "-b"),
                   ("repack", "-q", "-d", "-n"), ("repack", "-q", "-d", "--cruft"), ("prune-packed", "-q"), ("prune", "--expire=now"), ("gc", "-q", "--prune=now"),
                   ("multi-pack-index", "write"), ("multi-pack-index", "expire"), ("multi-pack-index", "repack", "--batch-size=0"), ("gc", "-q"), ("pack-refs", "--all"),
                   ("commit-graph", "write", "--reachable"), ("repack", "-q"), ("repack", "-q", "-a", "-d", "-l"))

    def maintain(self):
        k = self.rng.choice(self.MAINTENANCE)
        # some of them refuse to work in some states, which is fine
        r = self.git(*k, ok=False)
        return " ".join(x for x in k if x != "-q") + ("" if r.returncode == 0 else " (refused)")

    def imported(self, other):
        """objects of another repository arrive in a pack, which may be thin"""
        rng = self.rng
        have, theirs = self.listed(), sorted(s for s in other.listed() if s in other.known)
        if not theirs:
            return None
        take = rng.sample(theirs, rng.randint(1, len(theirs)))
        self.known.update({s: other.known[s] for s in take})
        data = other.git("pack-objects", "-q", "--stdout", *rng.choice(((), ("--delta-base-offset",), ("--no-reuse-delta", "--window=20"))),
                         input=b"".join(s.hex().encode() + b"\n" for s in take)).stdout
        how = rng.choice(("index-pack", "unpack-objects"))
        if how == "index-pack":
            self.git("index-pack", "--stdin", "--fix-thin", *rng.choice(((), ("--keep",), ("--index-version=1",))), input=data)
        else:
            self.git("unpack-objects", "-q", input=data)
        return how

    def unpacked(self):
        """a pack becomes loose objects"""
        ps = self.packs()
        if not ps:
            return None
        p = self.rng.choice(ps)
        with open(p, "rb") as f:
            data = f.read()
        m = os.path.join(self.root, "pack", "multi-pack-index")
        if os.path.exists(m):
            os.unlink(m)
        for x in (".pack", ".idx", ".rev", ".bitmap", ".keep", ".mtimes", ".promisor"):
            if os.path.exists(p[:-5] + x):
                os.unlink(p[:-5] + x)
        self.git("unpack-objects", "-q", input=data)
        return "unpacked"

    def renamed(self):
        """a pack gets a name of another kind; what counts is what is in there"""
        rng = self.rng
        ps = self.packs()
        m = os.path.join(self.root, "pack", "multi-pack-index")
        if not ps or os.path.exists(m):
            return None
        p = rng.choice(ps)
        new = os.path.join(self.root, "pack", "pack-" + rng.choice(("import%d" % rng.randrange(1000), rng.randbytes(32).hex(), rng.randbytes(20).hex(), rng.randbytes(20).hex().upper(), "a.b-%d" % rng.randrange(100), "%d" % rng.randrange(10 ** 9))))
        if os.path.exists(new + ".pack"):
            return None
        # readers look for the index first
        for x in (".pack", ".rev", ".bitmap", ".keep", ".mtimes", ".promisor", ".idx"):
            if os.path.exists(p[:-5] + x):
                os.rename(p[:-5] + x, new + x)
        self.c.ev("packs renamed or marked")
        return "renamed"

    def marked(self):
        """files beside a pack which say something about it"""
        rng = self.rng
        ps = self.packs()
        if not ps:
            return None
        p = rng.choice(ps)[:-5] + rng.choice((".keep", ".keep", ".promisor"))
        if os.path.exists(p):
            os.unlink(p)
        else:
            with open(p, "wb") as f:
                f.write(rng.choice((b"", b"note\n")))
        self.c.ev("packs renamed or marked")
        return "marked"

    def step(self, other):
        rng = self.rng
        k = rng.random()
        if k < .3:
            for _ in range(rng.randint(1, 5)):
                self.put(*self.blob())
            return "hash-object"
        if k < .45:
            self.commit(self.put)
            return "commit"
        if k < .82:
            return self.maintain()
        if k < .91:
            return rng.choice((self.unpacked, self.renamed, self.marked, self.marked))()
        if k < .97 and other is not None:
            return self.imported(other)
        if other is not None:
            self.alts = [] if self.alts else [other]
            p = os.path.join(self.root, "info", "alternates")
            if self.alts:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                lines = [os.fsencode(rng.choice((other.root, other.root, other.root + "/", os.path.relpath(other.root, self.root))))]
                for _ in range(rng.choice((0, 0, 1, 2))):
                    # git skips these
                    lines.insert(rng.randint(0, len(lines)), rng.choice((b"/nowhere/at/all", b"../../nowhere", b"", b"# comment", os.fsencode(self.root))))
                with open(p, "wb") as f:
                    f.write(b"\n".join(lines) + rng.choice((b"\n", b"")))
                if rng.random() < .25:
                    os.makedirs(os.path.join(other.root, "info"), exist_ok=True)
                    with open(os.path.join(other.root, "info", "alternates"), "wb") as f:
                        f.write(os.fsencode(self.root) + b"\n")
                self.known.update(other.known)
                return "alternate added"
            os.unlink(p)
            return "alternate removed"


def objects_of(root):
    """paths of all files with objects, and their indices"""
    return {os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if len(os.path.basename(d)) == 2 or os.path.basename(d) == "pack"}


def own(c, w, db):
    """gitdb writes something -> what"""
    rng = c.rng

    def store(t, d):
        s = db.store(istream(rng, t, d)).binsha
        c.ev("objects written by gitdb")
        c.eq(bytes(s), w.note(t, d), "id of a stored object")
        return bytes(s)
    k = rng.random()
    if k < .35:
        for _ in range(rng.randint(1, 4)):
            store(*w.blob())
        return "stored"
    if k < .5 and w.known:
        # things that were there before, and might be still
        for s in rng.sample(sorted(w.known), min(4, len(w.known))):
            store(*w.known[s])
        return "stored again"
    if k < .65:
        w.commit(store)
        return "committed"
    # a pack of some present and some new objects
    objs = {}
    for _ in range(rng.randint(1, 6)):
        t, d = w.blob()
        objs[w.note(t, d)] = (t, d)
    present = sorted(w.listed())
    for s in rng.sample(present, min(len(present), rng.randint(0, 8))):
        objs[s] = w.known[s]
    seq = list(objs.items())
    rng.shuffle(seq)
    pd = os.path.join(w.root, "pack")
    os.makedirs(pd, exist_ok=True)
    PackEntity.create([OStream(s, t, len(d), BytesIO(d)) for s, (t, d) in seq], pd, len(seq), zlib_compression=rng.choice((-1, 0, 1, 9)) if rng.random() < .5 else 1)
    c.ev("objects written by gitdb", len(seq))
    return "packed"


def compare(c, w, db, what, n=8):
    rng = c.rng
    c.ev("comparisons with git")
    want = w.listed()
    for how, x in (("open", db), ("new", GitDB(w.root))):
        here = "%s, %s database" % (what, how)
        ids = set(map(bytes, x.sha_iter()))
        if ids != want:
            c.fail(here + ": enumeration differs from what git lists", "missing %d" % len(want - ids), "extra %d" % len(ids - want))
        for s in rng.sample(sorted(want), min(n, len(want))):
            t, d = w.known[s]
            check_present(c, x, s, t, d, here, reads=rng.choice(("random", "all", "all")))
            c.ev("objects compared")
        gone = sorted(set(w.known) - want)
        for s in rng.sample(gone, min(3, len(gone))):
            check_absent(c, x, s, here)
        if want:
            s = rng.choice(sorted(want))
            k = rng.randint(4, 40)
            same = [z for z in want if z.hex().startswith(s.hex()[:k])]
            try:
                got = bytes(x.partial_to_complete_sha_hex(s.hex()[:k]))
                c.check(len(same) == 1 and got == s, here + ": abbreviated id", s.hex()[:k])
            except gitdb.exc.AmbiguousObjectName:
                c.check(len(same) > 1, here + ": abbreviated id said to be ambiguous", s.hex()[:k])
    return want


def history(c):
    rng = c.rng
    other = None
    if rng.random() < .6:
        other = Work(c, rng.choice(("other.git", "other.git", os.fsdecode(rng.choice((b"sp ace.git ", b"\xff\xfe.git", b"\xe2\x80\xa8.git", b"\xc2\x85", b"quo\"te", b"back\\slash.git"))))))
        for _ in range(rng.randint(1, 6)):
            other.put(*other.blob())
        other.commit(other.put)
        if rng.random() < .6:
            other.maintain()
    w = Work(c, "main.git")
    if other is not None:
        w.base = other.base
    db = GitDB(w.root)
    last, did = [], ""
    for _ in range(rng.choice((6, 12))):
        steps = []
        for _ in range(rng.choice((1, 1, 2))):
            x = w.step(other)
            if x:
                steps.append(x)
        if rng.random() < .35:
            # what is found before the update doesn't matter here, only that it isn't wrong
            for s in rng.sample(sorted(w.known), min(4, len(w.known))):
                try:
                    got = db.stream(s).read()
                except BadObject:
                    continue
                c.eq(bytes(got), w.known[s][1], "content before an update")
        did = ""
        if rng.random() < .5:
            before = objects_of(w.root)
            did = own(c, w, db)
            for f in objects_of(w.root) - before:
                # others use the repository as well
                c.eq(oct(os.stat(f).st_mode & 0o444), "0o444", "who may read what gitdb %s: %s" % (did, os.path.relpath(f, w.root)))
                c.ev("new files")
        last = (last + steps)[-2:]
        c.log("git:", ", ".join(steps), "gitdb:", did)
        db.update_cache(force=True)
        compare(c, w, db, "after " + ", ".join(last) + (" and %s by gitdb" % did if did else ""))
        c.sig(tuple(last), did, min(len(w.packs()), 4))
    r = w.git("fsck", "--full", "--no-dangling", ok=False)
    bad = [l for l in (r.stdout + r.stderr).decode("utf-8", "replace").splitlines() if not l.startswith(("notice", "dangling", "missing", "broken link", "   ", "error: refs/", "error: unable to normalize alternate", "warning"))]
    # objects may be missing as we prune at will, but none may be damaged
    bad = [l for l in bad if "missing" not in l and "invalid sha1 pointer" not in l and "unable to read" not in l and "alternate" not in l]
    c.check(not bad, "git fsck after " + ", ".join(last), "; ".join(bad[:3]))
    shas = sorted(w.listed())
    got = ref.cat_file_batch(w.repo, shas)
    for s in shas:
        c.eq(got[s], w.known[s], "object %s as read by git" % s.hex())
    del db
    collect()


def repacking(c):
    """git repacks over and over while we read: after an update or two everything is found, and nothing is ever wrong"""
    rng = c.rng
    w = Work(c, "main.git")
    for _ in range(rng.randint(3, 12)):
        w.put(*w.blob())
    w.commit(w.put)
    if rng.random() < .5:
        w.git("repack", "-q", "-d")
    keep = w.listed()
    db = GitDB(w.root)
    cmds = [rng.choice((("repack", "-q", "-a", "-d", "-k"), ("repack", "-q", "-a", "-d", "-k", "-f"), ("repack", "-q", "-d"), ("prune-packed",), ("gc", "-q", "--prune=never"),
                        ("repack", "-q", "-d", "--geometric=2"))) for _ in range(rng.randint(2, 4))]
    stop = []

    def work():
        # as objects are added the packs differ each time
        for i, k in enumerate(cmds):
            ref.git(["--git-dir", w.repo, "hash-object", "-w", "--stdin"], input=b"%d %s" % (i, rng_bytes))
            ref.git(["--git-dir", w.repo] + list(k), ok=False)
        stop.append(1)
    rng_bytes = rng.randbytes(8)
    t = threading.Thread(target=work, daemon=True)
    t.start()
    ids = sorted(keep)
    again = most = 0
    while not stop or again < 5:
        if stop:
            again += 1
        s = rng.choice(ids)
        typ, d = w.known[s]
        for tries in range(40):
            try:
                st = db.stream(s)
                got = st.read(len(d) // 2 + 1) + st.read()
                info = db.info(s)
            except BadObject:
                db.update_cache(force=True)
                continue
            break
        else:
            c.fail("an object is not found in spite of updates while git runs %s" % (cmds,), s.hex())
        most = max(most, tries)
        c.ev("reads while git repacks")
        if rng.random() < .05:
            t_, d_ = w.known[s] if rng.random() < .5 else w.blob()
            db.store(istream(rng, t_, d_))
            c.ev("stores while git repacks")
            ids.append(w.note(t_, d_))
        if bytes(got) != d or bt(info.type) != typ or info.size != len(d):
            c.fail("wrong content or type while git repacks", s.hex())
    t.join(60)
    c.ev("max:updates needed", most)
    db.update_cache(force=True)
    c.eq(set(map(bytes, db.sha_iter())), w.listed(), "ids after all repacks")
    c.sig("repacking", tuple(" ".join(k) for k in cmds), most)
    del db
    collect()


def pruning(c):
    """git removes packed duplicates, and directories which become empty, at every point of a store"""
    rng = c.rng
    w = Work(c, "main.git")
    for _ in range(rng.randint(1, 4)):
        w.put(*w.blob())
    if rng.random() < .7:
        w.commit(w.put)
    real = rng.random() < .1
    n = None
    typ, d = w.blob()
    packed = rng.random() < .6
    if packed:
        # a duplicate git may prune
        pd = os.path.join(w.root, "pack")
        PackEntity.create([OStream(w.note(typ, d), typ, len(d), BytesIO(d))], pd, 1)
        w.put(typ, d)
    sha = w.note(typ, d)
    path = ref.loose_path(w.root, sha)
    db = rng.choice((GitDB, LooseObjectDB))(w.root)
    points = [None]

    def prune():
        if real:
            w.git("prune-packed", "-q")
        if packed and os.path.exists(path):
            os.unlink(path)
        for x in range(256):
            try:
                os.rmdir(os.path.join(w.root, "%02x" % x))
            except OSError:
                pass
    ref.git(["--git-dir", w.repo, "repack", "-q", "-d"], ok=False) if not packed and rng.random() < .5 else None
    while points:
        at = points.pop()
        if packed and rng.random() < .5:
            # no longer known to be there
            if os.path.exists(path):
                os.unlink(path)
        elif not packed and os.path.exists(path):
            os.unlink(path)
        where = []

        def hook(k, frame):
            if k == at:
                where.append(frame.f_code.co_name)
                prune()
        with crash.LineHook(hook) as h:
            try:
                got = db.store(IStream(typ, len(d), BytesIO(d))).binsha
            except Exception as e:
                c.fail("a store failed as git pruned at line %s of it, in %s" % (at, where), repr(e))
        if at is None:
            points = sorted(rng.sample(range(1, h.k + 1), min(h.k, 60)))
            # the end of it matters most
            points += range(max(1, h.k - 40), h.k + 1)
            continue
        c.ev("stores while git prunes")
        c.eq(bytes(got), sha, "id of the stored object")
        if not packed and not os.path.exists(path):
            c.fail("a stored object isn't there (git pruned at line %d, in %s)" % (at, where))
        fresh = GitDB(w.root)
        check_present(c, fresh, sha, typ, d, "after git pruned during a store", reads="all")
        left = [f for f in os.listdir(w.root) if f not in ("pack", "info") and len(f) != 2]
        c.check(not left, "temporary files are left", str(left))
        c.sig("pruning", packed, type(db).__name__, where and where[0])
    del db
    collect()


FAMILIES = [("history", history, 110, 2500), ("repacking", repacking, 30, 400), ("pruning", pruning, 40, 500)]
