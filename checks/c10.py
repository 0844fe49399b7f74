from vlib.world import *
from vlib import crash, shim
import zlib

NEEDS_SHIM = True
LEVEL = "fault_enumeration"
RULE = ("one case = one store scenario (database kind, object new or present, size, plain or verbatim, transfer from memory) repeated in forked "
        "children that are killed before, after and half-way through every file-system mutation and at every executed line of gitdb; after each "
        "kill the directory is examined with a fresh database and strict parsing of every object file; distinct = (scenario, kill point kind, outcome)")
REQUIRE = {"kills at file-system calls": 400, "kills at lines": 1380, "object complete after the kill": 50, "object absent after the kill": 300}
ASSUMPTIONS = ("process death only, no loss of written data by the kernel",)


class Scenario:
    def __init__(self, c):
        rng = c.rng
        self.c = c
        self.kind = rng.choice(("loose", "git", "loose"))
        self.template = os.path.join(c.tmp, "template")
        root = ref.git_repo(self.template)
        self.prior = {}
        for k in range(rng.randint(0, 4)):
            t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))
            self.prior[ref.write_loose(root, t, d)] = (t, d)
        if self.kind == "git" and rng.random() < .5:
            es = ref.random_entries(rng, 3, 500)
            ref.write_pack_files(rng, os.path.join(root, "pack"), es)
            self.packed = {e.sha: (e.type, e.data) for e in es}
        else:
            self.packed = {}
        self.targets = {}
        n = 1 if rng.random() < .7 else rng.randint(2, 3)
        self.op = rng.choice(("store", "store", "store", "verbatim", "transfer", "twice"))
        for k in range(n if self.op == "transfer" else 1):
            size = rng.choice((0, rng.randint(1, 300), rng.randint(1, 300), gen.size(rng, 70000)))
            if rng.random() < .06:
                size = gen.CHUNK + rng.randint(-5, 100000)
            t, d = gen.otype(rng), gen.content(rng, size, rng.choice(("random", "text", "zeros")))
            if rng.random() < .15 and self.prior:
                t, d = rng.choice(list(self.prior.values()))
            elif rng.random() < .4 and self.prior:
                # same directory as an existing object
                h = rng.choice(list(self.prior)).hex()[:2]
                for i in range(2000):
                    if ref.oid(t, b"%d" % i)[:1].hex() == h:
                        d = b"%d" % i
                        break
            self.targets[ref.oid(t, d)] = (t, d)
        self.mode = rng.choice(gen.SPLITS)
        self.name = "%s/%s/%s/%s" % (self.kind, self.op, "present" if set(self.targets) & set(self.prior) else "new",
                                     "/".join(str(len(d)) for _, d in self.targets.values()))

    def large(self):
        return sum(len(d) for _, d in self.targets.values()) > 1 << 20

    def fresh(self):
        d = os.path.join(self.c.tmp, "run")
        shutil_rm(d)
        crash.copytree(self.template, d)
        return os.path.join(d, "objects")

    def db(self, root):
        return GitDB(root) if self.kind == "git" else LooseObjectDB(root)

    def act(self, root):
        rng = random_(self.c)
        db = self.db(root)
        if self.op == "transfer":
            m = MemoryDB()
            for t, d in self.targets.values():
                m.store(IStream(t, len(d), BytesIO(d)))
            return lambda: m.stream_copy(list(self.targets), db)
        (sha, (t, d)), = self.targets.items()
        if self.op == "verbatim":
            data = zlib.compress(ref.loose_bytes(t, d))
            return lambda: db.store(IStream(t, len(d), gen.Source(data, self.mode, rng), sha))
        if self.op == "twice":
            def two():
                db.store(IStream(t, len(d), gen.Source(d, self.mode, rng)))
                db.store(IStream(t, len(d), gen.Source(d, self.mode, rng)))
            return two
        return lambda: db.store(IStream(t, len(d), gen.Source(d, self.mode, rng)))


def random_(c):
    import random
    return random.Random("%s %s" % (c.family, c.index))


def shutil_rm(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def survive(c, sc, root, what):
    """the directory after the kill"""
    prior = dict(sc.prior)
    names = set()
    for d, dirs, files in os.walk(root):
        if os.path.basename(d) in ("pack", "info"):
            continue
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), root)
            h = rel.replace(os.sep, "")
            if len(h) == 40 and len(os.path.dirname(rel)) == 2:
                with open(os.path.join(d, f), "rb") as fh:
                    raw = fh.read()
                    mode = os.fstat(fh.fileno()).st_mode
                if mode & 0o444 != 0o444:
                    c.fail(what + ": an object is visible which not everyone may read", rel, oct(mode))
                try:
                    typ, data = ref.parse_loose(raw)
                except ValueError as e:
                    c.fail(what + ": partial object file visible: %s" % e, rel, len(raw))
                if ref.oid(typ, data).hex() != h:
                    c.fail(what + ": object file with other content", rel)
                names.add(bytes.fromhex(h))
    c.check(set(prior) <= names, what + ": an object stored before is gone")
    c.check(names <= set(prior) | set(sc.targets), what + ": unknown object appeared", len(names))
    db = sc.db(root)
    ids = set(map(bytes, db.sha_iter()))
    c.check(ids == names | set(sc.packed), what + ": enumeration after the kill")
    for sha in prior:
        check_present(c, db, sha, *prior[sha], what + ": object stored before,", reads="all")
    for sha, v in sc.packed.items():
        check_present(c, db, sha, *v, what + ": packed object,", reads="all")
    done = 0
    for sha, v in sc.targets.items():
        if sha in names:
            done += 1
            check_present(c, db, sha, *v, what + ": stored object,", reads="all")
            c.ev("object complete after the kill")
        else:
            check_absent(c, db, sha, what)
            c.ev("object absent after the kill")
    # again, by the surviving process
    for sha, (t, d) in sc.targets.items():
        r = db.store(IStream(t, len(d), BytesIO(d)))
        c.eq(bytes(r.binsha), sha, what + ": id when stored again")
        check_present(c, db, sha, t, d, what + ": stored again,", reads="all")
        check_present(c, sc.db(root), sha, t, d, what + ": stored again, new database,", reads="all")
    return done


def fs(c):
    sc = Scenario(c)
    root = sc.fresh()
    act = sc.act(root)
    res = crash.fs_events(root, act)
    if res[0] != "ok":
        c.fail("store without faults failed: " + sc.name, res[2])
    evs = res[1]
    c.log(sc.name, " ".join(e[0] for e in evs))
    c.peak("file-system calls of a store", len(evs))
    points = []
    for k, e in enumerate(evs, 1):
        points.append((k, shim.KILL_BEFORE, "before " + e[0]))
        if e[0] == "write" and e[3] > 1:
            points.append((k, shim.KILL_MID, "half-way through " + e[0]))
    points.append((len(evs), shim.KILL_AFTER, "after the last call"))
    n = 10 if sc.large() else 30
    if len(points) > 2 * n:
        points = points[:n] + c.rng.sample(points[n:-n // 2], n // 2) + points[-n // 2:]
    c.sample(scenario=sc.name, calls=[e[0] for e in evs], kill_points=len(points))
    for k, mode, name in points:
        root = sc.fresh()

        def run():
            act = sc.act(root)
            shim.arm(root, mode, k)
            act()
        code, r = crash.child(run)
        if code != shim.KILLED:
            # the call sequence of the child differs from the observed one
            c.ev("kill point not reached")
            continue
        c.ev("kills at file-system calls")
        n = survive(c, sc, root, "%s killed %s (call %d)" % (sc.name, name, k))
        c.sig(sc.name, name, k, n)


def lines(c):
    sc = Scenario(c)
    root = sc.fresh()

    def count():
        act = sc.act(root)
        with crash.LineKill() as t:
            act()
        return t.k
    code, r = crash.child(count)
    if r[0] != "ok":
        c.fail("store without faults failed: " + sc.name, r[2])
    total = r[1]
    c.log(sc.name, str(total), "lines")
    ks = list(range(1, total + 1))
    limit = 400 if c.thorough else 90
    if sc.large():
        limit //= 4
    if len(ks) > limit:
        last = min(40, limit // 2)
        ks = sorted(c.rng.sample(ks[:-last], limit - last) + ks[-last:])
    c.sample(scenario=sc.name, lines=total, kills=len(ks))
    for k in ks:
        root = sc.fresh()

        def run():
            act = sc.act(root)
            with crash.LineKill(k):
                act()
        code, r = crash.child(run)
        if code != shim.KILLED:
            c.ev("kill point not reached")
            continue
        c.ev("kills at lines")
        n = survive(c, sc, root, "%s killed at line event %d of %d" % (sc.name, k, total))
        c.sig(sc.name, "line", k * 30 // total, n)


FAMILIES = [("fs", fs, 90, 1200), ("lines", lines, 40, 300)]
