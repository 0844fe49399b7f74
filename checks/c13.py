from vlib.world import *
from vlib import crash, shim
from checks.c10 import shutil_rm
import errno
import re
import zlib

NEEDS_SHIM = True
LEVEL = "fault_enumeration"
RULE = ("one case = one pack creation scenario (target directory with earlier packs and loose objects, object sequence, origin of the streams) repeated "
        "with the process killed before, after and half-way through every file-system call, every call failing or transferring less, and every "
        "object of the sequence failing; afterwards the directory is examined file by file and through fresh packed and git databases; distinct = "
        "(scenario, point, kind, outcome)")
REQUIRE = {"kills at file-system calls": 300, "kills at lines": 280, "faults injected": 500, "short writes": 60, "failing object sources": 150,
           "pack available after the kill": 20, "pack absent after the kill": 200, "creations that raised": 500}
ASSUMPTIONS = ("process death only, no loss of written data by the kernel",)
FINAL = re.compile(r"^pack-[0-9a-f]{40}\.(pack|idx)$")


class SourceError(BaseException):
    pass


class Scenario:
    def __init__(self, c):
        rng = c.rng
        self.c, self.n = c, 0
        self.template = os.path.join(c.tmp, "template")
        root = ref.git_repo(self.template)
        self.prior = {}
        self.files = set()
        for k in range(rng.choice((0, 1, 1, 2))):
            es = ref.random_entries(rng, rng.randint(1, 5), 1500)
            if es:
                p, _ = ref.write_pack_files(rng, os.path.join(root, "pack"), es)
                self.prior.update({e.sha: (e.type, e.data) for e in es})
        for k in range(rng.randint(0, 3)):
            t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 1500))
            self.prior[ref.write_loose(root, t, d)] = (t, d)
        self.new = {}
        while len(self.new) < self.count():
            t, d = gen.otype(rng), gen.content(rng, gen.size(rng, self.size()))
            self.new[ref.oid(t, d)] = (t, d)
        if self.prior and rng.random() < .3:
            s = rng.choice(list(self.prior))
            self.new[s] = self.prior[s]
        self.order = list(self.new)
        self.level = rng.choice((0, 1, 1, 6, 9))
        self.announce = rng.random() < .5
        self.origin = rng.choice(("plain", "plain", "mem", "generator"))
        self.modes = {s: rng.choice(gen.SPLITS) for s in self.order}
        self.name = "%d objects, %d bytes, level %d, %s" % (len(self.order), sum(len(d) for _, d in self.new.values()), self.level, self.origin)
        self.files = set(os.listdir(os.path.join(root, "pack")))

    def count(self):
        if not hasattr(self, "_count"):
            self._count = self.c.rng.choice((1, 1, 2, 3, 5, 12))
            self._size = self.c.rng.choice((300, 3000, 60000))
        return self._count

    def size(self):
        return self._size

    def fresh(self):
        self.n += 1
        d = os.path.join(self.c.tmp, "run%d" % self.n)
        crash.copytree(self.template, d)
        return os.path.join(d, "objects")

    def drop(self, root):
        collect()
        shutil_rm(os.path.dirname(root))

    def source(self, sha):
        t, d = self.new[sha]
        return OStream(sha, t, len(d), gen.Source(d, self.modes[sha], self.c.rng))

    def act(self, root, objs=None, count=0):
        if objs is None:
            if self.origin == "mem":
                m = MemoryDB()
                for t, d in self.new.values():
                    m.store(IStream(t, len(d), BytesIO(d)))
                objs = [m.stream(s) for s in self.order]
            else:
                objs = [self.source(s) for s in self.order]
            if self.origin == "generator":
                objs = iter(objs)
        if self.announce and not count:
            count = len(self.order)
        return lambda: PackEntity.create(objs, os.path.join(root, "pack"), count or None, self.level)


def examine(c, sc, root, what, killed, leftovers=True):
    """the directory afterwards -> True if the new pack is available"""
    pd = os.path.join(root, "pack")
    names = set(os.listdir(pd))
    gone = sc.files - names
    if gone:
        c.fail(what + ": earlier pack files are gone", sorted(gone))
    new = names - sc.files
    finals = {n for n in new if FINAL.match(n)}
    if not killed and leftovers and new - finals:
        c.fail(what + ": files left behind", sorted(new - finals))
    for n in finals:
        with open(os.path.join(pd, n), "rb") as f:
            raw = f.read()
        if n.endswith(".pack"):
            try:
                ents = ref.check_pack(raw)
            except (ValueError, IndexError, zlib.error) as e:
                c.fail(what + ": incomplete pack under its final name: %s" % e, n, len(raw))
            c.eq([ref.oid(t, b) for _, t, b, _ in ents], sc.order, what + ": objects of the new pack file")
            c.eq(raw[-20:].hex(), n[5:45], what + ": name of the new pack file")
        else:
            if raw[-20:] != ref.hashlib.sha1(raw[:-20]).digest() or raw[-40:-20].hex() != n[5:45]:
                c.fail(what + ": incomplete index under its final name", n, len(raw))
    packs = {n[:-5] for n in finals if n.endswith(".pack")}
    idxs = {n[:-4] for n in finals if n.endswith(".idx")}
    for n in packs & idxs:
        with open(os.path.join(pd, n + ".pack"), "rb") as f:
            pk = f.read()
        with open(os.path.join(pd, n + ".idx"), "rb") as f:
            ix = f.read()
        try:
            ref.check_idx_v2(ix, pk, ref.check_pack(pk))
        except (ValueError, IndexError) as e:
            c.fail(what + ": invalid index: %s" % e)
    avail = None
    only = [s for s in sc.order if s not in sc.prior]
    for kind, db in (("packed", PackedDB(pd)), ("git", GitDB(root))):
        # enumeration and lookups work
        ids = set(map(bytes, db.sha_iter()))
        for s, v in sc.prior.items():
            if kind == "git" or s in ids:
                check_present(c, db, s, *v, "%s: earlier object through %s db," % (what, kind), reads="all")
        have = [s for s in only if db.has_object(s)]
        if have and len(have) != len(only):
            c.fail("%s: %d of %d new objects available through %s db" % (what, len(have), len(only), kind))
        for s in have:
            check_present(c, db, s, *sc.new[s], "%s: new object through %s db," % (what, kind), reads="all")
        if not have:
            for s in only:
                check_absent(c, db, s, "%s, %s db" % (what, kind))
        c.check(set(have) == ids & set(only), what + ": enumeration and membership disagree")
        if avail not in (None, bool(have)) and only:
            c.fail(what + ": packed and git database disagree")
        avail = bool(have)
        del db
    # the surviving process does it again
    ent = PackEntity.create([sc.source(s) for s in sc.order], pd, len(sc.order), sc.level)
    for s in sc.order:
        i = ent.info(s)
        check_info(c, i, s, sc.new[s][0], len(sc.new[s][1]), what + ": pack created again,")
    del ent
    db = GitDB(root)
    for s, v in list(sc.new.items()) + list(sc.prior.items()):
        check_present(c, db, s, *v, what + ": after creating again,", reads="all")
    del db
    return avail


def events(c, sc):
    root = sc.fresh()
    res = crash.fs_events(root, sc.act(root))
    if res[0] != "ok":
        c.fail("creating a pack without faults failed: " + sc.name, res[2])
    sc.drop(root)
    c.log(sc.name, " ".join(e[0] for e in res[1]))
    return res[1]


def thin(rng, points, n):
    if len(points) <= n:
        return points
    k = n // 3
    return points[:k] + sorted(rng.sample(points[k:-k], n - 2 * k), key=points.index) + points[-k:]


def kill(c):
    sc = Scenario(c)
    evs = events(c, sc)
    points = []
    for k, e in enumerate(evs, 1):
        points.append((k, shim.KILL_BEFORE, "before " + e[0]))
        if e[0] == "write" and e[3] > 1:
            points.append((k, shim.KILL_MID, "half-way through " + e[0]))
    points.append((len(evs), shim.KILL_AFTER, "after the last call"))
    points = thin(c.rng, points, 90 if c.thorough else 36)
    c.sample(scenario=sc.name, calls=len(evs), kills=len(points))
    c.peak("file-system calls of a creation", len(evs))
    for k, mode, name in points:
        root = sc.fresh()

        def run():
            act = sc.act(root)
            shim.arm(root, mode, k)
            act()
        code, r = crash.child(run)
        if code != shim.KILLED:
            c.ev("kill point not reached")
            sc.drop(root)
            continue
        c.ev("kills at file-system calls")
        a = examine(c, sc, root, "%s, killed at call %d %s" % (sc.name, k, name), True)
        c.ev("pack available after the kill" if a else "pack absent after the kill")
        c.sig(sc.name, name, k, a)
        sc.drop(root)


def lines(c):
    sc = Scenario(c)
    root = sc.fresh()

    def count():
        act = sc.act(root)
        with crash.LineKill() as t:
            act()
        return t.k
    code, r = crash.child(count)
    if r[0] != "ok":
        c.fail("creating a pack without faults failed: " + sc.name, r[2])
    sc.drop(root)
    total = r[1]
    ks = list(range(1, total + 1))
    ks = thin(c.rng, ks[:-60], 60 if c.thorough else 12) + ks[-60:]
    if not c.thorough:
        ks = thin(c.rng, ks, 45)
    c.sample(scenario=sc.name, lines=total, kills=len(ks))
    for k in ks:
        root = sc.fresh()

        def run():
            act = sc.act(root)
            with crash.LineKill(k):
                act()
        code, r = crash.child(run)
        if code == shim.KILLED:
            c.ev("kills at lines")
            a = examine(c, sc, root, "%s, killed at line event %d of %d" % (sc.name, k, total), True)
            c.ev("pack available after the kill" if a else "pack absent after the kill")
            c.sig(sc.name, "line", total - k, a)
        else:
            c.ev("kill point not reached")
        sc.drop(root)


def attempt(c, sc, root, act, what, leftovers=None):
    raised = None
    before = fds()
    ent = None
    try:
        ent = act()
    except (Exception, SourceError) as x:
        raised = "%s: %s" % (type(x).__name__, x)
        del x
    hits, evs = shim.hits(), shim.events()
    shim.disarm()
    del ent
    collect()
    left = [t for f, t in fds().items() if t.startswith(root)]
    if left:
        c.fail(what + ": descriptors left open", raised, left)
    c.ev("creations that raised" if raised else "creations completed")
    return raised, hits, evs


def faults(c):
    rng = c.rng
    sc = Scenario(c)
    evs = events(c, sc)
    c.sample(scenario=sc.name, calls=[e[0] for e in evs][:30])
    for k, e in thin(rng, list(enumerate(evs, 1)), 60 if c.thorough else 22):
        plan = [(shim.FAIL, rng.choice((errno.ENOSPC, errno.EIO, errno.EACCES)))]
        if rng.random() < .5:
            plan.append((shim.FAIL_FROM, rng.choice((errno.EIO, errno.ENOSPC, errno.EROFS))))
        if e[0] == "write" and e[3] > 1:
            plan.append((shim.SHORT, 0))
        for mode, err in plan:
            one(c, sc, k, mode, err, e[0])
    one(c, sc, 0, shim.ALL_SHORT, 0, "write")


def one(c, sc, k, mode, err, op):
    root = sc.fresh()
    act = sc.act(root)
    kind = {shim.FAIL: "fails once", shim.FAIL_FROM: "and all later calls fail", shim.SHORT: "is short", shim.ALL_SHORT: "and all writes are short"}[mode]
    what = "%s, call %d (%s) %s %s" % (sc.name, k, op, kind, errno.errorcode.get(err, ""))
    shim.arm(root, mode, k, err)
    raised, hits, evs = attempt(c, sc, root, act, what)
    if not hits:
        c.ev("fault not reached")
        sc.drop(root)
        return
    c.ev("faults injected")
    if mode in (shim.SHORT, shim.ALL_SHORT):
        c.ev("short writes")
    failed = {x.op for x in evs if x.err}
    if not raised and failed & {"write", "open", "rename", "truncate"}:
        c.fail(what + ": no error reported", sorted(failed))
    a = examine(c, sc, root, what, False, leftovers=not failed & {"unlink", "rmdir"})
    if not raised and not a and any(s not in sc.prior for s in sc.order):
        c.fail(what + ": create() returned normally but its objects are not available")
    c.sig(sc.name, op, k, mode, err, bool(raised))
    sc.drop(root)


def source(c):
    rng = c.rng
    sc = Scenario(c)
    c.log(sc.name)
    c.sample(scenario=sc.name)
    n = len(sc.order)
    todo = list(range(n)) if n < 6 else sorted(rng.sample(range(n), 6))
    for j in todo:
        for kind in ("raise", "raise midway", "short source", "long source", "iterator raises", "count too large"):
            t, d = sc.new[sc.order[j]]
            objs = [sc.source(s) for s in sc.order]
            exc = rng.choice((IOError("source"), ValueError("source"), SourceError("source"), EOFError(), MemoryError(), KeyboardInterrupt()))
            count = n
            if kind == "raise":
                objs[j] = OStream(sc.order[j], t, len(d), gen.Source(d + b"x", "full", rng, fail_at=0, exc=exc))
            elif kind == "raise midway":
                objs[j] = OStream(sc.order[j], t, len(d), gen.Source(d + b"x", "partial", rng, fail_at=rng.randint(0, len(d)), exc=exc))
            elif kind == "short source":
                objs[j] = OStream(sc.order[j], t, len(d) + rng.choice((1, 1, 100)), gen.Source(d, sc.modes[sc.order[j]], rng))
            elif kind == "long source":
                if not d:
                    continue
                objs[j] = OStream(sc.order[j], t, len(d) - 1, gen.Source(d, sc.modes[sc.order[j]], rng))
            elif kind == "iterator raises":
                def it(objs=objs):
                    for i, o in enumerate(objs):
                        if i == j:
                            raise exc
                        yield o
                if rng.random() < .5:
                    count = None
                objs = it()
            else:
                count = n + rng.choice((1, 2, 1000))
                objs = objs[:rng.randint(1, n)]
            root = sc.fresh()
            what = "%s, object %d: %s (%s)" % (sc.name, j, kind, type(exc).__name__)
            pd = os.path.join(root, "pack")

            def act():
                try:
                    return PackEntity.create(objs, pd, count, sc.level)
                except KeyboardInterrupt:
                    raise SourceError("interrupt")
            raised, _, _ = attempt(c, sc, root, act, what)
            c.ev("failing object sources")
            if not raised:
                c.fail(what + ": no error")
            a = examine(c, sc, root, what, False)
            only = [s for s in sc.order if s not in sc.prior]
            if a and only:
                c.fail(what + ": the pack is there although creating it failed")
            left = set(os.listdir(pd)) - sc.files
            c.sig(sc.name, kind, j, raised.split(":")[0], len(left))
            sc.drop(root)


FAMILIES = [("kill", kill, 40, 500), ("lines", lines, 24, 250), ("faults", faults, 40, 600), ("source", source, 24, 400)]
