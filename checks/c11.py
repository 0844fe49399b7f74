import gc
import weakref
from vlib.world import *
from vlib import crash, shim
from checks.c10 import shutil_rm
import errno
import sys
import zlib

NEEDS_SHIM = True
LEVEL = "fault_enumeration"
RULE = ("one case = one store scenario repeated with every file-system call failing (ENOSPC, EIO, EACCES; once or from then on) or transferring "
        "only half, or with the source failing/ending at many positions; after each the return value, directory, descriptor table, a fresh database "
        "and the database used are examined; distinct = (scenario, faulted call, error, outcome)")
REQUIRE = {"faults injected": 940, "short writes": 70, "databases released": 270, "source faults": 400, "stores that raised": 1000, "stores completed in spite of the fault": 100, "interrupted stores": 300}


class SourceError(BaseException):
    pass


class Setup:
    def __init__(self, c, ops=("store", "store", "verbatim", "transfer", "git")):
        rng = c.rng
        self.c = c
        self.op = rng.choice(ops)
        self.n = 0
        self.prior = {}
        for k in range(rng.randint(0, 3)):
            t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 2000))
            self.prior[ref.oid(t, d)] = (t, d)
        size = rng.choice((0, 1, rng.randint(1, 300), gen.size(rng, 70000), gen.size(rng, 70000)))
        if rng.random() < .08:
            size = gen.CHUNK + rng.randint(-3, 200000)
        self.t, self.d = gen.otype(rng), gen.content(rng, size, rng.choice(("random", "text", "zeros", "mixed")))
        if self.prior and rng.random() < .12:
            self.t, self.d = rng.choice(list(self.prior.values()))
        self.sha = ref.oid(self.t, self.d)
        self.mode = rng.choice(gen.SPLITS)
        self.name = "%s/%s/%d" % (self.op, "present" if self.sha in self.prior else "new", len(self.d))

    def fresh(self):
        self.n += 1
        root = os.path.join(self.c.tmp, "o%d" % self.n)
        os.makedirs(root)
        for t, d in self.prior.values():
            ref.write_loose(root, t, d)
        return root

    def db(self, root):
        return GitDB(root) if self.op == "git" else LooseObjectDB(root)

    def act(self, db, src=None):
        if self.op == "transfer":
            m = MemoryDB()
            m.store(IStream(self.t, len(self.d), BytesIO(self.d)))
            return lambda: m.stream_copy([self.sha], db)
        if self.op == "verbatim":
            data = zlib.compress(ref.loose_bytes(self.t, self.d), 1)
            s = src(data) if src else gen.Source(data, self.mode, self.c.rng)
            return lambda: db.store(IStream(self.t, len(self.d), s, self.sha))
        s = src(self.d) if src else gen.Source(self.d, self.mode, self.c.rng)
        return lambda: db.store(IStream(self.t, len(self.d), s))


def under(root):
    return sorted(t for t in fds().values() if t.startswith(root))


def judge(c, s, root, db, raised, what, leftovers=True):
    files = set()
    for d, _, fs in os.walk(root):
        for f in fs:
            files.add(os.path.relpath(os.path.join(d, f), root))
    want = {os.path.relpath(ref.loose_path(root, x), root) for x in s.prior}
    mine = os.path.relpath(ref.loose_path(root, s.sha), root)
    present = mine in files
    fresh = s.db(root)
    if present:
        with open(os.path.join(root, mine), "rb") as f:
            raw = f.read()
        try:
            got = ref.parse_loose(raw)
        except ValueError as e:
            c.fail(what + ": incomplete object visible: %s" % e, raised, len(raw))
        if got != (s.t, s.d):
            c.fail(what + ": wrong content visible", raised)
        check_present(c, fresh, s.sha, s.t, s.d, what, reads="all")
    else:
        if not raised:
            c.fail(what + ": store() returned normally but there is no object")
        check_absent(c, fresh, s.sha, what)
        check_absent(c, db, s.sha, what + " (database used)")
    if raised:
        c.ev("stores that raised")
    else:
        c.ev("stores completed in spite of the fault")
    extra = files - want - {mine}
    if extra and leftovers:
        c.fail(what + ": files left behind", raised, sorted(extra))
    c.check(want <= files, what + ": an earlier object is gone")
    for x, v in s.prior.items():
        check_present(c, fresh, x, *v, what + ": earlier object,", reads="all")
    left = under(root)
    if left:
        c.fail(what + ": descriptors left open", raised, left)
    # the database stays usable
    r = db.store(IStream(s.t, len(s.d), BytesIO(s.d)))
    c.eq(bytes(r.binsha), s.sha, what + ": id of the next store")
    check_present(c, db, s.sha, s.t, s.d, what + ": stored after the fault,", reads="all")
    t, d = b"blob", c.rng.randbytes(20)
    check_present(c, db, bytes(db.store(IStream(t, 20, BytesIO(d))).binsha), t, d, what + ": another object stored after the fault,", reads="all")


def fs(c):
    rng = c.rng
    s = Setup(c)
    root = s.fresh()
    res = crash.fs_events(root, s.act(s.db(root)))
    if res[0] != "ok":
        c.fail("store without faults failed: " + s.name, res[2])
    evs = res[1]
    c.log(s.name, " ".join(e[0] for e in evs))
    shutil_rm(root)
    points = [(k, e) for k, e in enumerate(evs, 1)]
    if len(s.d) > 1 << 20 and len(points) > 8:
        points = points[:3] + points[-5:]
    if len(points) > 24:
        points = points[:10] + rng.sample(points[10:-8], 6) + points[-8:]
    c.sample(scenario=s.name, calls=[e[0] for e in evs])
    for k, e in points:
        plan = [(shim.FAIL, errno.ENOSPC), (shim.FAIL, errno.EIO), (shim.FAIL, errno.EACCES)]
        if e[0] not in ("chmod",) or rng.random() < .25:        # retried with growing pauses
            plan.append((shim.FAIL_FROM, rng.choice((errno.EIO, errno.EACCES, errno.ENOSPC, errno.EROFS))))
        if e[0] == "write" and e[3] > 1:
            plan += [(shim.SHORT, 0)]
        if len(s.d) > 1 << 20:
            plan = rng.sample(plan, 2)
        for mode, err in plan:
            one(c, s, k, mode, err, e[0])
    if any(e[0] == "write" and e[3] > 1 for e in evs):
        one(c, s, 0, shim.ALL_SHORT, 0, "write")


def one(c, s, k, mode, err, op):
    root = s.fresh()
    db = s.db(root)
    act = s.act(db)
    kind = {shim.FAIL: "fails once", shim.FAIL_FROM: "and all later calls fail", shim.SHORT: "is short", shim.ALL_SHORT: "and all writes are short"}[mode]
    what = "%s, call %d (%s) %s %s" % (s.name, k, op, kind, errno.errorcode.get(err, ""))
    # memory of a failing store must not matter: only what is visible counts
    shim.arm(root, mode, k, err)
    raised = None
    try:
        act()
    except Exception as x:
        raised = "%s: %s" % (type(x).__name__, x)
    finally:
        n = shim.hits()
        evs = shim.events()
        shim.disarm()
    if not n:
        c.ev("fault not reached")
        shutil_rm(root)
        return
    c.ev("faults injected")
    if mode in (shim.SHORT, shim.ALL_SHORT):
        c.ev("short writes")
    failed = {x.op for x in evs if x.err}
    judge(c, s, root, db, raised, what, leftovers=not failed & {"unlink", "rmdir"})
    c.sig(s.name, op, k, mode, err, bool(raised))
    shutil_rm(root)
    w = weakref.ref(db)
    del db, act
    if w() is not None:
        gc.collect()
    c.ev("databases released" if raised else "databases released after success")
    c.check(w() is None, what + ": the store that ended keeps the database alive", raised)


def source(c):
    rng = c.rng
    s = Setup(c, ("store", "store", "git", "verbatim"))
    n = len(s.d)
    pos = {0, 1, n - 1, n, n // 2, rng.randint(0, n)} | {rng.randint(0, n) for _ in range(6)}
    c.log(s.name, s.mode)
    if n > 1 << 20:
        pos = {n - 1, rng.choice((0, gen.CHUNK, rng.randint(0, n)))}
    for p in sorted(x for x in pos if 0 <= x <= n):
        for kind in ("raise", "raise partial", "end"):
            if kind == "end" and (s.op == "verbatim" or p >= n):
                continue
            exc = rng.choice((IOError("source"), ValueError("source"), SourceError("source"), EOFError(), MemoryError()))
            made = []

            def src(data):
                m = min(p, len(data))
                if kind == "end":
                    r = gen.Source(data, s.mode, rng, end_at=m)
                else:
                    r = gen.Source(data, "partial" if kind == "raise partial" else s.mode, rng, fail_at=m, exc=exc)
                made.append(r)
                return r
            root = s.fresh()
            db = s.db(root)
            act = s.act(db, src)
            raised = None
            try:
                act()
            except (Exception, SourceError) as x:
                raised = "%s: %s" % (type(x).__name__, x)
            what = "%s, source %s at %d" % (s.name, kind, p)
            c.ev("source faults")
            if kind == "end" and not raised:
                c.fail(what + ": no error although the source ended early")
            if kind != "end" and not raised and p < n and s.op != "verbatim":
                c.fail(what + ": the source's error vanished")
            judge(c, s, root, db, raised, what)
            c.sig(s.name, kind, p, type(exc).__name__)
            shutil_rm(root)
    c.sample(scenario=s.name, positions=sorted(pos)[:10])


def short(c):
    """no faults, only short reads: the complete object is stored"""
    rng = c.rng
    s = Setup(c, ("store", "git", "verbatim"))
    mode = rng.choice(("short", "half", "hundred", "one" if len(s.d) < 3000 else "half"))
    root = s.fresh()
    db = s.db(root)
    data = s.d if s.op != "verbatim" else zlib.compress(ref.loose_bytes(s.t, s.d))
    i = IStream(s.t, len(s.d), gen.Source(data, mode, rng), s.sha if s.op == "verbatim" else None)
    r = db.store(i)
    c.eq(bytes(r.binsha), s.sha, "id of an object read in short pieces")
    judge(c, s, root, db, None, "%s from a source with %s reads" % (s.name, mode))
    c.ev("short sources")
    c.sig("short", s.op, mode, len(s.d))


INTERRUPTIBLE = {"rename", "replace", "link", "chmod", "fchmod", "mkdir", "write"}


class Interrupting:
    """another kind of failure: an exception which isn't an error of the operating system arrives at the n-th call into it, before it's made"""

    def __init__(self, at=0, exc=None):
        self.at, self.exc, self.n, self.names = at, exc, 0, []

    def __call__(self, frame, event, arg):
        if event == "c_call" and getattr(arg, "__module__", "") == "posix" and arg.__name__ in INTERRUPTIBLE:
            self.n += 1
            self.names.append(arg.__name__)
            if self.n == self.at:
                raise self.exc()

    def run(self, fn):
        sys.setprofile(self)
        try:
            return fn()
        finally:
            sys.setprofile(None)


def interrupted(c):
    """the user interrupts, or memory is scarce, right before the store writes, makes directories, or shows the object"""
    rng = c.rng
    s = Setup(c)
    root = s.fresh()
    p = Interrupting()
    p.run(s.act(s.db(root)))
    points = list(range(1, p.n + 1))
    if len(points) > 16:
        points = points[:4] + rng.sample(points[4:-6], 6) + points[-6:]
    shutil_rm(root)
    for k in points:
        root = s.fresh()
        db = s.db(root)
        if rng.random() < .5:
            db.has_object(s.sha)
        p = Interrupting(k, rng.choice((KeyboardInterrupt, KeyboardInterrupt, MemoryError, SourceError)))
        raised = None
        try:
            p.run(s.act(db))
        except (Exception, KeyboardInterrupt, SourceError) as e:
            raised = repr(e)
            e = None
        if p.n < k:
            continue
        what = "%s, %s before call %d (%s)" % (s.name, p.exc.__name__, k, p.names[-1])
        c.ev("interrupted stores")
        judge(c, s, root, db, raised, what)
        c.sig("interrupted", s.op, p.names[-1], p.exc.__name__, bool(raised))
        del db
        shutil_rm(root)
    c.log(s.name, p.names)


FAMILIES = [("fs", fs, 70, 1000), ("source", source, 60, 900), ("short", short, 120, 1500), ("interrupted", interrupted, 120, 1500)]
