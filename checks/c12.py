from vlib.world import *
from vlib import crash, shim
from vlib.crash import Proc
import random
import threading
import time

NEEDS_SHIM = True
LEVEL = "exploration"
RULE = ("one case = several writers (and readers) on one loose database directory: (a) processes whose file-system calls are executed in a generated "
        "global order, (b) a second actor run to completion at every executed line of a store, (c) threads and processes with random pauses at "
        "lines and calls; every store's result, every read and the final directory are checked; distinct = observed global orders of file-system "
        "calls / (actor, line) pairs")
MORE = 3
REQUIRE = {"stores": 1500, "forced schedules": 60, "injection points": 560, "concurrent reads": 500, "concurrent stores of one object": 60}


def objects(c, n, maxsize=3000):
    rng = c.rng
    out = []
    for k in range(n):
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, maxsize)) + b"%d" % k
        if out and rng.random() < .3:
            # same first byte: the same directory
            h = ref.oid(*out[0])[:1]
            for i in range(1500):
                if ref.oid(t, b"%d/%d" % (k, i))[:1] == h:
                    d = b"%d/%d" % (k, i)
                    break
        out.append((t, d))
    return out


def final(c, root, model, what, mk=LooseObjectDB):
    """afterwards every object is complete and nothing else is there"""
    files = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            files[os.path.relpath(os.path.join(d, f), root)] = os.path.join(d, f)
    want = {os.path.relpath(ref.loose_path(root, s), root): s for s in model}
    if set(files) - set(want):
        c.fail(what + ": something else remains", sorted(set(files) - set(want)))
    if set(want) - set(files):
        c.fail(what + ": objects lost", sorted(set(want) - set(files)))
    for rel, s in want.items():
        with open(files[rel], "rb") as f:
            raw = f.read()
        c.check(os.stat(files[rel]).st_mode & 0o777 == 0o444, what + ": mode of an object file", rel)
        try:
            got = ref.parse_loose(raw)
        except ValueError as e:
            c.fail(what + ": incomplete object: %s" % e, rel)
        c.check(got == model[s], what + ": wrong content", rel)
    db = mk(root)
    for s, v in model.items():
        check_present(c, db, s, *v, what, reads="all")


def store(db, t, d, rng):
    return bytes(db.store(IStream(t, len(d), gen.Source(d, rng.choice(gen.SPLITS), rng))).binsha)


class Reader:
    """keeps looking at the targets: absent or complete, never gone again"""

    def __init__(self, root, model):
        self.root, self.model = root, model
        self.seen, self.n, self.bad = set(), 0, None
        self.db = LooseObjectDB(root)

    def look(self, rng):
        sha = rng.choice(list(self.model))
        t, d = self.model[sha]
        db = self.db if rng.random() < .3 else LooseObjectDB(self.root)
        self.n += 1
        k = rng.random()
        try:
            if k < .15:
                for s in db.sha_iter():
                    self.seen.add(bytes(s))
                    if s in self.model and db.stream(s).read() != self.model[s][1]:
                        self.bad = "enumerated object reads differently"
                return
            if k < .3:
                if db.has_object(sha):
                    self.seen.add(sha)
                elif sha in self.seen:
                    self.bad = "object disappeared (has_object)"
                return
            s = db.stream(sha) if k < .8 else db.info(sha)
            if bt(s.type) != t or s.size != len(d):
                self.bad = "wrong type or size %r %r" % (s.type, s.size)
            if k < .8:
                got = s.read()
                if got != d:
                    self.bad = "incomplete or wrong content: %d of %d bytes" % (len(got), len(d))
            self.seen.add(sha)
            mode = os.stat(ref.loose_path(self.root, sha)).st_mode
            if mode & 0o444 != 0o444:
                self.bad = "object which not everyone may read: %o" % mode
        except BadObject:
            if sha in self.seen:
                self.bad = "object disappeared"
        except Exception as e:
            self.bad = "%s: %s" % (type(e).__name__, e)


def gated(c):
    """processes whose file-system calls follow a given global order"""
    rng = c.rng
    root = os.path.join(c.tmp, "o")
    os.makedirs(root)
    objs = objects(c, rng.randint(1, 3))
    model = {ref.oid(*o): o for o in objs}
    nw = rng.choice((2, 2, 3, 4))
    nr = rng.choice((0, 1, 1))
    plans = []
    for w in range(nw):
        plan = [rng.choice(objs) for _ in range(rng.choice((1, 1, 2)))]
        plans.append(plan)
    if rng.random() < .6:
        for p in plans:
            p[0] = objs[0]
        c.ev("concurrent stores of one object")
    used = {ref.oid(*o): o for p in plans for o in p}
    # a schedule with bursts: context switches at any place
    who = []
    while len(who) < 60 * (nw + nr):
        who += [rng.randrange(nw + nr)] * rng.choice((1, 1, 1, 2, 3, 5, 8))
    g = shim.Gate(who[:4000], nw + nr)
    seed = rng.randrange(1 << 60)

    def writer(w):
        def run():
            r = random.Random(seed + w)
            db = LooseObjectDB(root)
            shim.arm(root, shim.COUNT)
            g.join(w)
            try:
                out = [store(db, t, d, r) for t, d in plans[w]]
            finally:
                g.leave(w)
                g.off()
                shim.disarm()
            return out, [(e.ts, e.op, e.ret, e.err, os.path.relpath(e.path, root)[:3]) for e in shim.events()]
        return run

    def reader(w):
        def run():
            r = random.Random(seed + w)
            rd = Reader(root, used)
            shim.arm(root, shim.COUNT)
            shim.see_ropen(1)
            g.join(w)
            try:
                for k in range(25):
                    rd.look(r)
                    if rd.bad:
                        break
            finally:
                g.leave(w)
                g.off()
                shim.disarm()
            return rd.bad, rd.n, [(e.ts, e.op, e.ret, e.err, "") for e in shim.events()]
        return run
    procs = [Proc(writer(w)) for w in range(nw)] + [Proc(reader(nw + k)) for k in range(nr)]
    try:
        res = [p.result() for p in procs]
    finally:
        for p in procs:
            p.kill()
    merged = []
    for w, r in enumerate(res):
        if r[0] != "ok":
            c.fail("concurrent store failed" if w < nw else "concurrent reader failed", r[-1])
        if w < nw:
            ids, evs = r[1]
            c.eq(ids, [ref.oid(*o) for o in plans[w]], "ids returned by concurrent stores")
            c.ev("stores", len(ids))
        else:
            bad, n, evs = r[1]
            c.ev("concurrent reads", n)
            if bad:
                c.fail("concurrent reader: " + bad)
        merged += [(ts, w, op, ret < 0) for ts, op, ret, err, p in evs]
    merged.sort()
    c.ev("forced schedules")
    c.ev("file-system calls scheduled", len(merged))
    c.ev("schedule timeouts", g.timeouts)
    c.sig("schedule", tuple((w, op, f) for _, w, op, f in merged))
    c.log("order", " ".join("%d:%s" % (w, op) for _, w, op, _ in merged)[:300])
    c.sample(writers=nw, readers=nr, order=" ".join("%d:%s" % (w, op) for _, w, op, _ in merged)[:400])
    final(c, root, used, "after a forced schedule of %d writers" % nw)


def inject(c):
    """a second actor runs completely at each line of a store"""
    rng = c.rng
    objs = objects(c, 2, 500)
    (t, d), other = objs
    sha = ref.oid(t, d)
    what = rng.choice(("same", "same", "other", "read", "process"))
    shared = rng.random() < .4

    def counted():
        root = os.path.join(c.tmp, "count")
        os.makedirs(root)
        db = LooseObjectDB(root)
        with crash.LineHook(lambda k, f: None) as h:
            store(db, t, d, random.Random(1))
        return h.k
    total = counted()
    ks = list(range(1, total + 1))
    if len(ks) > 70 and not c.thorough:
        ks = sorted(rng.sample(ks, 70))
    if what == "process":
        ks = rng.sample(ks, min(len(ks), 25))
    slow = 0
    for k in ks:
        root = os.path.join(c.tmp, "o%d" % k)
        os.makedirs(root)
        db = LooseObjectDB(root)
        db2 = db if shared else LooseObjectDB(root)
        model = {sha: (t, d)}
        if what == "other":
            model[ref.oid(*other)] = other
        out = []

        def actor():
            try:
                if what in ("same", "process"):
                    out.append(store(db2, t, d, random.Random(2)))
                elif what == "other":
                    out.append(store(db2, other[0], other[1], random.Random(2)))
                else:
                    rd = Reader(root, model)
                    r = random.Random(k)
                    for _ in range(4):
                        rd.look(r)
                    out.append(rd.bad)
                    out.append(rd.seen)
            except BaseException as e:
                out.append(e)

        def hook(n, frame):
            nonlocal slow
            if n == k:
                if what == "process":
                    def run():
                        actor()
                        if isinstance(out[0], BaseException):
                            raise out[0]
                        return out[0]
                    p = Proc(run)
                    r = p.result()
                    out.append(r[1] if r[0] == "ok" else RuntimeError(r[-1]))
                    return
                th = threading.Thread(target=actor)
                th.start()
                th.join(5 if slow < 2 else .05)
                if th.is_alive():
                    slow += 1
                pending.append(th)
        pending = []
        with crash.LineHook(hook):
            got = store(db, t, d, random.Random(1))
        for th in pending:
            th.join()
        c.ev("injection points")
        c.ev("stores", 2 if what != "read" else 1)
        where = "second actor (%s) at line event %d of %d" % (what, k, total)
        c.eq(got, sha, "id of the interrupted store, " + where)
        if not out:
            c.ev("injection point not reached")
        elif isinstance(out[0], BaseException):
            c.fail("second actor failed, " + where, "%s: %s" % (type(out[0]).__name__, out[0]))
        elif what == "read":
            if out[0]:
                c.fail("reader: " + out[0] + ", " + where)
            c.ev("concurrent reads", 4)
        else:
            c.eq(out[0], ref.oid(*(other if what == "other" else (t, d))), "id of the second store, " + where)
            if what != "other":
                c.ev("concurrent stores of one object")
        final(c, root, model, where)
        c.sig(what, shared, k)
    c.sample(actor=what, lines=total, points=len(ks), shared_database=shared)


def storm(c):
    """threads or processes with pauses at random lines and calls"""
    rng = c.rng
    root = os.path.join(c.tmp, "o")
    os.makedirs(root)
    use_threads = c.index % 2 == 0
    nw = rng.choice((2, 4, 6))
    objs = objects(c, rng.choice((1, 2, 6)), 20000)
    model = {ref.oid(*o): o for o in objs}
    per = rng.choice((3, 6))
    seed = rng.randrange(1 << 60)
    git = rng.random() < .3
    mk = LooseObjectDB
    if git:
        # a plain objects directory as git creates it
        for n in ("pack", "info"):
            os.makedirs(os.path.join(root, n))
        mk = GitDB
    # sharing one database object between threads is only looked at for loose databases
    shared = LooseObjectDB(root) if rng.random() < .5 and use_threads else None
    stop = []
    order = [[rng.choice(objs) for _ in range(per)] for _ in range(nw)]
    for o in order:
        o[0] = objs[0]
    c.ev("concurrent stores of one object")
    used = {ref.oid(*o): o for x in order for o in x}

    def work(w):
        r = random.Random(seed + w)
        db = shared or mk(root)
        out = []

        def hook(k, frame):
            x = r.random()
            if x < .02:
                time.sleep(r.random() * .0006)
            elif x < .15:
                time.sleep(0)
        with crash.LineHook(hook):
            for t, d in order[w]:
                s = store(db, t, d, r)
                if not db.has_object(s) or LooseObjectDB(root).stream(s).read() != d:
                    raise RuntimeError("own object not readable right after its store")
                out.append(s)
        return out
    rd = Reader(root, used)
    res = []
    if use_threads:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        rr = random.Random(seed - 1)

        def guarded(w):
            try:
                res.append((w, work(w)))
            except BaseException as e:
                res.append((w, e))

        def reading():
            while not stop and not rd.bad:
                rd.look(rr)
        ths = [threading.Thread(target=guarded, args=(w,)) for w in range(nw)]
        rt = threading.Thread(target=reading)
        try:
            for t in ths + [rt]:
                t.start()
            for t in ths:
                t.join()
        finally:
            stop.append(1)
            rt.join()
            sys.setswitchinterval(old)
    else:
        def child(w):
            def run():
                shim.arm(root, shim.COUNT)
                shim.delay(300, seed + w)
                try:
                    return work(w)
                finally:
                    shim.disarm()
            return run

        def reading():
            r = random.Random(seed - 1)
            t0 = time.monotonic()
            while time.monotonic() - t0 < .15 and not rd.bad:
                rd.look(r)
            return rd.bad, rd.n
        procs = [Proc(child(w)) for w in range(nw)] + [Proc(reading)]
        try:
            rs = [p.result() for p in procs]
        finally:
            for p in procs:
                p.kill()
        for w, r in enumerate(rs[:-1]):
            res.append((w, r[1] if r[0] == "ok" else RuntimeError(r[-1])))
        if rs[-1][0] != "ok":
            c.fail("reader failed", rs[-1][-1])
        rd.bad, rd.n = rs[-1][1]
    c.ev("concurrent reads", rd.n)
    for w, r in res:
        if isinstance(r, BaseException):
            c.fail("concurrent store failed (%s)" % ("threads" if use_threads else "processes"), "%s: %s" % (type(r).__name__, r))
        c.eq(r, [ref.oid(*o) for o in order[w]], "ids returned by concurrent stores")
        c.ev("stores", len(r))
    c.eq(len(res), nw, "writers that finished")
    if rd.bad:
        c.fail("concurrent reader: " + rd.bad)
    final(c, root, used, "after %d concurrent %s" % (nw, "threads" if use_threads else "processes"))
    c.sig("storm", use_threads, nw, len(objs), git, shared is not None)


FAMILIES = [("gated", gated, 160, 3000), ("inject", inject, 24, 200), ("storm", storm, 80, 1000)]
