from vlib.world import *
from vlib import crash
from checks.c08 import fill
from checks.c09 import Live
from checks.c28 import locations
import random
import zlib
import sys
import time
import threading
from contextlib import nullcontext as Nothing

LEVEL = "exploration"
RULE = ("one case = one open, loaded database shared by two threads and two operations; the second runs completely in another thread at one executed "
        "line of the first, for up to 40 lines of the first; both must answer as if alone; distinct = (database kind, first operation, second "
        "operation, function interrupted)")
REQUIRE = {"interruptions": 8000, "operations checked": 16000, "interruptions of updates": 1500, "interruptions while loading": 1000, "operations in parallel": 4000, "updates": 1000,
           "redirected stores": 1000, "stores": 1900, "updates overtaking": 650, "queries after an update": 15000,
           "pairs of stores": 600, "changed references overtaking": 700, "vanishing objects": 80, "stores in parallel": 1000, "child processes": 350}


def ops(c, kind, db, model, rng):
    """-> [(name, function, expected)]; every function uses nothing but db and what it opens itself"""
    sha = rng.choice(list(model))
    t, d = model[sha]
    absent = rng.randbytes(20)
    if kind == "entity":
        return entity_ops(c, db, model, sha, absent, rng)
    n = rng.randint(30, 40)
    sizes = [rng.choice((1, 100, 5000, 70000)) for _ in range(3)]

    def pieces():
        s = db.stream(sha)
        out = [s.read(k) for k in sizes]
        return b"".join(map(bytes, out + [s.read()])), s.size

    def gone():
        try:
            db.stream(absent)
        except BadObject:
            return True
    out = [("has_object", lambda: bool(db.has_object(sha)), True), ("absent", lambda: bool(db.has_object(absent)), False),
           ("info", lambda: (lambda i: (bytes(i.binsha), bt(i.type), i.size))(db.info(sha)), (sha, t, len(d))),
           ("stream", pieces, (d, len(d))), ("missing", gone, True),
           ("ids", lambda: sorted(set(map(bytes, db.sha_iter()))), sorted(model))]
    if kind == "packed":
        out.append(("partial", lambda: bytes(db.partial_to_complete_sha(sha[:n // 2], n // 2 * 2)), sha))
    elif kind != "memory":
        out.append(("partial", lambda: bytes(db.partial_to_complete_sha_hex(sha.hex()[:n])), sha))
    if kind != "memory":
        force = rng.random() < .7
        out.append(("update", lambda: db.update_cache(force=force) and False, None))
    return out


def entity_ops(c, ent, model, sha, absent, rng):
    t, d = model[sha]
    here = sorted(model)
    at = here.index(sha)
    crc = rng.random() < .5
    n = rng.randint(30, 40)

    def gone():
        try:
            ent.info(absent)
        except BadObject:
            return True
    with open(ent.pack().path(), "rb") as f:
        end = f.read()[-20:]
    return [("info", lambda: (lambda i: (bytes(i.binsha), bt(i.type), i.size))(ent.info(sha)), (sha, t, len(d))),
            ("stream", lambda: bytes(ent.stream(sha).read()), d), ("missing", gone, True),
            ("info_at_index", lambda: bytes(ent.info_at_index(at).binsha), sha), ("stream_at_index", lambda: bytes(ent.stream_at_index(at).read()), d),
            ("ids", lambda: sorted(bytes(i.binsha) for i in ent.info_iter()), here),
            ("streams", lambda: sorted((bytes(i.binsha), bytes(i.read())) for i in ent.stream_iter()), [(s, model[s][1]) for s in here]),
            ("index", lambda: ent.index().sha_to_index(sha), at), ("partial", lambda: ent.index().partial_sha_to_index(sha[:n // 2], n // 2 * 2), at),
            ("crcs", lambda: ent.is_valid_stream(sha, crc), True), ("chain", lambda: ent.collect_streams(sha)[0].pack_offset, c.offsets[sha]),
            ("checksum", lambda: bytes(ent.pack().checksum()), end), ("sizes", lambda: (ent.pack().size(), ent.index().size(), ent.pack().version()), (len(here), len(here), 2)),
            ("objects", lambda: len(list(ent.pack().stream_iter())), len(here))]


def opened(c, r, kind, model):
    if kind == "entity":
        return PackEntity(c.pack)
    db = {"git": lambda: GitDB(r.root), "packed": lambda: PackedDB(os.path.join(r.root, "pack")), "loose": lambda: LooseObjectDB(r.root),
          "memory": MemoryDB, "reference": lambda: ReferenceDB(os.path.join(r.root, "info", "alternates"))}[kind]()
    if kind == "memory":
        for s, (t, d) in model.items():
            db.store(IStream(t, len(d), BytesIO(d)))
    return db


def often(db, seen=None):
    """sort the packs at every query"""
    if isinstance(db, PackedDB):
        db._sort_interval = 1
    elif hasattr(db, "databases"):
        for x in db.databases():
            often(x)


def use(db, model):
    if isinstance(db, PackEntity):
        return [db.stream(s).read() for s in model]
    for s in model:
        db.stream(s).read()
    db.has_object(bytes(20))


def world(c, kind):
    rng = c.rng
    pool = {}
    main, alt = Live(c, "main"), Live(c, "alt")
    for r in (main, alt):
        for _ in range(rng.choice((1, 2))):
            fill(c, r, pool, 5)
    if rng.random() < .5 or kind == "reference":
        main.alts = [alt]
        main.write_alts()

    if kind == "entity":
        d = os.path.join(c.tmp, "one")
        os.mkdir(d)
        c.pack, es = ref.write_pack_files(rng, d, ref.random_entries(rng, rng.randint(2, 12), 3000, delta_share=.4), idx_version=2)
        c.offsets = {e.sha: e.offset for e in es}
        es = {e.sha: (e.type, e.data) for e in es}

    def model():
        if kind == "entity":
            return es
        if kind == "packed":
            return {k: v for p in main.packs for k, v in p.items()}
        return dict(main.loose) if kind == "loose" else {k: v for a in main.alts for k, v in a.all().items()} if kind == "reference" else main.all()
    return main, alt, pool, model


def interrupt(c, a, b, at, kind, state, loose=()):
    """run a, at its line number at run b in another thread -> name of the function interrupted or None"""
    res, where, threads = [], [], []

    def other():
        try:
            res.append(b[1]())
        except Exception as e:
            res.append(e)

    def hook(k, frame):
        if k == at:
            where.append(frame.f_code.co_name)
            t = threading.Thread(target=other, daemon=True)
            t.start()
            # it might have to wait for a lock held by the interrupted one
            t.join(.01)
            threads.append(t)
    err = got = None
    try:
        with crash.LineHook(hook, also="/smmap/") as h:
            got = a[1]()
    except Exception as e:
        err = e
    if not where:
        return None, h.k
    threads[0].join(60)
    if not res:
        c.fail("%s (%s): %s interrupted in %s by %s: the latter didn't finish" % (kind, state, a[0], where[0], b[0]))
    c.ev("interruptions")
    if where[0] == "<lambda>":
        c.ev("interruptions while sorting")
    if a[0] == "update":
        c.ev("interruptions of updates")
    if state == "cold":
        c.ev("interruptions while loading")
    c.log(kind, state, a[0], "interrupted at line", at, "in", where[0], "by", b[0])
    what = "%s (%s): %s interrupted in %s by %s:" % (kind, state, a[0], where[0], b[0])
    if err is not None:
        c.fail(what + " the interrupted one failed", repr(err))
    if isinstance(res[0], Exception):
        c.fail(what + " the interrupting one failed", repr(res[0]))
    for (name, _, want), g in ((a, got), (b, res[0])):
        c.ev("operations checked")
        if name not in loose:
            c.eq(g, want, what + " " + name)
    c.sig(kind, state, a[0], b[0], where[0])
    return where[0], h.k


def preempted(c):
    rng = c.rng
    kind = rng.choice(("git", "git", "packed", "packed", "loose", "memory", "reference", "entity"))
    main, alt, pool, model = world(c, kind)
    m = model()
    if not m:
        return
    with small_windows(rng.choice((4096, 16384))) if rng.random() < .4 and kind != "memory" else Nothing():
        shared(c, rng, kind, main, m)


def shared(c, rng, kind, main, m):
    state = rng.choice(("cold", "used", "used"))
    db = opened(c, main, kind, m)
    if state == "used":
        use(db, m)
        if rng.random() < .5:
            often(db)
    for _ in range(3):
        pick = ops(c, kind, db, m, rng)
        ia, ib = rng.randrange(len(pick)), rng.randrange(len(pick))
        seed = rng.random()
        n, k = 40, 0
        points = None
        while points is None or points:
            if state == "cold":
                db = opened(c, main, kind, m)
                collect()
                rng2 = random.Random(seed)
                pick = ops(c, kind, db, m, rng2)
            if points is None:
                _, n = interrupt(c, pick[ia], pick[ib], -1, kind, state, ("update",))
                points = sorted(rng.sample(range(1, n + 1), min(n, 40 if state == "used" else 15)), reverse=True)
                continue
            interrupt(c, pick[ia], pick[ib], points.pop(), kind, state, ("update",))
    del db, pick
    collect()


def stress(c):
    """threads running freely, switched as often as the interpreter can"""
    rng = c.rng
    kind = rng.choice(("git", "git", "packed", "packed", "loose", "reference", "entity", "entity", "memory"))
    main, alt, pool, model = world(c, kind)
    m = model()
    if not m:
        return
    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with small_windows(rng.choice((4096, 16384))) if rng.random() < .4 else Nothing():
            for _ in range(rng.choice((2, 6))):
                threaded(c, rng, kind, main, m)
    finally:
        sys.setswitchinterval(before)
    collect()


def threaded(c, rng, kind, main, m):
    db = opened(c, main, kind, m)
    if rng.random() < .5:
        use(db, m)
    often_ = rng.random() < .5
    if often_ and "_entities" in getattr(db, "__dict__", ()):
        often(db)
    n = rng.choice((2, 3, 5))
    # databases don't have to be the same to share files
    apart = rng.random() < .3 and kind != "memory"
    dbs = [opened(c, main, kind, m) if apart else db for _ in range(n)]
    jobs = [[rng.choice(ops(c, kind, x, m, rng)) for _ in range(10)] for x in dbs]
    stored = []
    if kind in ("git", "loose", "memory") and rng.random() < .4:
        same = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))

        def store(x, t, d):
            def fn():
                s = x.store(IStream(t, len(d), BytesIO(d))).binsha
                return bytes(s), bytes(x.stream(s).read())
            return "store", fn, (ref.oid(t, d), d)
        for x, j in zip(dbs, jobs):
            for i, job in enumerate(j):
                if rng.random() < .3 or job[0] == "ids":
                    t, d = same if rng.random() < .3 else (gen.otype(rng), gen.content(rng, gen.size(rng, 3000)))
                    j[i] = store(x, t, d)
                    stored.append((t, d))
        c.ev("stores in parallel", len(stored))
    gate = threading.Barrier(n)
    wrong = []

    def work(mine):
        gate.wait()
        for name, fn, want in mine:
            try:
                got = fn()
            except Exception as e:
                wrong.append("%s failed: %r" % (name, e))
                return
            if name != "update" and got != want:
                wrong.append("%s: wrong answer %.80r" % (name, got))
                return
    ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    c.ev("threads", n)
    c.ev("operations in parallel", n * 10)
    c.check(not any(t.is_alive() for t in ts), "%s: threads don't finish" % kind)
    c.check(not wrong, "%s, %d threads: " % (kind, n) + "; ".join(wrong[:2]))
    for t, d in stored:
        m[ref.oid(t, d)] = t, d
        check_present(c, dbs[0], ref.oid(t, d), t, d, "%s, stored by one of %d threads:" % (kind, n))
    c.sig("stress", kind, n, tuple(sorted({j[0] for js in jobs for j in js})))


def attempt(fn, s):
    try:
        fn(s)
    except gitdb.exc.ODBError:
        pass


def updating(c):
    """one of the threads updates, and there is something to update: objects which are there all the time are found all the time"""
    rng = c.rng
    kind = rng.choice(("git", "git", "packed", "reference"))
    main, alt, pool, model = world(c, kind)
    for r in (main, alt):
        if not r.has_packdir():
            os.mkdir(os.path.join(r.root, "pack"))
    db = opened(c, main, kind, None)
    if rng.random() < .5:
        often(db)
    at = rng.randint(1, 10)
    for _ in range(rng.choice((8, 25))):
        before, where0 = model(), locations(main, kind)
        use(db, before)
        for _ in range(rng.choice((1, 2, 3))):
            r = rng.choice((main, alt))
            r.change(pool, [alt] if r is main else [])
            if not r.has_packdir():
                os.mkdir(os.path.join(r.root, "pack"))
        after = model()
        # nothing is expected of objects which are moved
        now = locations(main, kind)
        both = {s: v for s, v in before.items() if s in after and where0[s] <= now.get(s, set())}
        if both:
            up = ("update", lambda: db.update_cache(force=True) and None, None)
            q = rng.choice([o for o in ops(c, kind, db, both, rng) if o[0] not in ("ids", "update", "absent", "missing", "partial")])
            lost = [s for s in before if s not in both]
            if lost and rng.random() < .5:
                # whatever it answers while they disappear or move
                s = rng.choice(lost)
                q = ("query of a changed object", lambda: attempt(rng.choice((db.has_object, db.info, db.stream)), s), None)
            a, b = (up, q) if rng.random() < .6 else (q, up)
            where, n = interrupt(c, a, b, at, kind, "changing", ("update",))
            if where is None:
                at = rng.randint(1, max(2, n - 1))
            else:
                at += rng.choice((1, 1, 2, 5))
                for s in sorted(set(before) | set(after)):
                    # the update is over
                    c.ev("queries after an update")
                    what = "%s: after %s interrupted by %s in %s:" % (kind, a[0], b[0], where)
                    c.eq(bool(db.has_object(s)), s in after, what + " has_object()")
                    if s in after:
                        c.eq(bytes(db.stream(s).read()), after[s][1], what + " content")
        if not both or where is None or rng.random() < .3:
            db.update_cache(force=True)
        c.ev("updates")
        have = set(map(bytes, db.sha_iter()))
        c.eq(have, set(after), "%s: ids after an interrupted update" % kind)
    del db
    collect()


def overtaken(c):
    """while a query loads a database, or a thread updates it, something changes and another thread updates: that update counts"""
    rng = c.rng
    kind = rng.choice(("git", "git", "packed", "reference", "loose"))
    main, alt, pool, model = world(c, kind)
    for r in (main, alt):
        if kind == "packed" and not r.has_packdir():
            os.mkdir(os.path.join(r.root, "pack"))
    at = rng.randint(1, 15)
    for _ in range(rng.choice((6, 15))):
        db = opened(c, main, kind, None)
        before = model()
        cold = rng.random() < .7
        if not cold:
            use(db, before)
        s = rng.choice(list(before) or [bytes(20)])
        # what is asked for goes away in the meantime
        owner = [r for r in (main, alt) if s in r.loose]
        gone = kind != "packed" and owner and rng.random() < .5
        threads, where, errs = [], [], []

        def other():
            try:
                if gone:
                    for r in owner:
                        os.unlink(ref.loose_path(r.root, s))
                        del r.loose[s]
                    c.ev("vanishing objects")
                for _ in range(rng.choice((1, 2))):
                    r = rng.choice((main, alt))
                    r.change(pool, [alt] if r is main else [])
                    if kind == "packed" and not r.has_packdir():
                        os.mkdir(os.path.join(r.root, "pack"))
                db.update_cache(force=True)
            except BaseException as e:
                errs.append(e)

        def hook(k, frame):
            if k == at:
                where.append(frame.f_code.co_name)
                t = threading.Thread(target=other, daemon=True)
                t.start()
                t.join(.01)
                threads.append(t)
        a = "query" if gone else rng.choice(("query", "query", "update"))
        try:
            with crash.LineHook(hook, also="/smmap/") as h:
                if a == "update":
                    db.update_cache(force=rng.random() < .7)
                else:
                    attempt(db.has_object if gone and rng.random() < .7 else rng.choice((db.has_object, db.info, lambda s: list(db.sha_iter()), lambda s: db.size())), s)
        except Exception:
            # objects may disappear while it looks at them
            if not where:
                raise
        if not where:
            at = rng.randint(1, max(2, h.k - 1))
            continue
        at += rng.choice((1, 1, 2, 5))
        threads[0].join(60)
        what = "%s (%s): %s overtaken in %s by a change and an update:" % (kind, "cold" if cold else "used", a, where[0])
        c.check(not threads[0].is_alive(), what + " the update didn't finish")
        c.check(not errs, what + " the update failed", errs)
        after = model()
        c.ev("updates overtaking")
        c.eq(set(map(bytes, db.sha_iter())), set(after), what + " ids")
        for s in sorted(set(before) | set(after)):
            c.eq(bool(db.has_object(s)), s in after, what + " has_object()")
            if s in after:
                c.eq(bytes(db.stream(s).read()), after[s][1], what + " content")
        c.sig(kind, cold, a, where[0])
        del db, h
        collect()


def rewired(c):
    """while a thread uses or updates a database, another one changes what the database refers to, and updates: that update counts"""
    rng = c.rng
    kind = rng.choice(("git", "reference", "reference"))
    pool = {}
    main, others = Live(c, "main"), [Live(c, "alt%d" % k) for k in range(3)]
    for r in [main] + others:
        fill(c, r, pool, 4)
    if rng.random() < .3:
        others[2].alts = [others[1]]
        others[2].write_alts()

    def model():
        return {k: v for a in main.alts for k, v in a.all().items()} if kind == "reference" else main.all()

    def rewire():
        before = list(main.alts)
        while main.alts == before:
            main.alts = rng.sample(others, rng.randint(0, 3))
        main.write_alts()
    at, short = rng.randint(1, 10), 0
    rewire()
    db = opened(c, main, kind, None)
    for _ in range(rng.choice((6, 15))):
        if rng.random() < .2:
            db = opened(c, main, kind, None)
        s = rng.choice(list(pool) or [bytes(20)])
        threads, where, errs = [], [], []
        if rng.random() < .7:
            # there is something to do for the first one as well
            rewire()

        def other():
            try:
                rewire()
                db.update_cache(force=True)
            except BaseException as e:
                errs.append(e)

        def hook(k, frame):
            if k == at:
                where.append(frame.f_code.co_name)
                t = threading.Thread(target=other, daemon=True)
                t.start()
                t.join(.01)
                threads.append(t)
        a = rng.choice(("query", "update", "update", "update"))
        with crash.LineHook(hook, also="/smmap/") as h:
            if a == "update":
                db.update_cache(force=rng.random() < .7)
            else:
                attempt(rng.choice((db.has_object, db.info, lambda s: list(db.sha_iter()), lambda s: db.size())), s)
        if not where:
            at = rng.randint(1, max(2, h.k - 1))
            db.update_cache(force=True)
            continue
        at += rng.choice((1, 2, 3, 7))
        threads[0].join(60)
        what = "%s: %s overtaken in %s by a change of what it refers to and an update:" % (kind, a, where[0])
        c.check(not threads[0].is_alive(), what + " the update didn't finish")
        c.check(not errs, what + " the update failed", errs)
        after = model()
        c.ev("changed references overtaking")
        c.eq(set(map(bytes, db.sha_iter())), set(after), what + " ids")
        for s in sorted(pool):
            c.eq(bool(db.has_object(s)), s in after, what + " has_object()")
            if s in after:
                c.eq(bytes(db.stream(s).read()), after[s][1], what + " content")
        c.sig("rewired", kind, a, where[0], len(main.alts))
    del db, h
    collect()


def storing(c):
    """one of the threads stores, maybe into a stream"""
    rng = c.rng
    kind = rng.choice(("git", "git", "git", "loose", "memory"))
    main, alt, pool, model = world(c, kind)
    m = model()
    if not m:
        return
    main.read_only = False
    for _ in range(3):
        db = opened(c, main, kind, m)
        if rng.random() < .8:
            use(db, m)
        redirected = kind != "memory" and rng.random() < .5
        if kind == "git":
            # it takes the stream once it is loaded
            db.databases()
        points, seed = None, rng.random()
        while points is None or points:
            at = points.pop() if points else -1
            t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 3000))
            if rng.random() < .1:
                t, d = rng.choice(list(m.values()))
            sha = ref.oid(t, d)
            new = sha not in m
            w = gitdb.stream.ZippedStoreShaWriter() if redirected else None
            if kind != "memory":
                db.set_ostream(w)
            files = snapshot(main.root) if redirected else None
            st = ("store", lambda: bytes(db.store(IStream(t, len(d), BytesIO(d))).binsha), sha)
            r2 = random.Random(seed)
            q = r2.choice([o for o in ops(c, kind, db, m, r2) if o[0] not in ("ids",)] + ([("update", lambda: db.update_cache(force=True) and False, None)] * 4 if kind != "memory" else []))
            if r2.random() < .15:
                least, most = set(m), set(m) | {sha}
                q = ("enumeration", lambda: least <= set(map(bytes, db.sha_iter())) <= most, True)
            if r2.random() < .3 and not redirected:
                t2, d2 = (t, d) if r2.random() < .2 else (gen.otype(rng), gen.content(rng, gen.size(rng, 3000)))
                q = ("another store", lambda: bytes(db.store(IStream(t2, len(d2), BytesIO(d2))).binsha), ref.oid(t2, d2))
            a, b = (st, q) if r2.random() < .4 else (q, st)
            where, n = interrupt(c, a, b, at, kind, "redirected" if redirected else "storing", ("update",))
            if points is None:
                points = sorted(rng.sample(range(1, n + 1), min(n, 25)), reverse=True)
            what = "%s: %s interrupted in %s by %s:" % (kind, a[0], where, b[0])
            if where is not None and redirected:
                c.ev("redirected stores")
                w.close()
                c.eq(w.sha(as_hex=False), sha, what + " id of what the stream received")
                c.eq(zlib.decompress(w.getvalue()), ref.loose_bytes(t, d), what + " what the stream received")
                c.eq(db.ostream(), w, what + " stream which is set")
            if redirected:
                c.eq(snapshot(main.root), files, what + " files changed by a redirected store")
                c.check(bool(db.has_object(sha)) == (not new), what + " presence after a redirected store")
            elif where is not None:
                c.ev("stores")
                m[sha] = (t, d)
                check_present(c, db, sha, t, d, what + " object stored")
                if q[0] == "another store":
                    c.ev("pairs of stores")
                    check_present(c, db, q[2], t2, d2, what + " other object stored")
            elif b is not st:
                m[sha] = (t, d)
            if q[0] == "another store" and not (where is None and a is st):
                m[q[2]] = (t2, d2)
        del db
        collect()


def child(c, todo, what):
    """run the operations in a forked process, which has just this thread, and compare"""
    def run():
        for name, fn, want in todo:
            try:
                got = fn()
            except Exception as e:
                got = e
            if name != "update" and (isinstance(got, Exception) or got != want):
                return "%s: %.200r" % (name, got)
    wait = in_child(run)

    def join():
        e = wait()
        c.ev("child processes")
        c.check(e is None, what + " in the forked process:", e)
    return join


def forked(c):
    """a process is forked while another thread is in the middle of an operation: both go on as if alone"""
    rng = c.rng
    kind = rng.choice(("git", "git", "packed", "packed", "loose", "reference", "entity", "memory"))
    main, alt, pool, model = world(c, kind)
    m = model()
    if not m:
        return
    state = rng.choice(("cold", "used", "used"))
    db = opened(c, main, kind, m)
    n = 60
    for _ in range(12):
        if state == "cold":
            db = opened(c, main, kind, m)
        elif rng.random() < .2:
            use(db, m)
        pick = ops(c, kind, db, m, rng)
        a = rng.choice(pick)
        todo = [rng.choice(pick) for _ in range(3)]
        at = rng.randint(1, n)
        now, where, res = threading.Event(), [], []

        def hook(k, frame):
            if k == at:
                where.append(frame.f_code.co_name)
                now.set()
                time.sleep(.003)

        def work():
            try:
                with crash.LineHook(hook, also="/smmap/") as h:
                    res.append(a[1]())
                res.append(h.k)
            except Exception as e:
                res[:] = [e, 0]
            finally:
                now.set()
        t = threading.Thread(target=work, daemon=True)
        t.start()
        now.wait(60)
        if where:
            what = "%s (%s): %s in %s while the process forks:" % (kind, state, a[0], where[0])
            join = child(c, todo, what)
        t.join(60)
        c.check(not t.is_alive(), "%s (%s): %s doesn't finish" % (kind, state, a[0]))
        if not where:
            n = max(2, res[1])
            continue
        n = max(2, res[1], n)
        join()
        if a[0] != "update":
            c.eq(res[0], a[2], what + " " + a[0])
        for name, fn, want in todo:
            if name != "update":
                c.eq(fn(), want, what + " " + name + " afterwards")
        c.sig("forked", kind, state, a[0], where[0], tuple(o[0] for o in todo))
        del pick, a, todo, hook, work, t
    del db
    collect()


FAMILIES = [("forked", forked, 120, 2000), ("storing", storing, 150, 2500), ("overtaken", overtaken, 200, 3000), ("rewired", rewired, 200, 3000), ("preempted", preempted, 500, 8000), ("updating", updating, 200, 3000), ("stress", stress, 300, 5000)]
