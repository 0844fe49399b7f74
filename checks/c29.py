from vlib.world import *
from vlib import crash, shim
from checks.c08 import Repo, fill, enumerate_
from checks.c09 import Live
import errno
import time

LEVEL = "fault_enumeration"
NEEDS_SHIM = True
RULE = ("one case = one generated repository, one kind of database, cold or with caches filled, and one query or refresh, repeated with each of its "
        "opens, directory listings and memory mappings failing in turn (up to 12 of them, or all from that one on); the answer under the fault must be "
        "right or an error other than 'no such object', and all answers after the fault right; distinct = (database kind, query, failing call, errno, "
        "outcome)")
MORE = 2.5
REQUIRE = {"faulted queries": 800, "queries failing": 300, "queries answered in spite of the fault": 50, "object checks": 3000, "absence checks": 500,
           "faulted refreshes": 150}

ERR = (errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EIO, errno.EACCES, errno.ESTALE)
MASK = ("ropen", "opendir", "map", "stat")


def queries(c, kind, model, absent, rng):
    """-> [(name, function of a database giving something comparable, expected)]"""
    out = []
    if model:
        sha = rng.choice(list(model))
        t, d = model[sha]
        out += [("has_object", lambda db: bool(db.has_object(sha)), True),
                ("in", lambda db: sha in db, True),
                ("info", lambda db: (lambda i: (bytes(i.binsha), bt(i.type), i.size))(db.info(sha)), (sha, t, len(d))),
                ("stream", lambda db: (lambda i: (bytes(i.binsha), bt(i.type), i.size, bytes(i.read())))(db.stream(sha)), (sha, t, len(d), d))]
        n = rng.randint(30, 40)
        out.append(("partial", lambda db: bytes(db.partial_to_complete_sha_hex(sha.hex()[:n])), sha))
        if kind == "packed":
            out[-1] = ("partial", lambda db: bytes(db.partial_to_complete_sha(sha[:n // 2], n // 2 * 2)), sha)
    out += [("absent", lambda db: bool(db.has_object(absent)), False),
            ("ids", lambda db: sorted(set(map(bytes, db.sha_iter()))), sorted(model)),
            ("size", lambda db: db.size(), None)]
    return out


def faults(c):
    rng = c.rng
    pool = {}
    main = Live(c, "main")
    for _ in range(rng.choice((1, 2, 3))):
        fill(c, main, pool, 5)
    kind = rng.choice(("git", "git", "packed", "loose", "alternate"))
    root = main.root
    if kind == "alternate":
        out = Live(c, "outer")
        out.alts = [main]
        out.write_alts()
        fill(c, out, pool, 3)
        root = out.root
    mk = {"git": lambda: GitDB(root), "packed": lambda: PackedDB(os.path.join(root, "pack")), "loose": lambda: LooseObjectDB(root),
          "alternate": lambda: GitDB(root)}[kind]

    def model():
        if kind == "packed":
            return {k: v for p in main.packs for k, v in p.items()}
        return dict(main.loose) if kind == "loose" else (out if kind == "alternate" else main).all()

    m = model()
    absent = rng.randbytes(20)
    qs = queries(c, kind, m, absent, rng)
    warm = rng.choice(("cold", "opened", "used"))
    refresh = kind != "loose" and rng.random() < .35
    tick = [int(time.time()) + 1000]

    def opened(first):
        db = mk()
        if kind == "alternate" or warm != "cold" or refresh:
            # alternates which can't be read are left out when they are looked for; that's as documented
            db.has_object(absent)
        if warm == "used" and m:
            for s in rng.sample(list(m), min(3, len(m))):
                db.has_object(s)
                db.stream(s).read(10)
        return db

    if refresh:
        es = ref.random_entries(rng, rng.randint(1, 5), 500) or [ref.Entry(b"blob", b"one more")]
        p, _ = ref.write_pack_files(rng, os.path.join(c.tmp), es)
        new = {e.sha: (e.type, e.data) for e in es}
        gone = rng.randrange(len(main.files)) if main.files and rng.random() < .5 else None
        force = rng.random() < .5
        pack = os.path.join(main.root, "pack")
        m2 = dict(m)
        if gone is not None:
            gp, gm = main.files[gone]
            main.packs.remove(gm)
            m2 = model()
            main.packs.append(gm)
        m2.update(new)

        def change():
            tick[0] += 1
            for x in (".pack", ".idx"):
                os.rename(p[:-5] + x, os.path.join(pack, os.path.basename(p)[:-5] + x))
                if gone is not None:
                    os.rename(gp + x, os.path.join(c.tmp, "gone" + x))
            os.utime(pack, (tick[0], tick[0]))

        def back():
            tick[0] += 1
            for x in (".pack", ".idx"):
                os.rename(os.path.join(pack, os.path.basename(p)[:-5] + x), p[:-5] + x)
                if gone is not None:
                    os.rename(os.path.join(c.tmp, "gone" + x), gp + x)
            os.utime(pack, (tick[0], tick[0]))
        name, fn, want = "update", (lambda db: bool(db.update_cache(force=force))), True
    else:
        name, fn, want = rng.choice(qs)
    e = rng.choice(ERR)
    mode = rng.choice((shim.FAIL, shim.FAIL, shim.FAIL_FROM))
    shim.see_ropen(3)
    # the calls of an undisturbed run
    db = opened(True)
    if refresh:
        change()
    shim.see_ropen(3)
    shim.arm(main.root, shim.COUNT, opmask=shim.mask(*MASK))
    got = fn(db)
    shim.disarm()
    n = shim.count()
    if want is not None:
        c.eq(got, want, "%s %s without fault" % (kind, name))
    else:
        want = got
    if refresh:
        back()
    del db
    collect()
    points = list(range(1, n + 1))
    if len(points) > 12:
        points = sorted(rng.sample(points, 12))
    for k in points:
        db = opened(False)
        if refresh:
            change()
        shim.see_ropen(3)
        shim.arm(main.root, mode, k, e, shim.mask(*MASK))
        err = got = None
        try:
            got = fn(db)
        except Exception as x:
            err = x
        shim.disarm()
        hit = shim.hits()
        evs = [x for x in shim.events() if x.ret < 0]
        call = evs[0].op if evs else "?"
        what = "%s (%s) %s with %s of call %d (%s %s) failing with %s:" % (
            kind, warm, name, "everything from" if mode == shim.FAIL_FROM else "only", k, call, os.path.basename(evs[0].path) if evs else "",
            errno.errorcode[e])
        if hit:
            c.ev("faulted refreshes" if refresh else "faulted queries")
        if err is not None:
            c.ev("queries failing")
            c.check(hit, what + " failed without a fault", repr(err))
            if isinstance(err, BadObject):
                c.fail(what + " a failure was reported as a missing object", repr(err), repr(err.__cause__))
            if isinstance(err, AmbiguousObjectName):
                c.fail(what + " a failure was reported as ambiguity", repr(err))
            # a traceback keeps what was opened
            kindof = type(err).__name__
            err = None
        else:
            c.ev("queries answered in spite of the fault")
            c.eq(got, want, what)
            kindof = "ok"
        c.sig(kind, name, call, e, kindof)
        if refresh:
            # what a failed refresh did not see is there after the next one
            db.update_cache()
            enumerate_(c, db, m2, what + " after the next refresh,")
            for s in set(m) | set(m2):
                if s in m2:
                    check_present(c, db, s, *m2[s], what + " after the next refresh,", reads="none")
                else:
                    check_absent(c, db, s, what + " after the next refresh,")
        else:
            for nm, f2, w2 in qs:
                if w2 is not None:
                    c.eq(f2(db), w2, "%s %s once the fault is gone" % (what, nm))
            for s in rng.sample(list(m), min(len(m), 6)):
                check_present(c, db, s, *m[s], what + " once the fault is gone,", reads="none")
        check_absent(c, db, absent, what + " once the fault is gone,")
        if refresh:
            back()
        del db
        collect()
    c.sample(kind=kind, query=name, calls=n, warm=warm)


FAMILIES = [("faults", faults, 700, 9000)]
