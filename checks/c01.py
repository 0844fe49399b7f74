from vlib.world import *
from vlib.core import Inconclusive

LEVEL = "exploration"
RULE = ("one case = a random history of stores (types, sizes around header/chunk/buffer boundaries, compressibility, source splitting, "
        "duplicates) into one database, every id, info, stream and file compared with an independent model; distinct = "
        "(database kind, type, size, content class, source mode) tuples")
MORE = 3
REQUIRE = {"stores": 300, "git objects compared": 100}


def check_file(c, root, sha, typ, data):
    p = ref.loose_path(root, sha)
    if not os.path.isfile(p):
        c.fail("no file at the two-level hex path", p)
    with open(p, "rb") as f:
        raw = f.read()
    try:
        got = ref.parse_loose(raw)
    except ValueError as e:
        c.fail("object file is not a valid loose object: %s" % e, sha.hex())
    if got != (typ, data):
        c.fail("object file holds something else", got[0], got[1], typ, data)
    if raw[0] & 0x0f != 8 or (raw[0] * 256 + raw[1]) % 31:
        c.fail("object file has no zlib header", raw[:2])
    c.ev("object files parsed")


def git_agrees(c, repo, model):
    res = ref.cat_file_batch(repo, list(model))
    for sha, (typ, data) in model.items():
        c.ev("git objects compared")
        if res[sha] is None:
            c.fail("git does not find the stored object", sha.hex())
        if res[sha] != (typ, data):
            c.fail("git reads something else", sha.hex())


def do_store(c, db, typ, data, model, kind, src=None):
    mode = c.rng.choice(gen.SPLITS)
    # the source may go on behind the announced size
    more = c.rng.choice((b"", b"", b"\0", c.rng.randbytes(c.rng.choice((1, 100, 9000)))))
    if more:
        c.ev("sources with more data")
    s = src or gen.Source(data + more, mode, c.rng)
    i = istream(c.rng, typ, data, s)
    c.log("store", kind, typ, len(data), mode)
    r = db.store(i)
    sha = ref.oid(typ, data)
    c.eq(bytes(r.binsha), sha, "store() returned the wrong id", typ, len(data))
    c.eq(bt(r.hexsha), sha.hex().encode(), "hexsha of the stored stream")
    c.eq(bytes(i.binsha), sha, "id of the passed stream")
    c.ev("stores")
    c.sig(kind, typ, len(data), data[:2], mode)
    if sha in model:
        c.ev("repeated stores")
    model[sha] = (typ, data)
    return sha


def history(c, kind, n, maxsize):
    rng = c.rng
    model = {}
    repo = os.path.join(c.tmp, "r.git")
    if kind == "mem":
        db, root = MemoryDB(), None
    elif kind == "git":
        root = ref.git_repo(repo)
        if rng.random() < .5:
            es = ref.random_entries(rng, rng.randint(1, 12), 5000)
            ref.write_pack_files(rng, os.path.join(root, "pack"), es)
            for e in es:
                model[e.sha] = (e.type, e.data)
        db = GitDB(root)
    else:
        root = os.path.join(c.tmp, rng.choice(("objects", "ob jects", "öb")))
        os.makedirs(root)
        db = LooseObjectDB(root)
    packed = set(model)
    done = []
    for k in range(n):
        if done and rng.random() < .15:
            typ, data = model[rng.choice(done)]
        elif model and rng.random() < .1:
            # same content, other type
            typ, data = rng.choice(gen.TYPES), model[rng.choice(list(model))][1]
        else:
            typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, maxsize))
        known = ref.oid(typ, data) in model
        if not known and rng.random() < .3:
            check_absent(c, db, ref.oid(typ, data), "before storing it,")
        sha = do_store(c, db, typ, data, model, kind)
        done.append(sha)
        check_present(c, db, sha, typ, data, kind + " database,")
        if root:
            check_file(c, root, sha, typ, data)
            if rng.random() < .3:
                check_present(c, type(db)(root), sha, typ, data, "fresh database,")
    ids = [bytes(s) for s in db.sha_iter()]
    stored = set(done) | packed
    c.check(set(ids) == stored, "enumeration differs from the stored ids", len(ids), len(stored))
    if not packed:
        c.eq(len(ids), len(set(ids)), "the same object is enumerated twice")
    c.eq(db.size(), len(ids), "size()")
    fresh = type(db)(root) if root else db
    for sha in rng.sample(list(model), min(len(model), 6)):
        check_present(c, fresh, sha, *model[sha], "at the end,", reads="all")
    if root:
        on_disk = {f for d, _, fs in os.walk(root) for f in fs if os.path.relpath(d, root) not in ("pack", "info")}
        c.eq(len(on_disk), len(set(done)), "number of loose files")
        if kind == "git":
            git_agrees(c, repo, model)
        elif rng.random() < .3:
            os.rename(root, os.path.join(c.tmp, "x"))
            o = ref.git_repo(repo)
            os.rename(o, o + ".old")
            os.rename(os.path.join(c.tmp, "x"), o)
            git_agrees(c, repo, model)
    c.sample(kind=kind, stores=n, sizes=[len(model[s][1]) for s in done[:8]])


def loose(c):
    history(c, "loose", c.rng.randint(1, 8), 70000)


def git_(c):
    history(c, "git", c.rng.randint(1, 10), 70000)


def mem(c):
    history(c, "mem", c.rng.randint(1, 10), 70000)


def sweep(c):
    """small sizes one after the other, all types, compressible and not"""
    root = os.path.join(c.tmp, "o")
    os.makedirs(root)
    db, m = LooseObjectDB(root), MemoryDB()
    base = c.index * 40
    for n in list(range(base, base + 40)) + [8192 - 60 + (base + k) % 120 for k in range(6)]:
        typ = gen.TYPES[n % 4]
        data = gen.content(c.rng, n, ("random", "zeros", "header")[n % 3])
        model = {}
        sha = do_store(c, db, typ, data, model, "sweep")
        do_store(c, m, typ, data, model, "sweep-mem")
        check_present(c, db, sha, typ, data, "size sweep,", reads="all")
        check_present(c, m, sha, typ, data, "size sweep memory,", reads="all")
        check_file(c, root, sha, typ, data)


def big(c):
    """several copy chunks, multiples of the chunk size and neighbours"""
    rng = c.rng
    repo = os.path.join(c.tmp, "r.git")
    root = ref.git_repo(repo)
    kind = ("loose", "mem", "git")[c.index % 3]
    db = MemoryDB() if kind == "mem" else GitDB(root) if kind == "git" else LooseObjectDB(root)
    n = rng.choice((gen.CHUNK, 2 * gen.CHUNK, gen.CHUNK + 8192, 3 * gen.CHUNK)) + rng.randint(-12, 12)
    if c.thorough and rng.random() < .2:
        n *= 4
    data = gen.content(rng, n, rng.choice(("random", "zeros", "pattern", "mixed", "lowent")))
    typ = gen.otype(rng)
    model = {}
    sha = do_store(c, db, typ, data, model, "big-" + kind, gen.Source(data + rng.choice((b"", b"x", rng.randbytes(100000))), rng.choice(("full", "half", "short")), rng))
    c.ev("multi-chunk stores")
    check_present(c, db, sha, typ, data, "big object,")
    if kind != "mem":
        check_file(c, root, sha, typ, data)
        git_agrees(c, repo, model)
    c.sample(kind=kind, size=n)


FAMILIES = [("loose", loose, 250, 5000), ("git", git_, 120, 2000), ("mem", mem, 120, 2000), ("sweep", sweep, 16, 220), ("big", big, 24, 200)]
