from vlib.world import *
from gitdb.base import OPackInfo, ODeltaPackInfo, OPackStream, ODeltaPackStream, ODeltaStream

LEVEL = "exploration"
RULE = ("one case = one generated set of objects in memory, loose, git and packed databases, or one history of assignments to an input stream; every result "
        "object of every query form is compared field by field, through attributes and through positions, with the object model; distinct = (source, query "
        "form, type, delta kind, bit length of the size)")
MORE = 4
REQUIRE = {"result objects": 5110, "pack level objects": 2610, "delta references": 990, "input streams": 800, "stores": 590, "errors naming the id": 800, "records of invalid objects": 40}


def fields(c, o, sha, typ, size, what):
    """an info or stream object of a database query"""
    c.ev("result objects")
    c.check(isinstance(o, OInfo), what + ": not an OInfo", o)
    check_info(c, o, sha, typ, size, what)
    c.check(isinstance(o.hexsha, bytes) and len(o.hexsha) == 40, what + ": hexsha", o.hexsha)
    c.eq(bytes(o[0]), sha, what + ": position 0")
    c.eq(bt(o[1]), typ, what + ": position 1")
    if not isinstance(o, ODeltaStream):
        # the size of a delta is determined on demand
        c.eq(o[2], size, what + ": position 2")
    if isinstance(o, OStream):
        c.check(o[3] is o.stream, what + ": position 3 is not the stream")


def missing(c, db, sha, what):
    for name in ("info", "stream"):
        e = c.raises(BadObject, lambda: getattr(db, name)(sha), what + ": %s of an absent id" % name)
        c.check(sha.hex() in str(e), what + ": error doesn't name the id", str(e), sha.hex())
        c.check(isinstance(e, gitdb.exc.ODBError), what + ": error type")
        c.ev("errors naming the id")


def objects(c):
    rng = c.rng
    root = ref.git_repo(os.path.join(c.tmp, "r"))
    m = {}
    mem, loose = MemoryDB(), LooseObjectDB(root)
    git = GitDB(root)
    es = ref.random_entries(rng, rng.randint(1, 12), 5000)
    path, es = ref.write_pack_files(rng, os.path.join(root, "pack"), es)
    for db, what in ((mem, "memory"), (loose, "loose"), (git, "git")):
        for k in range(rng.randint(0, 4)):
            typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 20000))
            src = gen.Source(data, rng.choice(gen.SPLITS), rng)
            i = IStream(typ, len(data), src)
            r = db.store(i)
            c.check(r is i, what + ": store() returned another object")
            sha = ref.oid(typ, data)
            c.eq(bytes(i.binsha), sha, what + ": id of the stored stream")
            c.eq(bt(i.hexsha), sha.hex().encode(), what + ": hex id of the stored stream")
            c.eq((i.type, i.size, i.error), (typ, len(data), None), what + ": fields of the stored stream")
            c.check(i.stream is src, what + ": source of the stored stream")
            c.ev("stores")
            for q in ("info", "stream"):
                fields(c, getattr(db, q)(sha), sha, typ, len(data), "%s %s" % (what, q))
                c.sig(what, q, typ, len(data).bit_length())
            if db is not mem:
                m[sha] = (typ, data)
        for x in near_ids(rng, m, 1)[:3]:
            if x not in m and all(x != e.sha for e in es):
                missing(c, db, x, what)
    packed = PackedDB(os.path.join(root, "pack"))
    ent = PackEntity(path)
    for x in near_ids(rng, [e.sha for e in es], 1)[:3]:
        if all(x != e.sha for e in es):
            missing(c, packed, x, "packed")
            missing(c, ent, x, "pack entity")
    order = sorted(es, key=lambda e: e.sha)
    for n, e in enumerate(order):
        forms = [("packed info", packed.info), ("packed stream", packed.stream), ("git info", git.info), ("git stream", git.stream),
                 ("entity info", ent.info), ("entity stream", ent.stream),
                 ("entity info at index", lambda s: ent.info_at_index(n)), ("entity stream at index", lambda s: ent.stream_at_index(n))]
        for what, q in rng.sample(forms, 4):
            o = q(e.sha)
            fields(c, o, e.sha, e.type, len(e.data), what)
            c.sig(what, e.type, e.kind, len(e.data).bit_length())
    for what, it in (("info_iter", ent.info_iter()), ("stream_iter", ent.stream_iter())):
        for e, o in zip(order, it):
            fields(c, o, e.sha, e.type, len(e.data), what)
    # what the pack itself tells about its entries
    pf = rng.choice((ent.pack(), PackFile(path)))
    seen = list(pf.stream_iter())
    for e, it in zip(es, seen):
        for what, o in (("pack info", pf.info(e.offset)), ("pack stream", pf.stream(e.offset)), ("pack iteration", it),
                        ("collected stream", ent.collect_streams(e.sha)[0])):
            c.ev("pack level objects")
            want = ref.NUM[e.type] if e.kind == "base" else 6 if e.kind == "ofs" else 7
            c.eq((o.pack_offset, o[0]), (e.offset, e.offset), what + ": offset")
            c.eq((o.type_id, o[1]), (want, want), what + ": type number")
            c.eq((o.size, o[2]), (len(e.payload), len(e.payload)), what + ": size")
            c.eq(bt(o.type), e.type if e.kind == "base" else b"OFS_DELTA" if e.kind == "ofs" else b"REF_DELTA", what + ": type")
            if e.kind != "base":
                c.ev("delta references")
                c.check(isinstance(o, ODeltaPackInfo), what + ": delta is no delta object", o)
                if e.kind == "ofs":
                    c.eq(o.delta_info, e.offset - e.base.offset, what + ": distance to the base")
                else:
                    c.eq(bytes(o.delta_info), e.base.sha, what + ": id of the base")
            else:
                c.check(isinstance(o, OPackInfo) and not hasattr(o, "delta_info"), what + ": base with a delta reference", o)
            if what != "pack info":
                s = o.stream
                c.eq(o.read(), e.payload, what + ": raw data through the object")
                c.check(o.stream is s, what + ": stream changes")
            c.sig(what, e.kind, e.type, len(e.payload).bit_length())


class Src:
    def __init__(self):
        self.calls = []

    def read(self, *a):
        self.calls.append(a)
        return b"data of %d" % len(self.calls)


def inputs(c):
    """an input stream is a record of what was given and set"""
    rng = c.rng

    def val(f):
        return {"type": lambda: rng.choice((b"blob", b"tree", b"commit", b"tag", "blob")), "size": lambda: rng.randrange(1 << rng.randint(1, 40)),
                "stream": Src, "binsha": lambda: rng.choice((None, rng.randbytes(20))), "error": lambda: rng.choice((None, OSError("x")))}[f]()
    cur = {f: val(f) for f in ("type", "size", "stream", "binsha")}
    if rng.random() < .3:
        i = IStream(cur["type"], cur["size"], cur["stream"], cur["binsha"])
    elif rng.random() < .5:
        i = IStream(cur["type"], cur["size"], cur["stream"], sha=cur["binsha"])
    else:
        cur["binsha"] = None
        i = IStream(cur["type"], cur["size"], cur["stream"])
    cur["error"] = None
    for step in range(rng.randint(0, 8)):
        k = rng.random()
        if k < .7:
            f = rng.choice(sorted(cur))
            cur[f] = val(f)
            setattr(i, f, cur[f])
        else:
            n = len(cur["stream"].calls)
            a = rng.choice(((), (rng.randint(1, 1 << 20),)))
            c.eq(i.read(*a), b"data of %d" % (n + 1), "read() result")
            c.check(cur["stream"].calls[n:] == [a] or not a and cur["stream"].calls[n:] == [(-1,)], "read() calls of the source", cur["stream"].calls[n:], a)
        for f in cur:
            got = getattr(i, f)
            c.check(got is cur[f] or got == cur[f], "field " + f, got, cur[f])
        if cur["binsha"] is not None:
            c.eq(bt(i.hexsha), cur["binsha"].hex().encode(), "hexsha")
    c.ev("input streams")
    c.sig("input", tuple(sorted((f, type(v).__name__) for f, v in cur.items())), cur["size"].bit_length())


def invalid(c):
    """records of objects which can't be had"""
    rng = c.rng
    from gitdb.base import InvalidOInfo, InvalidOStream
    cls, sha = rng.choice((InvalidOInfo, InvalidOStream)), gen_sha(rng)
    exc = rng.choice((BadObject(sha), OSError(5, "x"), ValueError("%x" % rng.getrandbits(30))))
    try:
        o = cls(sha, exc)
        got = (bytes(o.binsha), bytes(o.hexsha), o.error, bytes(o[0]), o[1], len(o))
    except Exception as e:
        c.fail("%s for a missing object: %s: %s" % (cls.__name__, type(e).__name__, e))
    c.eq(got[:2] + got[3:4] + got[5:], (sha, sha.hex().encode(), sha, 2), cls.__name__)
    c.check(got[2] is exc and got[4] is exc, cls.__name__ + ": error")
    c.check(isinstance(o, InvalidOInfo), cls.__name__ + ": kind of record")
    c.ev("records of invalid objects")
    c.sig("invalid", cls.__name__, type(exc).__name__, sha[0])


def gen_sha(rng):
    return rng.choice((rng.randbytes(20), bytes(20), b"\xff" * 20, b" " * 20))


FAMILIES = [("invalid", invalid, 100, 1000), ("objects", objects, 250, 4000), ("inputs", inputs, 2000, 20000)]
