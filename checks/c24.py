from vlib.world import *
from checks.c15 import change, decode
from checks.c08 import Repo, fill
import resource
import zlib

LEVEL = "exploration"
RULE = ("one case = one database with intact objects and copies damaged by truncation at many points, changed bytes, cut or inserted ranges, or a "
        "wrong announced size; each is queried and read with generated read patterns under a step budget and the outcome is compared with what a "
        "byte-wise zlib reference can decode; distinct = (storage, damage, position class, outcome, read pattern)")
MORE = 1.5
REQUIRE = {"damaged objects read": 19080, "undecodable objects": 13380, "errors raised": 14000, "truncations": 6000, "intact neighbours read": 5000,
           "reads after an error": 8000, "damaged pack entries": 3530, "packs damaged as a whole": 60, "garbled chains read": 2500}


def limit():
    """an absurd announced size must not be able to take the machine down"""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))


def salvage(raw, most=1 << 22):
    """everything zlib can decompress from raw before it fails or ends"""
    o, out = zlib.decompressobj(), bytearray()
    try:
        out += o.decompress(raw, most)
        return bytes(out)
    except zlib.error:
        pass
    o, out = zlib.decompressobj(), bytearray()
    try:
        for i in range(len(raw)):
            out += o.decompress(raw[i:i + 1])
    except zlib.error:
        pass
    return bytes(out)


def loose_verdict(raw):
    """-> (announced size or None, content that can be decoded)"""
    d = salvage(raw)
    i = d[:8192].find(b"\0")
    if i < 0:
        return None, b""
    f = d[:i].split(b" ")
    if len(f) != 2:
        return None, b""
    try:
        n = int(f[1])
    except ValueError:
        return None, b""
    return n, d[i + 1:]


OK = (Exception,)


def read_through(c, get, announced, content, what):
    """drive one damaged object.  announced None: it has no readable header"""
    rng = c.rng
    c.ev("damaged objects read")
    undecodable = announced is None or announced < 0 or len(content) < announced
    if undecodable:
        c.ev("undecodable objects")
    try:
        s = get()
        size = s.size
    except OK as e:
        c.ev("errors raised")
        return type(e).__name__
    style = rng.choice(("all", "all", "tiny", "pieces", "exact", "huge"))
    total, steps = 0, 0
    budget = 3000
    error = None
    tail = b""
    while True:
        steps += 1
        if steps > budget:
            break
        left = size - total
        r = {"all": -1, "tiny": rng.randint(1, 20), "pieces": rng.randint(1, 9000), "exact": max(1, left), "huge": left + 1000}[style]
        if steps > 200:
            r = -1
        try:
            d = s.read(r)
        except OK as e:
            error = e
            break
        if len(d) > max(0, left):
            c.fail(what + ": read(%d) returned %d bytes, only %d of the announced %d were left" % (r, len(d), left, size))
        want = left if r < 0 else min(r, left)
        if len(d) < want:
            c.fail(what + ": read(%d) returned %d bytes without an error, %d of the announced %d bytes were left" % (r, len(d), left, size))
        total += len(d)
        if total >= size:
            tail = s.read(5) if size >= 0 else b""
            break
    c.check(not tail, what + ": data after the announced size", tail)
    if error is None:
        if undecodable:
            c.fail(what + ": read as complete object of %d bytes although only %d can be decoded" % (total, len(content)), style)
        return "complete"
    c.ev("errors raised")
    # it does not turn complete afterwards
    for _ in range(rng.randint(0, 3)):
        c.ev("reads after an error")
        try:
            d = s.read(rng.choice((-1, 1, 100)))
            total += len(d)
        except OK:
            continue
        c.check(total <= max(0, size), what + ": more than the announced size after an error")
        c.check(d or not undecodable or total >= size, what + ": the end was reported by a read after an error")
    if undecodable and rng.random() < .4 and hasattr(s.stream, "seek"):
        total = 0
        try:
            s.stream.seek(0)
            for _ in range(2000):
                d = s.read(rng.choice((-1, 5000, 100000)))
                total += len(d)
                if total >= size:
                    c.fail(what + ": complete after an error and a rewind")
                if not d:
                    c.fail(what + ": end without an error after a rewind")
        except OK:
            pass
    return type(error).__name__


def damage(rng, raw, hard=True):
    """-> (damaged, description)"""
    k = rng.random()
    n = len(raw)
    if k < .45:
        i = rng.choice((0, 1, 2, 3, rng.randint(0, n - 1), rng.randint(0, n - 1), rng.randint(0, n - 1), n - 1, max(0, n - 4), max(0, n - 5), n // 2))
        return raw[:min(i, n - 1)], "truncated"
    if k < .75:
        return change(rng, raw, rng.randrange(n)), "byte changed"
    if k < .85:
        i = rng.randrange(n)
        return raw[:i] + raw[i + rng.randint(1, 20):], "range cut out"
    if k < .92:
        i = rng.randrange(n)
        return raw[:i] + rng.randbytes(rng.randint(1, 20)) + raw[i:], "bytes inserted"
    i = rng.randrange(n)
    return raw[:i] + rng.choice((b"\0", b"\xff", rng.randbytes(1))) * (n - i), "overwritten to the end"


def lying(rng, typ, data):
    """a well-formed zlib stream whose header does not match -> (raw, description)"""
    n = len(data)
    h = rng.choice((b"%s %d\0" % (typ, n + rng.choice((1, 1, 7, 4096, 8192, 10 ** 6, 1 << 31, 1 << 33, 1 << 62))), b"%s %d" % (typ, n), b"%s%d\0" % (typ, n), b"%s\0" % typ, b"",
                    b"%s x\0" % typ, b"%s  %d\0" % (typ, n), b"%s %d %d\0" % (typ, n, n), b"%s -1\0" % typ, b" \0", b"\0", b"x" * 9000 + b" 3\0",
                    b"%s %d\0" % (typ, max(0, n - 1)), b"%s 0\0" % typ))
    return gen.deflate(rng, h + data), "header " + h[:30].decode("latin1")


def loose(c):
    limit()
    rng = c.rng
    root = os.path.join(c.tmp, "o")
    os.mkdir(root)
    intact = {}
    for k in range(3):
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, 5000))
        intact[ref.write_loose(root, t, d)] = (t, d)
    db = LooseObjectDB(root)
    gdb = GitDB(root)
    mem = MemoryDB()
    for k in range(18):
        t, d = gen.otype(rng), gen.content(rng, gen.size(rng, rng.choice((200, 9000, 40000))))
        sha = ref.oid(t, d)
        if sha in intact:
            continue
        raw0 = gen.deflate(rng, ref.loose_bytes(t, d))
        for j in range(3):
            raw, how = damage(rng, raw0) if rng.random() < .85 else lying(rng, t, d)
            if how == "truncated":
                c.ev("truncations")
            n, content = loose_verdict(raw)
            what = "loose object of %d bytes (%d compressed), %s to %d" % (len(d), len(raw0), how, len(raw))
            p = ref.loose_path(root, sha)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.exists(p):
                os.unlink(p)
            with open(p, "wb") as f:
                f.write(raw)
            x = rng.choice((db, db, gdb))
            out = "mem"
            if rng.random() < .2:
                # the same bytes through a memory database
                def get():
                    mem.store(IStream(t, len(d), BytesIO(raw), sha))
                    return mem.stream(sha)
                out = read_through(c, get, n, content, what + ", in memory")
            out = read_through(c, lambda: x.stream(sha), n, content, what)
            try:
                i = x.info(sha)
                if n is not None:
                    c.eq(i.size, n, what + ": size reported by info()")
                else:
                    c.fail(what + ": info() of an object without a header", i)
            except OK as e:
                if n is not None and n >= 0 and len(content) >= n and not isinstance(e, (ValueError, OSError, zlib.error, gitdb.exc.ODBError)):
                    c.fail(what + ": info() failed with " + repr(e))
            c.sig("loose", how[:12], min(len(raw), 20), out)
            c.log(what, out)
        os.unlink(p)
        s = rng.choice(list(intact))
        check_present(c, db, s, *intact[s], "intact neighbour,", reads="all")
        c.ev("intact neighbours read")
    for s in intact:
        check_present(c, LooseObjectDB(root), s, *intact[s], "intact neighbour,", reads="all")


def every(c):
    """one loose object truncated at every point"""
    limit()
    rng = c.rng
    root = os.path.join(c.tmp, "o")
    os.mkdir(root)
    t, d = gen.otype(rng), gen.content(rng, rng.choice((0, 1, 20, 200, 500, 8180, 8192, 9000)), rng.choice(("random", "text", "zeros", "header")))
    raw0 = gen.deflate(rng, ref.loose_bytes(t, d))
    sha = ref.oid(t, d)
    p = ref.loose_path(root, sha)
    os.makedirs(os.path.dirname(p))
    db = LooseObjectDB(root)
    pts = range(len(raw0)) if len(raw0) < 400 else sorted(set(range(60)) | set(range(len(raw0) - 60, len(raw0))) | set(rng.sample(range(len(raw0)), 150)))
    for i in pts:
        raw = raw0[:i]
        if os.path.exists(p):
            os.unlink(p)
        with open(p, "wb") as f:
            f.write(raw)
        n, content = loose_verdict(raw)
        out = read_through(c, lambda: db.stream(sha), n, content, "loose object of %d bytes truncated from %d to %d" % (len(d), len(raw0), i))
        c.ev("truncations")
        c.sig("every", len(d), i, out)


def packed(c):
    limit()
    rng = c.rng
    es = ref.random_entries(rng, rng.randint(1, 12), rng.choice((200, 3000, 20000)), git_ok=False)
    es = ref.order_entries(rng, es)
    pk = ref.build_pack(rng, es)
    ver = rng.choice((1, 2))
    ix = ref.build_idx(es, pk[-20:], ver)
    bysha = {e.sha: e.offset for e in es}
    wins = rng.random() < .15
    for k in range(10):
        e = rng.choice(es)
        x = rng.random()
        if x < .35:
            cut = rng.choice((e.offset, e.offset + 1, e.end - 1, e.end, e.body_at, rng.randint(e.offset, e.end), len(pk) - 21, len(pk) - 1))
            bad, how = pk[:max(13, cut)], "truncated"
            c.ev("truncations")
        elif x < .8:
            i = rng.choice((e.offset, e.offset + rng.randrange(e.body_at - e.offset), rng.randrange(e.offset, e.end), e.body_at))
            bad, how = change(rng, pk, i, min(rng.choice((1, 1, 3, 30)), e.end - i)), "changed"
        else:
            i = rng.randrange(e.offset, e.end)
            bad, how = pk[:i] + bytes(rng.choice((0, 255)) for _ in range(1)) * (e.end - i) + pk[e.end:], "overwritten"
        d = os.path.join(c.tmp, "p%d" % k)
        os.mkdir(d)
        name = os.path.join(d, "pack-" + rng.randbytes(20).hex())
        with open(name + ".pack", "wb") as f:
            f.write(bad)
        with open(name + ".idx", "wb") as f:
            f.write(ix)

        def work():
            db = PackedDB(d)
            raw = PackFile(name + ".pack")
            for y in rng.sample(es, min(len(es), 6)) + [e]:
                got = decode(bad, y.offset, None, bysha)
                what = "pack entry (%s of %d bytes), pack %s at an entry of kind %s, header now %s" % (y.kind, len(y.data), how, e.kind, bad[y.offset:y.offset + 4].hex())
                intact = got is not None and got == (y.type, y.data)
                if bad[:y.end] == pk[:y.end] and not intact and y.kind == "base":
                    c.fail("reference decoder disagrees")
                out = "intact"
                if intact and all(bad[z.offset:z.end] == pk[z.offset:z.end] for z in chain(y)):
                    c.eq(db.stream(y.sha).read(), y.data, what + ": object that is not damaged")
                    c.ev("intact neighbours read")
                else:
                    c.ev("damaged pack entries")
                    # the size announced is the one of the resolved stream
                    if got is None:
                        out = read_through(c, lambda: db.stream(y.sha), None, b"", what)
                    else:
                        out = read_through(c, lambda: db.stream(y.sha), len(got[1]), got[1], what)
                try:
                    db.info(y.sha)
                except OK:
                    pass
                c.sig("pack", y.kind, how, out)
            # sequential iteration never yields more than there is and always ends
            n = 0
            try:
                for s in raw.stream_iter():
                    n += 1
                    c.check(n <= len(bad), "endless iteration of a damaged pack")
            except OK:
                pass
        if wins:
            with small_windows(16384):
                work()
        else:
            work()
    collect()


def chain(e):
    while e is not None:
        yield e
        e = e.base


def wholefile(c):
    """a pack or its index is unusable as a whole: the objects elsewhere stay readable"""
    limit()
    rng = c.rng
    r = Repo(c, "r")
    pool = {}
    for _ in range(rng.randint(1, 3)):
        fill(c, r, pool, 5)
    es = ref.random_entries(rng, rng.randint(1, 8), 3000)
    if rng.random() < .5 and pool:
        t, d = rng.choice(list(pool.values()))
        es += [e for e in [ref.Entry(t, d)] if all(x.sha != e.sha for x in es)]
    if not es:
        return
    pk, _ = ref.write_pack_files(rng, os.path.join(r.root, "pack"), es)
    which = rng.choice((".pack", ".pack", ".idx"))
    p = pk[:-5] + which
    with open(p, "rb") as f:
        raw = f.read()
    how = rng.choice(("emptied", "cut in the header", "signature", "version", "overwritten"))
    if how == "emptied":
        bad = b""
    elif how == "cut in the header":
        bad = raw[:rng.randint(1, 11 if which == ".pack" else 1000)]
    elif how == "signature":
        bad = change(rng, raw, rng.randrange(4))
    elif how == "version":
        # a version-1 index has none
        bad = change(rng, raw, rng.randrange(4, 8))
    else:
        bad = rng.randbytes(len(raw))
    os.chmod(p, 0o644)
    with open(p, "wb") as f:
        f.write(bad)
    kind = rng.choice(("git", "git", "packed"))
    good = dict(r.all())
    if kind == "packed":
        good = {k: v for m in r.packs for k, v in m.items()}
    db = GitDB(r.root) if kind == "git" else PackedDB(os.path.join(r.root, "pack"))
    what = "%s file %s:" % (which, how)
    order = list(good) + [e.sha for e in es if e.sha not in good]
    rng.shuffle(order)
    for rnd in range(2):
        for sha in order:
            if sha in good:
                # copies in the damaged pack may be the ones which are read
                if any(e.sha == sha for e in es):
                    continue
                check_present(c, db, sha, *good[sha], what + " object elsewhere,", reads="all")
                c.ev("intact neighbours read")
            else:
                c.ev("damaged objects read")
                try:
                    out = db.stream(sha).read()
                except OK:
                    c.ev("errors raised")
                    continue
                e = [e for e in es if e.sha == sha][0]
                if (which, how) != (".idx", "overwritten"):
                    c.eq(out, e.data, what + " object in it")
        if rng.random() < .5:
            db.update_cache(force=True)
    c.ev("packs damaged as a whole")
    c.sig("whole", which, how, kind)
    del db
    collect()


def instructions(c):
    """the instructions of one delta in a chain are garbled, in a pack whose compressed streams are all intact"""
    limit()
    rng = c.rng
    top = rng.choice((200, 3000, 20000))
    es = ref.random_entries(rng, rng.randint(2, 10), top, delta_share=.85, git_ok=False)
    deltas = [e for e in es if e.delta is not None]
    if not deltas:
        return
    es = ref.order_entries(rng, es)
    bysha = {}
    sizes = [len(e.data) for e in es] + [len(e.delta) for e in deltas]
    for k in range(8):
        e = rng.choice(deltas)
        old = e.delta
        bs, i = ref._rv(old, 0)
        rs, i = ref._rv(old, i)
        body = old[i:]
        how = rng.choice(("byte changed", "byte changed", "cut", "extended", "base size", "result size", "copy behind the base", "copy behind the base", "copy behind the base", "range cut out"))
        if how == "byte changed":
            if not body:
                continue
            body = change(rng, body, rng.randrange(len(body)))
        elif how == "cut":
            body = body[:rng.randrange(len(body) + 1)]
        elif how == "extended":
            body += rng.randbytes(rng.randint(1, 9))
        elif how == "base size":
            bs = max(0, rng.choice((bs + 1, bs - 1, rng.choice(sizes))))
        elif how == "result size":
            rs = max(0, rng.choice((rs + 1, rs - 1, rng.choice(sizes))))
        elif how == "range cut out":
            i = rng.randrange(len(body) + 1)
            body = body[:i] + body[i + rng.randint(1, 4):]
        else:
            # up to where other data of the chain might end
            end = max(bs + 1, rng.choice((bs + 1, bs + 2, bs + 300, rng.choice(sizes), max(sizes))))
            off = rng.choice((0, bs, max(0, bs - 1), rng.randint(0, bs)))
            n = min(end - off, 0xffffff)
            op = bytes([0xff]) + off.to_bytes(4, "little") + n.to_bytes(3, "little")
            if rng.random() < .5:
                body, rs = op, n
            else:
                body, rs = (body + op, rs + n) if rng.random() < .5 else (op + body, rs + n)
        e.delta = ref.varint(bs) + ref.varint(rs) + body
        try:
            bad = ref.build_pack(rng, es)
        finally:
            e.delta = old
        bysha = {x.sha: x.offset for x in es}
        d = os.path.join(c.tmp, "i%d" % k)
        os.mkdir(d)
        name = os.path.join(d, "pack-" + rng.randbytes(20).hex())
        with open(name + ".pack", "wb") as f:
            f.write(bad)
        with open(name + ".idx", "wb") as f:
            f.write(ref.build_idx(es, bad[-20:], 2))
        db = PackedDB(d)
        for y in [e] + rng.sample(es, min(len(es), 5)):
            got = decode(bad, y.offset, None, bysha)
            what = "delta chain of %d with the instructions of one (%d before the base) garbled (%s)" % (y.depth(), y.depth() - e.depth(), how)
            if e not in chain(y):
                c.eq(db.stream(y.sha).read(), y.data, what + ": object that is not affected")
                c.ev("intact neighbours read")
                continue
            c.ev("garbled chains read")
            out = read_through(c, lambda: db.stream(y.sha), None if got is None else len(got[1]), got[1] if got else b"", what)
            c.sig("instructions", how, min(y.depth(), 4), out)
        del db
    collect()


FAMILIES = [("wholefile", wholefile, 150, 3000), ("loose", loose, 450, 9000), ("every", every, 60, 1500), ("packed", packed, 350, 7000),
            ("instructions", instructions, 250, 5000)]
