from vlib.world import *
import zlib

LEVEL = "exploration"
RULE = ("one case = one pack (own writer with any compressor output, or made by git) iterated from its start and from entry offsets, streams read in "
        "all orders relative to the iteration, with full and small mapping windows; the trace of yielded entries is compared with the entry table of "
        "the generator under a step budget; distinct = (entry kind, size class, compressed form, start, window)")
REQUIRE = {"bounds checked": 4800, "iterations": 3000, "entries yielded": 15000, "empty entries": 300, "iterations from an offset": 500, "empty packs": 5, "thin packs": 30,
           "entries of git packs": 290, "entries read late": 1500, "ref deltas": 400, "ofs deltas": 400, "small windows": 60}


def expect(e):
    if e.kind == "base":
        return ref.NUM[e.type], len(e.data), None, e.data
    if e.kind == "ofs":
        return 6, len(e.delta), e.offset - e.base.offset, e.delta
    return 7, len(e.delta), e.base.sha, e.delta


def same(c, x, e, what):
    tid, size, info, data = expect(e)
    c.eq(x.pack_offset, e.offset, what + ": offset")
    c.eq(x.type_id, tid, what + ": type of the entry at %d" % e.offset)
    if tid < 5:
        c.eq(bt(x.type), e.type, what + ": type name")
    c.eq(x.size, size, what + ": size of the entry at %d" % e.offset)
    if info is not None:
        got = x.delta_info
        c.eq(got if tid == 6 else bytes(got), info, what + ": delta reference of the entry at %d" % e.offset)
    c.ev("entries yielded")
    if size == 0:
        c.ev("empty entries")
    if tid > 5:
        c.ev("ref deltas" if tid == 7 else "ofs deltas")
    return data


def iterate(c, pk, es, start, what):
    """es: entries in file order"""
    rng = c.rng
    late, n = [], 0
    first = 0 if start is None else start
    it = pk.stream_iter(start_offset=es[first].offset) if start is not None else (pk.stream_iter() if rng.random() < .5 else pk.stream_iter(0))
    c.ev("iterations")
    if start:
        c.ev("iterations from an offset")
    behaviour = rng.choice(("none", "all", "some", "some", "late"))
    for x in it:
        if first + n >= len(es):
            c.fail(what + ": more entries than the pack has", n)
        e = es[first + n]
        n += 1
        data = same(c, x, e, what)
        k = rng.random()
        if behaviour == "all" or (behaviour == "some" and k < .4):
            gen.drive(c, Rewindable(x), data, ops=rng.choice((0, 2, 6)), what=what + ": entry at %d" % e.offset)
        elif behaviour == "some" and k < .6:
            m = rng.randint(1, len(data) + 1)
            if x.read(m) != data[:m]:
                c.fail(what + ": start of the entry at %d differs" % e.offset)
            late.append((x, data, min(m, len(data)), e))
        elif behaviour == "late" or k < .8:
            late.append((x, data, 0, e))
    c.eq(n, len(es) - first, what + ": number of entries")
    rng.shuffle(late)
    for x, data, pos, e in late[:40]:
        c.ev("entries read late")
        got = x.read() if pos < len(data) else x.read(10)
        if got != data[pos:]:
            c.fail(what + ": entry at %d, read after the iteration, differs" % e.offset)
        if rng.random() < .3:
            x.stream.seek(0)
            if x.read() != data:
                c.fail(what + ": entry at %d differs after a rewind" % e.offset)
    for e in es[first:first + 6]:
        c.sig(e.kind, len(e.payload), len(e.raw), start is None, what)


def drive(c, path, es, what):
    rng = c.rng
    pk = PackFile(path)
    c.eq(pk.size(), len(es), what + ": announced number of entries")
    iterate(c, pk, es, None, what)
    for _ in range(rng.choice((0, 1, 3)) if es else 0):
        if rng.random() < .3:
            pk = PackFile(path)
        iterate(c, pk, es, rng.choice((0, len(es) - 1, rng.randrange(len(es)))), what)
    # single entries by offset
    for e in rng.sample(es, min(4, len(es))):
        data = same(c, pk.stream(e.offset), e, what + ": stream()")
        same(c, pk.info(e.offset), e, what + ": info()")
        if pk.stream(e.offset).read() != data:
            c.fail(what + ": content of the entry at %d" % e.offset)
    if rng.random() < .3 and es:
        # two iterations at the same time
        a, b = pk.stream_iter(), PackFile(path).stream_iter() if rng.random() < .5 else pk.stream_iter()
        i = j = 0
        while i < len(es) or j < len(es):
            if i < len(es) and (j >= len(es) or rng.random() < .5):
                same(c, next(a), es[i], what + ": first of two iterations")
                i += 1
            else:
                x = next(b)
                d = same(c, x, es[j], what + ": second of two iterations")
                if rng.random() < .3 and x.read() != d:
                    c.fail(what + ": content during two iterations")
                j += 1
        c.check(next(a, None) is None and next(b, None) is None, what + ": two iterations do not end")


def entries(c):
    rng = c.rng
    n = rng.choice((0, 1, 1, 2, 5, 15, 30)) if rng.random() < .95 else 0
    es = ref.random_entries(rng, n, rng.choice((50, 3000, 60000)), git_ok=False) if n else []
    if rng.random() < .4:
        for t in rng.sample(gen.TYPES, rng.randint(1, 4)):
            e = ref.Entry(t, b"")
            if all(x.sha != e.sha for x in es):
                es.insert(rng.randint(0, len(es)), e)
    return es


def write(c, es, deflate=None):
    rng = c.rng
    data = ref.build_pack(rng, es, deflate)
    p = os.path.join(c.tmp, "pack-%s.pack" % rng.randbytes(8).hex())
    with open(p, "wb") as f:
        f.write(data)
    return p


def own(c):
    rng = c.rng
    es = ref.order_entries(rng, entries(c))
    what = "own"
    if es and rng.random() < .15:
        # a thin pack: reference deltas whose base is elsewhere
        b = ref.Entry(b"blob", gen.content(rng, 500))
        for _ in range(3):
            d, r = ref.random_delta(rng, b.data)
            es.insert(rng.randint(0, len(es)), ref.Entry(b"blob", r, "ref", b, d))
        es = ref.order_entries(rng, es)
        c.ev("thin packs")
        what = "thin"
    if not es:
        c.ev("empty packs")
    lv = rng.choice((None, 0, 1, 9))
    p = write(c, es, None if lv is None else lambda d: zlib.compress(d, lv))
    c.log("entries", str([(e.kind, len(e.payload), len(e.raw)) for e in es[:30]]))
    c.sample(entries=len(es), sizes=[len(e.payload) for e in es[:8]])
    if rng.random() < .12:
        c.ev("small windows")
        with small_windows(rng.choice((4096, 16384, 65536))):
            drive(c, p, es, what + ", small windows")
    else:
        drive(c, p, es, what)


def edges(c):
    """entry sizes and compressed lengths around the internal boundaries, next to each other"""
    rng = c.rng
    es, seen = [], set()
    for k in range(rng.randint(2, 8)):
        n = max(0, rng.choice((0, 0, 1, 15, 16, 2047, 2048, 4096, 8192, 16384, 65536, gen.CHUNK if rng.random() < .05 else 4096)) + rng.randint(-2, 2))
        e = ref.Entry(gen.otype(rng), gen.content(rng, n, rng.choice(("random", "zeros", "text", "lowent"))))
        if e.sha not in seen:
            seen.add(e.sha)
            es.append(e)
    p = write(c, es, rng.choice((None, lambda d: zlib.compress(d, 0), lambda d: zlib.compress(d, 9))))
    drive(c, p, es, "edges")


def bygit(c):
    """packs made by git, the entry table from an index of git and our own parser"""
    rng = c.rng
    repo = os.path.join(c.tmp, "r")
    root = ref.git_repo(repo)
    base = gen.content(rng, 3000, "text")
    objs = {}
    for k in range(rng.randint(1, 25)):
        d = bytearray(base)
        for _ in range(rng.randint(0, 3)):
            i = rng.randrange(len(d))
            d[i:i + rng.randint(0, 50)] = gen.content(rng, rng.randint(0, 60))
        d = bytes(d) if rng.random() < .7 else gen.content(rng, gen.size(rng, 20000))
        objs[ref.write_loose(root, b"blob", d)] = d
    if rng.random() < .5:
        objs[ref.write_loose(root, b"blob", b"")] = b""
    args = ["--git-dir", repo, "pack-objects", "-q", os.path.join(c.tmp, "p"), "--depth=20", "--window=10"]
    if rng.random() < .5:
        args.append("--delta-base-offset")
    args.append("--compression=%d" % rng.randint(0, 9))
    name = ref.git(args, input=b"".join(s.hex().encode() + b" x\n" for s in objs)).stdout.split()[0].decode()
    p = os.path.join(c.tmp, "p-%s.pack" % name)
    out = ref.git(["verify-pack", "-v", p[:-5] + ".idx"]).stdout.decode().split("\n")
    table = {}
    for l in out:
        f = l.split()
        if len(f) >= 5 and len(f[0]) == 40:
            table[int(f[4])] = (bytes.fromhex(f[0]), int(f[2]), int(f[3]), bytes.fromhex(f[6]) if len(f) > 6 else None)
    offs = sorted(table)
    at = {v[0]: o for o, v in table.items()}
    n = 0
    for x in PackFile(p).stream_iter():
        c.check(n < len(offs), "more entries than the pack has")
        o = offs[n]
        sha, size, packed, basesha = table[o]
        n += 1
        c.ev("entries of git packs")
        c.eq(x.pack_offset, o, "offset of an entry of a git pack")
        c.eq(x.size, size, "size of an entry of a git pack")
        body = x.read()
        c.eq(len(body), size, "length of an entry of a git pack")
        if basesha is None:
            c.check(body == objs[sha], "content of an entry of a git pack")
            c.eq(x.type_id, 3, "type")
        elif x.type_id == 6:
            c.eq(o - x.delta_info, at[basesha], "base offset")
            c.check(ref.apply_delta(objs[basesha], body) == objs[sha], "delta")
        else:
            c.eq((x.type_id, bytes(x.delta_info)), (7, basesha), "base id")
            c.check(ref.apply_delta(objs[basesha], body) == objs[sha], "delta")
        c.sig("git", size, packed, x.type_id)
    c.eq(n, len(offs), "number of entries of a git pack")
    c.ev("iterations")


def bounds(c):
    """the reader the iteration relies on reports how much compressed data belongs to an object, however it was read"""
    from gitdb.stream import DecompressMemMapReader
    rng = c.rng
    for _ in range(12):
        data = gen.content(rng, gen.size(rng, 40000))
        z = gen.deflate(rng, data, wide=True)
        rest = gen.content(rng, rng.choice((0, 1, 3, 7, 20, 4000, 4096, 10000)))
        if rng.random() < .3:
            rest = zlib.compress(b"next") + rest
        buf = z + rest
        r = DecompressMemMapReader(memoryview(buf) if rng.random() < .3 else buf, False, len(data))
        pos = 0
        step = rng.choice((1, 8, 100, 4096, 10 ** 6))
        for k in range(400):
            if pos >= len(data):
                break
            n = rng.randint(1, step)
            g = r.read(n)
            if g != data[pos:pos + n]:
                c.fail("content at %d" % pos)
            pos += len(g)
        g = r.read()
        if g != data[pos:]:
            c.fail("rest at %d" % pos)
        if rng.random() < .5:
            r.read(5)
        c.eq(r.compressed_bytes_read(), len(z), "length of the compressed form of %d bytes followed by %d others, read in pieces of up to %d" % (
            len(data), len(rest), step))
        if rng.random() < .5:
            c.eq(r.compressed_bytes_read(), len(z), "length of the compressed form, asked again")
        if rng.random() < .5:
            r.seek(0)
            if r.read() != data:
                c.fail("content after a rewind")
            c.eq(r.compressed_bytes_read(), len(z), "length of the compressed form after a rewind")
        c.ev("bounds checked")
        c.sig("bounds", len(data), len(z), len(rest), step)


FAMILIES = [("own", own, 2500, 30000), ("edges", edges, 1200, 12000), ("git", bygit, 60, 600), ("bounds", bounds, 1000, 20000)]
