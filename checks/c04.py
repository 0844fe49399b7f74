from vlib.world import *
from gitdb.stream import DeltaApplyReader
from gitdb.fun import DeltaChunkList, connect_deltas

LEVEL = "exploration"
RULE = ("one case = one pack with chains of generated deltas; well-formed ones must read as the reference interpreter says, in one read and in pieces; "
        "mutated ones must raise exactly when the reference interpreter rejects them; distinct = (depth, opcode mix, sizes bucket, mutation, verdict)")
MORE = 3
REQUIRE = {"chains read": 1000, "malformed chains rejected": 800, "implicit 65536 copies": 20, "empty results": 20, "merged chains": 800, "lists compressed": 300, "incomplete lists rejected": 700, "malformed merges rejected": 300}


class Err:
    def __init__(self, why):
        self.why = why


def chain_result(base, deltas):
    data = base
    for d in deltas:
        try:
            data = ref.apply_delta(data, d)
        except ref.DeltaError as e:
            return Err(str(e))
    return data


def declared(d):
    try:
        _, i = ref._rv(d, 0)
        return ref._rv(d, i)[0]
    except ref.DeltaError:
        return 0


def opcodes(c, d):
    """what instructions a well-formed delta contains"""
    try:
        _, i = ref._rv(d, 0)
        _, i = ref._rv(d, i)
    except ref.DeltaError:
        return ()
    kinds = set()
    while i < len(d):
        k = d[i]
        i += 1
        if k & 0x80:
            n = bin(k & 0x7f).count("1")
            kinds.add((bin(k & 15).count("1"), bin(k & 0x70).count("1")))
            if not k & 0x70:
                c.ev("implicit 65536 copies")
            i += n
        else:
            kinds.add("i")
            i += k
    return tuple(sorted(map(str, kinds)))


def bad_delta(rng, base, delta, result):
    """(name, mutated delta)"""
    k = rng.randrange(12)
    bs, i = ref._rv(delta, 0)
    rs, j = ref._rv(delta, i)
    ops = delta[j:]
    if k == 0:
        return "base size", ref.varint(max(0, bs + rng.choice((-1, 1, 5, 128, -bs)))) + delta[i:]
    if k == 1:
        return "result size", delta[:i] + ref.varint(max(0, rs + rng.choice((-1, 1, 7, 200, -rs)))) + ops
    if k == 2:
        return "truncated", delta[:rng.randint(0, max(0, len(delta) - 1))]
    if k == 3:
        return "last byte missing", delta[:-1]
    if k == 4:
        return "opcode 0 at the end", delta + b"\0"
    if k == 5:
        return "opcode 0 first", delta[:j] + b"\0" + ops
    if k == 6:
        off = rng.choice((len(base), max(0, len(base) - 1), len(base) + 1000, 0xffffffff, 1 << 24))
        size = rng.choice((2, 1, 1000, 0x10000, 0xffffff))
        d = ref.varint(bs) + ref.varint(rs + min(size, max(0, len(base) - off)) if rng.random() < .5 else rs + size) + ops + ref.copy_op(off, size)
        return "copy outside", d
    if k == 7:
        return "trailing insert", delta + ref.insert_op(rng.randbytes(rng.randint(1, 127)))
    if k == 8:
        n = rng.randint(2, 127)
        return "short insert", delta[:i] + ref.varint(rs + n - 1) + ops + bytes([n]) + rng.randbytes(n - 1)
    if k == 9 and base:
        full = ref.copy_op(len(base) - 1, 1, None)
        return "copy arguments missing", delta[:i] + ref.varint(rs + 1) + ops + full[:rng.randint(1, len(full) - 1)]
    if k == 10 and delta:
        d = bytearray(delta)
        p = rng.randrange(len(d)) if rng.random() < .5 else rng.randrange(min(len(d), j + 8))
        d[p] ^= 1 << rng.randrange(8)
        return "bit flip", bytes(d)
    d = bytearray(delta)
    for _ in range(rng.randint(1, 3)):
        p = rng.randrange(len(d) + 1)
        if rng.random() < .5:
            d[p:p + rng.randint(1, 3)] = b""
        else:
            d[p:p] = rng.randbytes(rng.randint(1, 3))
    return "edit", bytes(d)


def read_all(c, s):
    k = c.rng.random()
    if k < .6:
        return s.read()
    out = []
    n = c.rng.choice((1, 7, 100, 4096, 70000))
    while sum(map(len, out)) < 400000:
        b = s.read(max(n, s.size // 300))
        if not b:
            break
        out.append(b)
    return b"".join(out)


def one_chain(rng, maxsize, mutate):
    typ = gen.otype(rng)
    base = gen.content(rng, rng.choice((0, 1, rng.randint(1, 300), gen.size(rng, maxsize), 0x10000 + rng.randint(-2, 70000))))
    data, deltas = base, []
    bad = None
    depth = rng.choice((1, 1, 1, 2, 3, rng.randint(4, 12)))
    at = rng.randrange(depth) if mutate else -1
    for k in range(depth):
        d, res = ref.random_delta(rng, data, max_ops=rng.choice((3, 12, 30)), max_out=maxsize)
        if rng.random() < .1:       # empty or tiny results
            res = b""
            d = ref.make_delta(len(data), 0, [])
        if k == at:
            bad, d = bad_delta(rng, data, d, res)
        if not d:
            d = b"\x80"             # an entry cannot be empty here; a lone continuation byte
        deltas.append(d)
        data = res
    if any(declared(d) > 1 << 26 for d in deltas):
        return None
    return typ, base, deltas, bad


def run(c, mutate):
    rng = c.rng
    chains, entries, seen = [], [], set()
    for k in range(rng.randint(1, 8)):
        ch = one_chain(rng, rng.choice((500, 20000, 200000)), mutate and rng.random() < .85)
        if ch is None:
            continue
        typ, base, deltas, bad = ch
        es = [ref.Entry(typ, base)]
        for d in deltas:
            e = ref.Entry(typ, rng.randbytes(24), rng.choice(("ofs", "ref")), es[-1], d)    # any unique id will do
            es.append(e)
        if es[0].sha in seen:
            continue
        seen |= {e.sha for e in es}
        entries += es
        chains.append((es, bad))
    if not entries:
        return
    ref.write_pack_files(rng, c.tmp, entries)
    db = PackedDB(c.tmp)
    ent = db.entities()[0]
    for es, bad in chains:
        base = es[0]
        deltas = [e.delta for e in es[1:]]
        for k in range(1, len(es)):
            if k < len(es) - 1 and rng.random() < .5:
                continue
            e = es[k]
            want = chain_result(base.data, deltas[:k])
            src = rng.choice((db, ent))
            what = "chain of %d%s" % (k, " with " + bad if bad else "")
            c.log(what, "base", str(len(base.data)), "last delta", e.delta, "verdict", want.why if isinstance(want, Err) else "ok")
            if isinstance(want, Err):
                s = None
                try:
                    s = src.stream(e.sha)
                    got = read_all(c, s)
                except Hang_:
                    raise
                except Exception as x:
                    c.ev("malformed chains rejected")
                    c.sig("bad", k, bad, want.why, type(x).__name__)
                    if s is not None:
                        try:
                            again = s.read()
                        except Exception:
                            again = b""
                        if again:
                            c.fail("content delivered after the error: " + what, want.why, again)
                    continue
                c.fail("malformed delta yields content: " + what, want.why, got, e.delta)
            info = src.info(e.sha)
            check_info(c, info, e.sha, base.type, len(want), what + " info")
            s = src.stream(e.sha)
            if rng.random() < .5:
                check_info(c, s, e.sha, base.type, len(want), what + " stream")
            if rng.random() < .3:
                gen.drive(c, Rewindable(s), want, ops=8, what=what)
            else:
                got = read_all(c, s)
                if got != want:
                    i = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                    c.fail("%s: content differs at %d (got %d bytes, expected %d)" % (what, i, len(got), len(want)), e.delta)
                c.ev("bytes compared", len(want))
            check_info(c, s, e.sha, base.type, len(want), what + " stream after reading")
            c.ev("chains read")
            if rng.random() < .2 and base.data:
                # the base has been read from already, what is left isn't what the delta was made for
                streams = ent.collect_streams(e.sha)
                n = len(streams[-1].read(rng.choice((1, 5, len(base.data) // 2 + 1, len(base.data)))))
                try:
                    r = DeltaApplyReader.new(streams)
                    got = r.read()
                except Hang_:
                    raise
                except Exception:
                    c.ev("incomplete bases rejected")
                else:
                    c.check(got == want, "%s: %d of %d bytes of the base were missing, but content is delivered" % (what, n, len(base.data)), got, want)
                    c.ev("incomplete bases completed")
            if not want:
                c.ev("empty results")
            c.sig("ok", k, opcodes(c, e.delta), bad)
    c.sample(chains=[(len(es) - 1, bad or "", [len(e.payload) for e in es]) for es, bad in chains][:6])


from vlib.core import Hang as Hang_


def good(c):
    run(c, False)


def malformed(c):
    run(c, True)


def encodings(c):
    """every combination of present offset/size bytes of a copy instruction"""
    rng = c.rng
    base = gen.content(rng, 0x10000 * 3 + 77, "random") if c.index % 2 else rng.randbytes(0x1010203)
    ops, want = [], []
    for k in range(24):
        op = 0x80 | rng.randrange(128)
        off = size = 0
        body = bytearray()
        for i in range(4):
            if op & (1 << i):
                b = rng.choice((0, 0, 1, rng.randrange(256)))
                body.append(b)
                off |= b << (8 * i)
        for i in range(3):
            if op & (0x10 << i):
                b = rng.choice((0, 0, 1, 2, rng.randrange(256))) if i < 2 else rng.choice((0, 0, 0, 1, 1, rng.choice((2, 8, 0x40, 0x7f, 0x80, 0x81, 0xf0))))
                body.append(b)
                size |= b << (8 * i)
        size = size or 0x10000
        if off + size > len(base) or size > 1 << 20 and sum(map(len, want)) > 24 << 20:
            continue
        ops.append(bytes([op]) + bytes(body))
        want.append(base[off:off + size])
        c.sig("enc", op & 0x7f)
        if not op & 0x70:
            c.ev("implicit 65536 copies")
    want = b"".join(want)
    b = ref.Entry(b"blob", base)
    e = ref.Entry(b"blob", want or b"-", rng.choice(("ofs", "ref")), b, ref.make_delta(len(base), len(want), ops))
    ref.write_pack_files(rng, c.tmp, [b, e], deflate=lambda d: __import__("zlib").compress(d, 0))
    db = PackedDB(c.tmp)
    check_info(c, db.info(e.sha), e.sha, b"blob", len(want), "copy encodings")
    s = db.stream(e.sha)
    c.check(s.read() == want, "content of copy encodings", [o.hex() for o in ops])
    c.ev("chains read")


class DeltaSource:
    """what connect_deltas() needs of a stream"""
    def __init__(self, delta):
        self.delta = delta
        self.size = len(delta)

    def read(self, size=-1):
        return self.delta


def merged(c):
    """the chain is merged into one list of copy and insert instructions, which is executed on the base at once"""
    rng = c.rng
    maxsize = rng.choice((200, 3000, 30000, 200000))
    typ = gen.otype(rng)
    base = gen.content(rng, rng.choice((0, 1, rng.randint(1, 300), gen.size(rng, maxsize), 0x10000 + rng.randint(-2, 70000))))
    for k in range(4):
        data, deltas = base, []
        for k in range(rng.choice((1, 2, 2, 3, 3, rng.randint(4, 9)))):
            if data and rng.random() < .15:       # an instruction to copy 65536 bytes whose size isn't written
                n = min(0x10000, len(data))
                if n == 0x10000:
                    off = rng.randrange(len(data) - n + 1)
                    ins = rng.randbytes(rng.randint(1, 127))
                    d = ref.make_delta(len(data), n + len(ins), [ref.insert_op(ins), ref.copy_op(off, 0x10000)])
                    data = ins + data[off:off + n]
                    deltas.append(d)
                    c.ev("implicit 65536 copies")
                    continue
            d, res = ref.random_delta(rng, data, max_ops=rng.choice((3, 12, 30)), max_out=maxsize)
            if rng.random() < .05:
                res = b""
                d = ref.make_delta(len(data), 0, [])
            deltas.append(d)
            data = res
        bad = None
        want = data
        if rng.random() < .3:
            below = chain_result(base, deltas[:-1])
            for _ in range(20):
                bad, d = bad_delta(rng, below, deltas[-1], data)
                # whether the lowest one fits isn't known before it's applied
                if declared(d) < 1 << 24 and bad in ("result size", "copy outside", "trailing insert", "short insert") + (("base size",) * (len(deltas) > 1)):
                    deltas[-1] = d
                    break
                bad = None
            want = chain_result(base, deltas)
        what = "merged chain of %d%s" % (len(deltas), " with " + bad if bad else "")
        real = bad is None and not any(len(d) < 1 for d in deltas) and rng.random() < .4
        if real:
            es = [ref.Entry(typ, base)]
            for d in deltas:
                es.append(ref.Entry(typ, rng.randbytes(24), rng.choice(("ofs", "ref")), es[-1], d))
            folder = os.path.join(c.tmp, "m%d-%d" % (k, rng.randrange(1 << 40)))
            os.mkdir(folder)
            ref.write_pack_files(rng, folder, es)
            db = PackedDB(folder)
            streams = db.entities()[0].collect_streams(es[-1].sha)[:-1]
        else:
            streams = [DeltaSource(d) for d in reversed(deltas)]
        c.log(what, "base", str(len(base)), "deltas", *[d.hex() for d in deltas][:3])
        out = []
        try:
            chunks = connect_deltas(streams)
            chunks.apply(base, out.append)
        except Hang_:
            raise
        except Exception as x:
            if not isinstance(want, Err):
                c.fail("%s: %s" % (what, type(x).__name__), str(x), [d.hex() for d in deltas])
            c.ev("malformed merges rejected")
            c.sig("merge bad", len(deltas), bad, want.why, type(x).__name__)
            continue
        got = b"".join(bytes(b) for b in out)
        if isinstance(want, Err):
            c.fail("malformed delta yields content: " + what, want.why, got, deltas[-1])
        if got != want:
            i = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.fail("%s: content differs at %d (got %d bytes, expected %d)" % (what, i, len(got), len(want)), [d.hex() for d in deltas])
        c.check(chunks.rbound() == len(want) and chunks.lbound() == 0 and chunks.size() == len(want),
                what + ": bounds of the list", (chunks.lbound(), chunks.rbound(), chunks.size()), len(want))
        if want:
            chunks.check_integrity(len(want))
        if len(chunks) > 1 and rng.random() < .3:
            k = rng.randrange(1, len(chunks))
            at = sum(x.ts for x in chunks[:k])
            part, out = DeltaChunkList(chunks[k:]), []
            part.apply(base, out.append)
            c.check(b"".join(bytes(b) for b in out) == want[at:], what + ": content of a part of the list", k)
            c.eq((part.lbound(), part.rbound(), part.size()), (at, len(want), len(want) - at), what + ": bounds of a part of the list")
            # these are assertions
            for some, n in () if not __debug__ else ((chunks, len(want) + rng.choice((-1, 1, 100))), (part, len(want)), (DeltaChunkList(chunks[:k]), len(want)), (DeltaChunkList(chunks[:k - 1] + chunks[k:]), -1 if k > 1 else len(want))):
                try:
                    some.check_integrity(n)
                except AssertionError:
                    c.ev("incomplete lists rejected")
                else:
                    c.fail(what + ": an incomplete list is taken for a complete one", k, n, [(x.to, x.ts) for x in some])
            for x in chunks:
                c.check(x.has_data() == (x.data is not None), what + ": kind of an instruction")
        if rng.random() < .4:
            # fewer, but larger instructions
            n, out = len(chunks), []
            chunks = chunks.compress()
            chunks.apply(base, out.append)
            c.check(b"".join(bytes(b) for b in out) == want, what + ": content differs once the list is compressed", [d.hex() for d in deltas])
            c.check(len(chunks) <= n, what + ": more instructions once the list is compressed", n, len(chunks))
            if want:
                chunks.check_integrity(len(want))
            c.ev("lists compressed")
        c.ev("merged chains")
        c.sig("merge", len(deltas), opcodes(c, deltas[-1]), real, bad)


FAMILIES = [("merged", merged, 300, 6000), ("good", good, 350, 9000), ("malformed", malformed, 500, 12000), ("encodings", encodings, 40, 800)]
