from vlib.world import *
import struct
import zlib

LEVEL = "exploration"
RULE = ("one case = one generated pack (whole objects, offset and reference deltas, version 1 or 2, 32/64-bit offsets, one or several mapping "
        "windows) verified intact, then with single bytes or ranges of an entry, of a recorded CRC or of a recorded id changed, one copy per "
        "damage; every verdict of both modes is compared with what an independent reader makes of the damaged bytes; distinct = (entry kind, "
        "region, position, change, verdict)")
MORE = 1.5
REQUIRE = {"intact verdicts": 3000, "damaged verdicts": 2500, "entry bytes changed": 800, "recorded CRCs changed": 150, "recorded ids changed": 150,
           "verdicts of unaffected objects": 3000, "dependants of a damaged object": 300}
TRUE = "True"


def verdict(ent, sha, crc):
    try:
        r = ent.is_valid_stream(sha, use_crc=crc)
    except Exception as e:
        return type(e).__name__
    return repr(r)


def decode(pk, off, byoff, bysha, depth=0):
    """lenient reader: what the bytes at off resolve to, (type, data) or None"""
    if depth > 60 or off < 12 or off >= len(pk):
        return None
    try:
        pos = off
        b = pk[pos]
        pos += 1
        t, size, s = (b >> 4) & 7, b & 15, 4
        while b & 0x80:
            b = pk[pos]
            pos += 1
            size |= (b & 0x7f) << s
            s += 7
        base = None
        if t == 6:
            b = pk[pos]
            pos += 1
            n = b & 0x7f
            while b & 0x80:
                b = pk[pos]
                pos += 1
                n = ((n + 1) << 7) | (b & 0x7f)
            if n == 0:
                return None
            base = decode(pk, off - n, byoff, bysha, depth + 1)
        elif t == 7:
            sha = bytes(pk[pos:pos + 20])
            pos += 20
            if sha not in bysha:
                return None
            base = decode(pk, bysha[sha], byoff, bysha, depth + 1)
        elif t not in ref.NAME:
            return None
        if t in (6, 7) and base is None:
            return None
        if size > 1 << 26:
            return None
        try:
            d = zlib.decompressobj().decompress(pk[pos:], size) if size else b""
        except zlib.error:
            # what came before the damage may suffice
            d, o = b"", zlib.decompressobj()
            try:
                for i in range(pos, len(pk)):
                    d += o.decompress(pk[i:i + 1])
                    if len(d) >= size:
                        break
            except zlib.error:
                pass
            d = d[:size]
        if len(d) < size:
            return None
        if t in (6, 7):
            return base[0], ref.apply_delta(base[1], d)
        return ref.NAME[t], d
    except (IndexError, ref.DeltaError):
        return None


def write(c, pk, ix):
    d = os.path.join(c.tmp, "p" + c.rng.randbytes(8).hex())
    os.mkdir(d)
    n = os.path.join(d, "pack-" + c.rng.randbytes(20).hex())
    with open(n + ".pack", "wb") as f:
        f.write(pk)
    with open(n + ".idx", "wb") as f:
        f.write(ix)
    return n + c.rng.choice((".pack", ".idx"))


def change(rng, b, i, n=1):
    """b with something different at i:i+n"""
    b = bytearray(b)
    old = bytes(b[i:i + n])
    while bytes(b[i:i + n]) == old:
        k = rng.random()
        if k < .5:
            j = i + rng.randrange(n)
            b[j] ^= 1 << rng.randrange(8)
        elif k < .8:
            b[i:i + n] = rng.randbytes(n)
        else:
            b[i:i + n] = rng.choice((b"\0", b"\xff", b"\x78")) * n
    return bytes(b)


def dependants(es, e):
    out = {e.sha}
    grew = True
    while grew:
        grew = False
        for x in es:
            if x.base is not None and x.base.sha in out and x.sha not in out:
                out.add(x.sha)
                grew = True
    return out


def intact(c, ent, es, version, what):
    for e in c.rng.sample(es, min(len(es), 40)):
        c.ev("intact verdicts")
        v = verdict(ent, e.sha, False)
        c.eq(v, TRUE, what + ": verification by content of an intact %s object" % e.kind, e.sha.hex())
        v = verdict(ent, e.sha, True)
        c.eq(v, TRUE if version == 2 else "UnsupportedOperation", what + ": verification by CRC of an intact %s object" % e.kind, e.sha.hex())
    for sha in near_ids(c.rng, [e.sha for e in es], 1)[:3]:
        for crc in (False, True):
            if crc and version == 1:
                continue
            c.check(verdict(ent, sha, crc) != TRUE, what + ": an object that isn't there is valid", sha.hex())


def damages(c, pk, ix, es, version, n):
    """-> (pack, index, name, damaged entry, region, sha queried)"""
    rng = c.rng
    body = ix[8 + 1024:] if version == 2 else ix[1024:]
    rank = {s: i for i, s in enumerate(sorted(e.sha for e in es))}
    m = len(es)
    for _ in range(n):
        e = rng.choice(es)
        k = rng.random()
        if k < .6 or version == 1 and k < .8:
            x = rng.random()
            size = e.end - e.offset
            if x < .2:
                i, region = e.offset, "first byte"
            elif x < .35:
                i, region = e.offset + rng.randrange(e.body_at - e.offset), "header"
            elif x < .5:
                i, region = e.end - 1 - rng.randrange(min(4, size)), "checksum"
            elif x < .6:
                i, region = e.body_at + rng.randrange(2), "zlib header"
            else:
                i, region = e.offset + rng.randrange(size), "body"
            w = min(rng.choice((1, 1, 1, 2, 20)), e.end - i)
            yield change(rng, pk, i, w), ix, e, region, e.sha
        elif k < .8:
            i = 8 + 1024 + 20 * m + 4 * rank[e.sha]
            yield pk, change(rng, ix, i + rng.randrange(4)), e, "crc", e.sha
        else:
            at = (8 + 1024 + 20 * rank[e.sha]) if version == 2 else 1024 + 24 * rank[e.sha] + 4
            j = rng.choice((19, 19, 19, rng.randrange(20), 0))
            nix = change(rng, ix, at + j)
            yield pk, nix, e, "id", nix[at:at + 20]


def case(c):
    rng = c.rng
    with_windows = rng.random() < .25
    n = rng.choice((1, 1, 2, rng.randint(2, 12), rng.randint(2, 12), 40))
    es = ref.random_entries(rng, n, rng.choice((300, 3000, 30000)), delta_share=rng.choice((0, .5, .8)), git_ok=False)
    if not es:
        return
    es = ref.order_entries(rng, es)
    run(c, es, with_windows, 14)


def run(c, es, with_windows, n, version=None):
    rng = c.rng
    pk = ref.build_pack(rng, es)
    version = version or rng.choice((2, 2, 2, 1))
    f64 = rng.choice((None, lambda e: e.offset > 12, lambda e: e.sha[5] & 1))
    ix = ref.build_idx(es, pk[-20:], version, f64 if version == 2 else None)
    if with_windows:
        if len(ix) > 60000:
            return
        with small_windows(1 << 16):
            body(c, es, pk, ix, version, n, "several windows")
    else:
        body(c, es, pk, ix, version, n, "one window")


def body(c, es, pk, ix, version, n, what):
    rng = c.rng
    what = "v%d pack of %d objects, %s" % (version, len(es), what)
    c.log(what)
    ent = PackEntity(write(c, pk, ix))
    intact(c, ent, es, version, what)
    bysha = {e.sha: e.offset for e in es}
    for dpk, dix, e, region, sha in damages(c, pk, ix, es, version, n):
        d = PackEntity(write(c, dpk, dix))
        c.log("changed", region, "of", e.kind, e.sha.hex())
        name = what + ": %s of %s object changed, " % (region, e.kind)
        if region == "crc":
            c.ev("recorded CRCs changed")
            v = verdict(d, sha, True)
            c.check(v != TRUE, name + "CRC verification still true", sha.hex())
            affected = set()
            crc_of = {sha}
        elif region == "id":
            c.ev("recorded ids changed")
            v = verdict(d, sha, False)
            c.check(v != TRUE, name + "content verification of the changed id is true", sha.hex())
            v2 = verdict(d, e.sha, False)
            c.check(v2 != TRUE, name + "content verification of the former id is true", e.sha.hex())
            affected = dependants(es, e)
            crc_of = {e.sha}
        else:
            c.ev("entry bytes changed")
            affected = dependants(es, e)
            crc_of = {e.sha}
            if version == 2:
                v = verdict(d, sha, True)
                c.check(v != TRUE, name + "CRC verification still true", sha.hex())
                c.ev("damaged verdicts")
            for x in es:
                if x.sha not in affected or (x is not e and rng.random() < .4):
                    continue
                v = verdict(d, x.sha, False)
                got = decode(dpk, x.offset, None, bysha)
                c.ev("damaged verdicts")
                if x is not e:
                    c.ev("dependants of a damaged object")
                if got == (x.type, x.data):
                    c.ev("damage without effect on the content")
                    continue
                c.check(v != TRUE, name + "content verification of %s is true although the content is not the object's" % (
                    "it" if x is e else "a dependent object"), x.sha.hex())
                c.sig(e.kind, x is e, region, v, version)
        c.ev("damaged verdicts")
        c.sig(region, e.kind, e is es[-1], e is es[0], v)
        if region == "id":
            # an id out of order hides its neighbours from every search
            ids = sorted(x.sha for x in es if x is not e)
            at = sorted(x.sha for x in es).index(e.sha)
            if sha[0] != e.sha[0] or ids[:at] + [sha] + ids[at:] != sorted(ids + [sha]):
                c.ev("order of ids destroyed")
                continue
        for x in rng.sample(es, min(6, len(es))):
            if x.sha not in affected:
                c.eq(verdict(d, x.sha, False), TRUE, name + "content verification of an unaffected object", x.sha.hex())
                c.ev("verdicts of unaffected objects")
            if version == 2 and x.sha not in crc_of:
                c.eq(verdict(d, x.sha, True), TRUE, name + "CRC verification of another object", x.sha.hex())
                c.ev("verdicts of unaffected objects")
    c.sample(objects=len(es), version=version, damages=n)
    del ent
    collect()


def large(c):
    """entries larger than the chunks in which the CRC is computed"""
    rng = c.rng
    es = []
    for k in range(rng.randint(1, 3)):
        n = rng.choice((gen.CHUNK, 2 * gen.CHUNK, gen.CHUNK)) + rng.choice((-20, -11, -7, -1, 0, 1, 5, 1000, 300000))
        d = gen.content(rng, n, "random")
        es.append(ref.Entry(b"blob", d))
        if rng.random() < .5:
            es.append(ref.Entry(b"blob", gen.content(rng, 100)))
    pk = ref.build_pack(rng, es, lambda d: zlib.compress(d, 0))
    ix = ref.build_idx(es, pk[-20:], 2)
    ent = PackEntity(write(c, pk, ix))
    for e in es:
        for crc in (True, False):
            c.eq(verdict(ent, e.sha, crc), TRUE, "large intact object (crc %s)" % crc, len(e.data))
            c.ev("intact verdicts")
    e = rng.choice(es)
    at = rng.choice((e.offset, e.end - 1, e.end - 5, min(e.end - 1, e.offset + gen.CHUNK), min(e.end - 1, e.offset + gen.CHUNK - 1), rng.randrange(e.offset, e.end)))
    d = PackEntity(write(c, change(rng, pk, at), ix))
    c.check(verdict(d, e.sha, True) != TRUE, "changed byte of a large object not noticed by CRC", at - e.offset, e.end - e.offset)
    c.ev("damaged verdicts")
    for x in es:
        if x is not e:
            c.eq(verdict(d, x.sha, True), TRUE, "CRC of another large object", len(x.data))
    c.sig("large", len(e.data), at - e.offset)
    del ent, d
    collect()


FAMILIES = [("packs", case, 1500, 20000), ("large", large, 8, 120)]
