from vlib.world import *
import hashlib
import zlib

LEVEL = "exploration"
RULE = ("one case = one set of ids with engineered shared prefixes distributed over loose files, packs and alternates (overlaps included); prefixes "
        "of 4 to 40 digits of every id, and near misses, are resolved by every database and compared with a scan of the id set; distinct = "
        "(database kind, prefix length, number of matches capped at 3, sources of the match, parity)")
MORE = 6
REQUIRE = {"unique": 3000, "ambiguous": 2000, "no match": 2000}


def idset(rng, n):
    out = set()
    fam = [bytes.fromhex(h) for h in ("00" * 20, "ff" * 20)][:rng.randint(0, 2)] + [rng.randbytes(20) for _ in range(rng.randint(1, 4))]
    out |= set(fam[-1:])
    while len(out) < n:
        b = rng.choice(list(out) + fam).hex()
        k = rng.choice((rng.randint(0, 39), rng.randint(3, 12), 39, 4, 5, 6, 7))
        tail = rng.choice(("0" * 40, "f" * 40, "%040x" % rng.randrange(1 << 160), "0" * 39 + "1"))
        d = rng.choice("0123456789abcdef")
        h = (b[:k] + d + tail)[:40] if rng.random() < .7 else (b[:k] + tail)[:40]
        out.add(bytes.fromhex(h))
    return out


def put_loose(root, s):
    p = ref.loose_path(root, s)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(zlib.compress(b"blob 1\0x"))


def put_pack(rng, d, ids):
    os.makedirs(d, exist_ok=True)
    es = []
    for s in ids:
        e = ref.Entry(b"blob", rng.randbytes(4))
        e.sha = s
        es.append(e)
    ref.write_pack_files(rng, d, es, idx_version=rng.choice((1, 2)))


def answer(fn):
    try:
        return fn()
    except AmbiguousObjectName:
        return "ambiguous"
    except BadObject:
        return "bad"


def expect(ids, prefix):
    m = [s for s in ids if s.hex().startswith(prefix)]
    return (m[0] if len(m) == 1 else "ambiguous" if m else "bad"), len(m)


def prefixes(rng, ids, n):
    out = set()
    ids = list(ids)
    for _ in range(n):
        h = rng.choice(ids).hex()
        k = rng.choice((rng.randint(4, 40), rng.randint(4, 9), 4, 5, 40, 39))
        p = h[:k]
        x = rng.random()
        if x < .25:
            p = p[:-1] + rng.choice("0123456789abcdef")
        elif x < .32:
            p = rng.choice((("%040x" % rng.randrange(1 << 160)), "0" * 40, "f" * 40, h[:3] + "0" * 40))[:k]
        elif x < .40:
            p = "%0*x" % (k, (int(p, 16) + rng.choice((1, -1))) % 16 ** k)
        out.add(p)
    return sorted(out)


def spell(rng, p):
    x = rng.random()
    if x < .25:
        return p.upper()
    if x < .5:
        return p.encode()
    if x < .6:
        return "".join(rng.choice((ch, ch.upper())) for ch in p)
    return p


def query(c, kind, fn, ids, n, where=lambda s: ""):
    rng = c.rng
    for p in prefixes(rng, ids or [bytes(20)], n):
        want, m = expect(ids, p)
        got = answer(lambda: fn(p))
        if isinstance(got, (bytes, bytearray, memoryview)):
            got = bytes(got)
        c.ev("unique" if m == 1 else "ambiguous" if m else "no match")
        c.sig(kind, len(p), min(m, 3), where(want) if m == 1 else "")
        if got != want:
            c.fail("%s: prefix %s of %d digits: got %s, expected %s (%d matches)" % (
                kind, p, len(p), got.hex() if isinstance(got, bytes) else repr(got), want.hex() if isinstance(want, bytes) else want, m))


def binform(p):
    return bytes.fromhex(p + "0" if len(p) % 2 else p)


def idx_answer(x, p):
    i = x.partial_sha_to_index(binform(p), len(p))
    if i is None:
        raise BadObject(p)
    return bytes(x.sha(i))


def loose(c):
    rng = c.rng
    ids = idset(rng, rng.randint(1, 25))
    for s in ids:
        put_loose(c.tmp, s)
    db = LooseObjectDB(c.tmp)
    query(c, "loose", lambda p: db.partial_to_complete_sha_hex(spell(rng, p)), ids, 40)


def packed(c):
    rng = c.rng
    ids = idset(rng, rng.randint(1, 60))
    n = rng.choice((1, 1, 2, 3, 5))
    parts = [set() for _ in range(n)]
    for s in ids:
        for p in rng.sample(parts, rng.choice((1, 1, min(2, n), n))):
            p.add(s)
    parts = [p for p in parts if p]
    for p in parts:
        put_pack(rng, c.tmp, p)
    db = PackedDB(c.tmp)
    kind = "packed in %d" % len(parts)
    c.sample(ids=[s.hex() for s in ids][:6], packs=[len(p) for p in parts])
    query(c, kind, lambda p: db.partial_to_complete_sha(binform(p), len(p)), ids, 90, lambda s: str([s in p for p in parts]))
    for e in db.entities():
        mine = {bytes(e.index().sha(i)) for i in range(e.index().size())}
        query(c, "index", lambda p: idx_answer(e.index(), p), mine, 40)


def git_(c):
    rng = c.rng
    ids = idset(rng, rng.randint(1, 40))
    roots = [ref.git_repo(os.path.join(c.tmp, "r%d" % i)) for i in range(rng.choice((1, 1, 2, 3)))]
    for i, r in enumerate(roots[:-1]):
        # main -> alternates, in a row or nested
        nxt = roots[1:] if i == 0 and rng.random() < .5 else [roots[i + 1]]
        with open(os.path.join(r, "info", "alternates"), "w") as f:
            f.write("\n".join(nxt) + "\n")
        if len(nxt) > 1:
            break
    places = []
    for r in roots:
        places.append(("loose", r, set()))
        for k in range(rng.choice((0, 1, 2))):
            places.append(("pack", r, set()))
    for s in ids:
        for p in rng.sample(places, rng.choice((1, 1, 1, min(2, len(places)), min(3, len(places))))):
            p[2].add(s)
    for kind, r, part in places:
        if kind == "loose":
            for s in part:
                put_loose(r, s)
        elif part:
            put_pack(rng, os.path.join(r, "pack"), part)

    def where(s):
        return str(sorted((k, roots.index(r)) for k, r, part in places if s in part))
    db = GitDB(roots[0])
    c.sample(ids=len(ids), places=[(k, roots.index(r), len(p)) for k, r, p in places])
    if rng.random() < .5:
        for s in rng.sample(list(ids), min(5, len(ids))):
            c.check(db.has_object(s), "has_object of a stored id", s.hex())
    query(c, "git/%d" % len(roots), lambda p: db.partial_to_complete_sha_hex(spell(rng, p)), ids, 60, where)
    if len(roots) > 1:
        rest = {s for k, r, part in places if r != roots[0] for s in part}
        rdb = ReferenceDB(os.path.join(roots[0], "info", "alternates"))
        query(c, "reference", lambda p: rdb.partial_to_complete_sha_hex(spell(rng, p)), rest, 30, where)


def real(c):
    """real objects stored by the library, git rev-parse as second opinion"""
    rng = c.rng
    repo = os.path.join(c.tmp, "r.git")
    root = ref.git_repo(repo)
    db = GitDB(root)
    # many small blobs, searched for equal four digit prefixes
    seen, pairs, i = {}, [], rng.randrange(1 << 40)
    while len(pairs) < 3 and len(seen) < 3000:
        d = b"%d" % i
        i += 1
        h = ref.oid(b"blob", d).hex()
        if h[:4] in seen:
            pairs.append((seen[h[:4]], d))
        seen[h[:4]] = d
    model = {}
    for a, b in pairs:
        for d in (a, b):
            model[ref.oid(b"blob", d)] = d
    for s, d in model.items():
        if rng.random() < .5:
            db.store(IStream(b"blob", len(d), BytesIO(d)))
        else:
            ref.write_loose(root, b"blob", d)
    if rng.random() < .6:
        take = rng.sample(list(model), max(1, len(model) // 2))
        ref.git(["--git-dir", repo, "pack-objects", "-q", os.path.join(root, "pack", "pack")], input="".join(s.hex() + "\n" for s in take).encode())
        if rng.random() < .5:
            for s in take:
                os.unlink(ref.loose_path(root, s))
    db = GitDB(root)
    query(c, "real", lambda p: db.partial_to_complete_sha_hex(spell(rng, p)), set(model), 30)
    for s in model:
        for k in (4, 5, 7):
            p = s.hex()[:k]
            r = ref.git(["--git-dir", repo, "rev-parse", "--verify", "-q", p + "^{blob}"], ok=False)
            g = r.stdout.decode().strip()
            got = answer(lambda: db.partial_to_complete_sha_hex(p))
            c.eq(got.hex() if isinstance(got, bytes) else "", g, "git resolves %s differently" % p)
            c.ev("prefixes resolved by git")


FAMILIES = [("loose", loose, 150, 3000), ("packed", packed, 200, 5000), ("git", git_, 120, 3000), ("real", real, 8, 60)]
