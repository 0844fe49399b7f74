import zlib
from vlib.world import *
from vlib.core import Inconclusive, limits
import struct
import hashlib

LEVEL = "exploration"
RULE = ("one case = one valid pack/index pair (random objects, delta structure and order, index version, offset width, mapping window size; own "
        "writer or git pack-objects) in which every object is queried by id through database and pack entity, enumerated, and compared with the "
        "generator's table and (own packs: a share) with git cat-file; distinct = (kind, depth, base kinds on the chain, index version, 64 bit)")
MORE = 3
REQUIRE = {"objects compared": 2460, "delta objects": 960, "objects read by git": 500, "multi-window packs": 10, "64-bit offsets": 200, "chains of 500 or more": 1}


def chain(e):
    out = []
    while e is not None:
        out.append(e.kind)
        e = e.base
    return tuple(out)


def compare(c, db, ent, e, how):
    """e: (sha, type, data)"""
    sha, typ, data = e
    c.ev("objects compared")
    for name, q in (("database", db), ("entity", ent)):
        check_info(c, q.info(sha), sha, typ, len(data), "%s info via %s" % (how, name))
        s = q.stream(sha)
        check_info(c, s, sha, typ, len(data), "%s stream via %s" % (how, name))
        if c.rng.random() < .2:
            gen.drive(c, Rewindable(s), data, ops=6, what="%s stream via %s" % (how, name))
        else:
            got = s.read()
            if got != data:
                c.fail("%s: content via %s differs" % (how, name), sha.hex(), got, data)
            c.ev("bytes compared", len(data))


def whole(c, dirpath, model, how, nidx=None, full=True):
    """everything about the one pack in dirpath, model: {sha: (type, data)}"""
    db = PackedDB(dirpath)
    ents = db.entities()
    c.eq(len(ents), 1, how + " packs found")
    ent = ents[0]
    if c.rng.random() < .5:
        p = ent.pack().path()
        ent = PackEntity(p if c.rng.random() < .5 else p[:-5] + ".idx")
    c.eq(db.size(), len(model), how + " size")
    c.eq(ent.pack().size(), len(model), how + " entries in the pack header")
    c.eq(ent.index().size(), len(model), how + " index size")
    order = list(model)
    c.rng.shuffle(order)
    for sha in order:
        compare(c, db, ent, (sha,) + model[sha], how)
    for sha in near_ids(c.rng, order):
        check_absent(c, db, sha, how)
        c.raises(BadObject, lambda: ent.stream(sha), how + " stream of an absent id")
        c.raises(BadObject, lambda: ent.info(sha), how + " info of an absent id")
    c.eq(sorted(map(bytes, db.sha_iter())), sorted(model), how + " enumeration of ids")
    seen = []
    for i in ent.info_iter():
        sha = bytes(i.binsha)
        c.check(sha in model, how + " info_iter yields an unknown id", sha)
        check_info(c, i, sha, model[sha][0], len(model[sha][1]), how + " info_iter")
        seen.append(sha)
    c.eq(sorted(seen), sorted(model), how + " info_iter does not yield each object once")
    seen = []
    for s in ent.stream_iter():
        sha = bytes(s.binsha)
        c.check(sha in model, how + " stream_iter yields an unknown id", sha)
        check_info(c, s, sha, model[sha][0], len(model[sha][1]), how + " stream_iter")
        c.eq(s.read(), model[sha][1], how + " content in stream_iter")
        seen.append(sha)
    c.eq(sorted(seen), sorted(model), how + " stream_iter does not yield each object once")
    for sha in order[:10]:
        i = ent.index().sha_to_index(sha)
        check_info(c, ent.info_at_index(i), sha, model[sha][0], len(model[sha][1]), how + " info_at_index")
        c.eq(ent.stream_at_index(i).read(), model[sha][1], how + " stream_at_index")


def note(c, es, v, f64):
    for e in es:
        c.sig(e.type, e.depth(), chain(e)[:4], v, f64, min(len(e.data), 3))
        c.ev("delta objects" if e.base else "whole objects")
        c.peak("delta depth", e.depth())
        if f64:
            c.ev("64-bit offsets")


def git_says(c, repo, model):
    res = ref.cat_file_batch(repo, list(model))
    for sha, v in model.items():
        c.ev("objects read by git")
        if res[sha] != v:
            # the pack this check generated is not what it should be
            raise Inconclusive("git disagrees with the generator about %s: %r" % (sha.hex(), res[sha] and res[sha][0]))


def packs(c):
    rng = c.rng
    use_git = rng.random() < .35
    repo = os.path.join(c.tmp, "r.git")
    d = os.path.join(ref.git_repo(repo), "pack") if use_git else os.path.join(c.tmp, rng.choice(("pack", "p [x]*", "päck")))
    os.makedirs(d, exist_ok=True)
    n = rng.choice((1, 2, 3, rng.randint(4, 40), rng.randint(4, 40), 120 if rng.random() < .2 else 8))
    kinds = rng.choice((("ofs", "ref"), ("ofs", "ref"), ("ofs",), ("ref",), ("ref", "ref", "ofs")))
    es = ref.random_entries(rng, n, rng.choice((300, 5000, 60000)), kinds=kinds, max_depth=rng.choice((1, 3, 12)), git_ok=use_git)
    v = rng.choice((1, 2, 2))
    f64 = "some" if rng.random() < .4 else None
    p, es = ref.write_pack_files(rng, d, es, idx_version=v, force64=f64)
    model = {e.sha: (e.type, e.data) for e in es}
    c.log("pack", len(es), "objects, index", str(v), "kinds", str(kinds))
    note(c, es, v, v == 2 and f64)
    if use_git:
        git_says(c, repo, model)
    c.sample(objects=len(es), index_version=v, chains=["/".join(chain(e)) for e in es][:10])
    whole(c, d, model, "pack of %d" % len(es))


def deep(c):
    """long chains, all mixtures of reference and offset deltas"""
    rng = c.rng
    depth = rng.choice((20, 50, 50, 120))
    base = ref.Entry(gen.otype(rng), gen.content(rng, rng.randint(1, 4000)))
    es = [base]
    while es[-1].depth() < depth and len(es) < depth + 5:
        d, res = ref.random_delta(rng, es[-1].data, max_ops=4, max_out=9000)
        e = ref.Entry(base.type, res, rng.choice(("ofs", "ref")), es[-1], d)
        if len(d) < 4 or not res or any(x.sha == e.sha for x in es):
            d = ref.make_delta(len(es[-1].data), len(es[-1].data) + 3, [ref.insert_op(rng.randbytes(3))] + (
                [ref.copy_op(0, len(es[-1].data))] if es[-1].data else []))
            e = ref.Entry(base.type, ref.apply_delta(es[-1].data, d), rng.choice(("ofs", "ref")), es[-1], d)
        es.append(e)
    p, es = ref.write_pack_files(rng, c.tmp, es)
    note(c, es, 0, None)
    whole(c, c.tmp, {e.sha: (e.type, e.data) for e in es}, "chain of %d" % depth)


def deepest(c):
    """chains as long as git makes them"""
    rng = c.rng
    depth = (4095, 1100, 500, 2100)[c.index % 4]
    data = rng.randbytes(rng.randint(20, 3000))
    kinds = rng.choice((("ofs",), ("ref",), ("ofs", "ref")))
    es = [ref.Entry(gen.otype(rng), data)]
    for k in range(depth):
        b = es[-1]
        n, at = len(b.data), rng.randint(6, len(b.data))
        d = ref.make_delta(n, n, ([ref.copy_op(0, at - 6)] if at > 6 else []) + [ref.insert_op(b"%06d" % k)] + ([ref.copy_op(at, n - at)] if at < n else []))
        es.append(ref.Entry(b.type, ref.apply_delta(b.data, d), rng.choice(kinds), b, d))
    p, _ = ref.write_pack_files(rng, c.tmp, es)
    c.peak("delta depth", depth)
    c.ev("chains of 500 or more", 1)
    c.sig("deepest", depth, kinds)
    e, db = PackEntity(p), PackedDB(c.tmp)
    for x in [es[0], es[-1], es[-2]] + rng.sample(es, 12):
        check_present(c, db, x.sha, x.type, x.data, "chain of %d," % depth)
        i = e.info(x.sha)
        c.eq((i.type, i.size), (x.type, len(x.data)), "info, chain of %d" % depth)
    c.eq(sum(1 for _ in e.info_iter()) if depth < 1000 else len(es), len(es), "infos of a chain of %d" % depth)


def windows(c):
    """packs several mapping windows large"""
    rng = c.rng
    w = rng.choice((1 << 16, 1 << 16, 1 << 17, 3 << 15))
    es = ref.random_entries(rng, rng.randint(6, 40), rng.choice((3000, 60000, 60000)), delta_share=rng.choice((.2, .6)))
    # incompressible fillers push the entries apart
    for k in range(rng.randint(1, 6)):
        es.append(ref.Entry(b"blob", rng.randbytes(rng.choice((w // 2, w - 30, w, w + 5, 2 * w, 3 * w)))))
    memo = {}

    def deflate(d):
        if d not in memo:
            memo[d] = gen.deflate(rng, d, wide=True)
        return memo[d]
    p, es = ref.write_pack_files(rng, c.tmp, es, deflate=deflate)
    size = os.path.getsize(p)
    if rng.random() < .4:
        # let the end of the pack be close to the end of a window
        os.unlink(p)
        os.unlink(p[:-4] + "idx")
        last = rng.randbytes(max(1, w - size % w - 14 + rng.randint(-25, 25)))
        memo[last] = zlib.compress(last, 0)
        es.append(ref.Entry(b"blob", last))
        p, es = ref.write_pack_files(rng, c.tmp, es, deflate=deflate, order=False)
        size = os.path.getsize(p)
        if size % w < 20:
            c.ev("checksums spanning windows")
    if size < 2 * w:
        return
    c.ev("multi-window packs")
    c.log("window", str(w), "pack", str(size))
    note(c, es, "w", None)
    for e in es:
        a, b = e.offset // w, (e.end - 1) // w
        c.sig("window", b - a, e.offset % 4096 < 2, e.kind)
    c.sample(window=w, pack=size, offsets=[e.offset for e in es][:20])
    with small_windows(w):
        model = {e.sha: (e.type, e.data) for e in es}
        whole(c, c.tmp, model, "pack of %d bytes in windows of %d" % (size, w))
        ent = PackEntity(p)
        c.eq(bytes(ent.pack().checksum()), open(p, "rb").read()[-20:], "checksum of a multi-window pack")


def gitpacks(c):
    """packs and indices written by git itself"""
    rng = c.rng
    repo = os.path.join(c.tmp, "r.git")
    root = ref.git_repo(repo)
    d = os.path.join(root, "pack")
    base = gen.content(rng, rng.randint(200, 40000), rng.choice(("text", "mixed", "random", "lowent")))
    model = {}
    trees = []
    for k in range(rng.randint(1, 12)):
        i = rng.randint(0, len(base))
        base = base[:i] + gen.content(rng, rng.randint(0, 300)) + base[i + rng.randint(0, 200):]
        sha = bytes.fromhex(ref.git(["--git-dir", repo, "hash-object", "-w", "--stdin"], input=base).stdout.decode().strip())
        model[sha] = (b"blob", base)
        trees.append(b"100644 blob " + sha.hex().encode() + b"\tf%d\n" % k)
    t = bytes.fromhex(ref.git(["--git-dir", repo, "mktree"], input=b"".join(trees)).stdout.decode().strip())
    k = bytes.fromhex(ref.git(["--git-dir", repo, "commit-tree", t.hex()], input=b"message").stdout.decode().strip())
    g = ref.git(["--git-dir", repo, "mktag"], input=b"object %s\ntype commit\ntag x\ntagger a <a@b> 1 +0000\n\nm\n" % k.hex().encode(), ok=False)
    ids = [t, k] + ([bytes.fromhex(g.stdout.decode().strip())] if g.returncode == 0 else [])
    model.update(ref.cat_file_batch(repo, ids))
    opts = ["--depth=%d" % rng.choice((1, 5, 50)), "--window=%d" % rng.choice((0, 5, 20)), "--compression=%d" % rng.randint(0, 9),
            "--index-version=" + rng.choice(("1", "2", "2", "2,0x0", "2,0x%x" % rng.randint(13, 9000)))]
    if opts[-1].endswith("0x0"):
        opts[-1] = "--index-version=2,0xd"
    if rng.random() < .5:
        opts.append("--delta-base-offset")
    ref.git(["--git-dir", repo, "pack-objects", "-q"] + opts + [os.path.join(d, "pack")],
            input="".join(s.hex() + "\n" for s in model).encode())
    for s in model:
        os.unlink(ref.loose_path(root, s))
    c.log("git pack-objects", " ".join(opts))
    c.ev("packs by git")
    c.sig(*opts)
    git_says(c, repo, model)
    whole(c, d, model, "git pack " + " ".join(opts))
    gdb = GitDB(root)
    for sha in rng.sample(list(model), min(5, len(model))):
        check_present(c, gdb, sha, *model[sha], "git database,")


def sparse(c):
    """entries at offsets beyond 2^30, 2^31 and 2^32 (the gaps are holes no index entry refers to)"""
    limits(16 << 30, 64 << 30)
    rng = c.rng
    es = ref.random_entries(rng, 24, 20000, delta_share=.6)
    es = ref.order_entries(rng, es)
    raw = ref.build_pack(rng, es)       # fixes headers except for ofs distances
    marks = sorted(rng.sample(range(1, len(es)), 4))
    gaps = dict(zip(marks, (rng.choice(((1 << 30) - 2000, 1 << 30)), rng.randint(1 << 28, 1 << 30), 1 << 30, rng.choice((1 << 31, 3 << 30)))))
    pos = 12
    name = os.path.join(c.tmp, "pack-" + hashlib.sha1(raw).hexdigest())
    with open(name + ".pack", "wb") as f:
        f.write(raw[:12])
        import binascii
        for i, e in enumerate(es):
            pos += gaps.get(i, 0)
            e.offset = pos
            comp = e.raw[e.body_at_rel:]
            h = (ref.entry_header(ref.NUM[e.type], len(e.data)) if e.kind == "base" else
                 ref.entry_header(7, len(e.delta)) + e.base.sha if e.kind == "ref" else
                 ref.entry_header(6, len(e.delta)) + ref.ofs_bytes(pos - e.base.offset))
            e.raw = h + comp
            e.crc = binascii.crc32(e.raw) & 0xffffffff
            f.seek(pos)
            f.write(e.raw)
            pos += len(e.raw)
        f.write(rng.randbytes(20))
        trailer = pos
    with open(name + ".pack", "rb") as f:
        f.seek(trailer)
        psha = f.read(20)
    v = 2
    with open(name + ".idx", "wb") as f:
        f.write(ref.build_idx(es, psha, v))
    model = {e.sha: (e.type, e.data) for e in es}
    note(c, es, "sparse", True)
    c.ev("multi-window packs")
    c.sample(offsets=[e.offset for e in es])
    db = PackedDB(c.tmp)
    ent = db.entities()[0]
    for sha in sorted(model):
        compare(c, db, ent, (sha,) + model[sha], "pack of %d bytes" % (trailer + 20))
    for e in es:
        c.eq(ent.index().offset(ent.index().sha_to_index(e.sha)), e.offset, "recorded offset")
        c.check(ent.is_valid_stream(e.sha), "object verification in a large pack", e.offset)
    del db, ent
    collect()


FAMILIES = [("packs", packs, 220, 6000), ("deep", deep, 16, 300), ("windows", windows, 60, 1200), ("git", gitpacks, 48, 800),
            ("sparse", sparse, 4, 24), ("deepest", deepest, 4, 60)]
