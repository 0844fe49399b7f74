"""Independent reference of git's object, delta, pack and index formats (no code shared with gitdb)."""
import binascii
import hashlib
import os
import struct
import subprocess
import zlib

from vlib.core import Inconclusive
from vlib import gen

NUM = {b"commit": 1, b"tree": 2, b"blob": 3, b"tag": 4}
NAME = {v: k for k, v in NUM.items()}


def oid(typ, data):
    h = hashlib.sha1(typ + b" " + str(len(data)).encode() + b"\0")
    h.update(data)
    return h.digest()


def loose_bytes(typ, data):
    return typ + b" " + str(len(data)).encode() + b"\0" + data


def parse_loose(raw):
    """raw: file content -> (type, data); raises ValueError if it is not exactly one complete object"""
    d = zlib.decompressobj()
    try:
        full = d.decompress(raw)
    except zlib.error as e:
        raise ValueError("not a zlib stream: %s" % e)
    if not d.eof or d.unused_data:
        raise ValueError("incomplete zlib stream or trailing garbage")
    i = full.find(b"\0")
    typ, sp, sz = full[:i].partition(b" ")
    if i < 0 or not sz.isdigit() or (len(sz) > 1 and sz[:1] == b"0") or int(sz) != len(full) - i - 1:
        raise ValueError("bad header %r" % full[:40])
    return typ, full[i + 1:]


def loose_path(root, sha):
    h = sha.hex()
    return os.path.join(root, h[:2], h[2:])


def write_loose(root, typ, data, compressed=None):
    sha = oid(typ, data)
    p = loose_path(root, sha)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p):
        with open(p, "wb") as f:
            f.write(compressed if compressed is not None else zlib.compress(loose_bytes(typ, data), 1))
        os.chmod(p, 0o444)
    return sha


# ---------------------------------------------------------------- deltas
def varint(n, pad=0):
    out = bytearray()
    while n > 0x7f:
        out.append(0x80 | (n & 0x7f))
        n >>= 7
    out.append(n)
    if pad:
        out[-1] |= 0x80
        out += b"\x80" * (pad - 1) + b"\0"
    return bytes(out)


def copy_op(off, size, rng=None):
    """encode a copy; with rng possibly with redundant zero bytes. size 0x10000 has an implicit form"""
    assert 0 < size <= 0xffffff and off <= 0xffffffff
    c, body = 0x80, bytearray()
    for i in range(4):
        b = (off >> (8 * i)) & 0xff
        if b or (rng and rng.random() < 0.1):
            c |= 1 << i
            body.append(b)
    s = size
    if size == 0x10000 and (rng is None or rng.random() < 0.7):
        s = 0
    for i in range(3):
        b = (s >> (8 * i)) & 0xff
        if b or (rng and rng.random() < 0.1 and s):
            c |= 0x10 << i
            body.append(b)
    if s == 0 and rng and rng.random() < 0.3:
        c |= 0x10
        body.append(0)
    return bytes([c]) + bytes(body)


def insert_op(data):
    assert 0 < len(data) <= 127
    return bytes([len(data)]) + data


def make_delta(base_size, result_size, ops, pad=(0, 0)):
    return varint(base_size, pad[0]) + varint(result_size, pad[1]) + b"".join(ops)


class DeltaError(Exception):
    pass


def _rv(d, i):
    n = s = 0
    while True:
        if i >= len(d):
            raise DeltaError("truncated size")
        c = d[i]
        i += 1
        n |= (c & 0x7f) << s
        s += 7
        if not c & 0x80:
            return n, i


def apply_delta(base, d):
    """strict reference interpreter, raises DeltaError"""
    bs, i = _rv(d, 0)
    rs, i = _rv(d, i)
    if bs != len(base):
        raise DeltaError("base size")
    out = bytearray()
    while i < len(d):
        c = d[i]
        i += 1
        if c & 0x80:
            off = size = 0
            for k in range(4):
                if c & (1 << k):
                    if i >= len(d):
                        raise DeltaError("truncated copy")
                    off |= d[i] << (8 * k)
                    i += 1
            for k in range(3):
                if c & (0x10 << k):
                    if i >= len(d):
                        raise DeltaError("truncated copy")
                    size |= d[i] << (8 * k)
                    i += 1
            if size == 0:
                size = 0x10000
            if off + size > len(base):
                raise DeltaError("copy outside base")
            out += base[off:off + size]
        elif c:
            if i + c > len(d):
                raise DeltaError("truncated insert")
            out += d[i:i + c]
            i += c
        else:
            raise DeltaError("opcode 0")
    if len(out) != rs:
        raise DeltaError("result size")
    return bytes(out)


def random_delta(rng, base, max_ops=12, max_out=300000, odd=True):
    """-> (delta, result): a random well-formed delta on base"""
    ops, out = [], bytearray()
    n = rng.choice((0, 1, 1, 2, 3, rng.randint(1, max_ops), max_ops * 4 if rng.random() < .2 else 4))
    for _ in range(n):
        if len(out) > max_out:
            break
        if base and rng.random() < 0.65:
            k = rng.random()
            if k < 0.15 and len(base) >= 0x10000:
                size = 0x10000
                off = rng.choice((0, len(base) - size, rng.randint(0, len(base) - size)))
            elif k < 0.3:
                off = rng.choice((0, len(base) - 1, rng.randint(0, len(base) - 1)))
                size = len(base) - off
            else:
                off = rng.randint(0, len(base) - 1)
                size = min(len(base) - off, rng.choice((1, 2, 255, 256, 257, 0xffff, 0x10000, 0x10001, rng.randint(1, 70000))))
            size = min(size, 0xffffff)
            ops.append(copy_op(off, size, rng if odd else None))
            out += base[off:off + size]
        else:
            d = gen.content(rng, rng.choice((1, 2, 126, 127, rng.randint(1, 127))))
            ops.append(insert_op(d))
            out += d
    pad = (rng.choice((0, 0, 0, 1, 2)), rng.choice((0, 0, 0, 1, 3))) if odd else (0, 0)
    return make_delta(len(base), len(out), ops, pad), bytes(out)


# ---------------------------------------------------------------- packs
def entry_header(t, size):
    c = (t << 4) | (size & 15)
    size >>= 4
    out = bytearray()
    while size:
        out.append(c | 0x80)
        c = size & 0x7f
        size >>= 7
    out.append(c)
    return bytes(out)


def ofs_bytes(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        n -= 1
        out.append(0x80 | (n & 0x7f))
        n >>= 7
    return bytes(reversed(out))


class Entry:
    """one pack entry.  kind: 'base', 'ofs', 'ref'"""

    def __init__(self, typ, data, kind="base", base=None, delta=None):
        self.type, self.data, self.kind, self.base, self.delta = typ, data, kind, base, delta
        self.sha = oid(typ, data)
        self.offset = self.end = self.crc = self.raw = self.body_at = self.body_at_rel = None

    @property
    def payload(self):
        return self.data if self.kind == "base" else self.delta

    def depth(self):
        n, e = 0, self
        while e.base is not None:
            n, e = n + 1, e.base
        return n


def build_pack(rng, entries, deflate=None):
    """writes entries in the given order (an 'ofs' base must come before) -> pack bytes"""
    deflate = deflate or (lambda d: gen.deflate(rng, d, wide=True))
    out = bytearray(struct.pack(">4sLL", b"PACK", 2, len(entries)))
    for e in entries:
        e.offset = len(out)
        p = e.payload
        if e.kind == "base":
            h = entry_header(NUM[e.type], len(p))
        elif e.kind == "ofs":
            assert e.base.offset is not None and e.base.offset < e.offset
            h = entry_header(6, len(p)) + ofs_bytes(e.offset - e.base.offset)
        else:
            h = entry_header(7, len(p)) + e.base.sha
        e.raw = h + deflate(p)
        e.body_at, e.body_at_rel = e.offset + len(h), len(h)
        out += e.raw
        e.end = len(out)
        e.crc = binascii.crc32(e.raw) & 0xffffffff
    out += hashlib.sha1(out).digest()
    return bytes(out)


def build_idx(entries, pack_sha, version=2, force64=None, rng=None):
    """entries: objects with sha, offset, crc"""
    es = sorted(entries, key=lambda e: e.sha)
    fan = [0] * 256
    for e in es:
        fan[e.sha[0]] += 1
    out = bytearray()
    if version == 2:
        out += b"\xfftOc" + struct.pack(">L", 2)
    n = 0
    for v in fan:
        n += v
        out += struct.pack(">L", n)
    if version == 1:
        for e in es:
            out += struct.pack(">L20s", e.offset, e.sha)
    else:
        for e in es:
            out += e.sha
        for e in es:
            out += struct.pack(">L", e.crc)
        big = []
        for e in es:
            if e.offset > 0x7fffffff or (force64 and force64(e)):
                out += struct.pack(">L", 0x80000000 | len(big))
                big.append(e.offset)
            else:
                out += struct.pack(">L", e.offset)
        for o in big:
            out += struct.pack(">Q", o)
    out += pack_sha
    out += hashlib.sha1(out).digest()
    return bytes(out)


def random_entries(rng, n, max_size=60000, delta_share=None, max_depth=12, kinds=("ofs", "ref"), types=None, git_ok=True):
    """n distinct objects with a random delta structure, in an order in which ofs bases precede"""
    delta_share = rng.choice((0, .3, .6, .9)) if delta_share is None else delta_share
    es, seen = [], set()
    tries = 0
    while len(es) < n and tries < 20 * n + 50:
        tries += 1
        if es and rng.random() < delta_share:
            b = es[-1] if rng.random() < 0.5 else rng.choice(es)
            if b.depth() >= max_depth:
                continue
            d, res = random_delta(rng, b.data, max_out=max_size)
            if git_ok and (len(d) < 4 or not res):          # git refuses deltas this short and deltas with empty results
                continue
            e = Entry(b.type, res, rng.choice(kinds), b, d)
        else:
            e = Entry(rng.choice(types or gen.TYPES), gen.content(rng, gen.size(rng, max_size)))
        if e.sha in seen:
            continue
        seen.add(e.sha)
        es.append(e)
    return es


def order_entries(rng, es):
    """random order that keeps every ofs delta behind its base (ref deltas may precede theirs)"""
    es = list(es)
    rng.shuffle(es)
    out, done = [], set()

    def put(e):
        if id(e) in done:
            return
        stack = []
        while e is not None and id(e) not in done:
            stack.append(e)
            e = e.base if e.kind == "ofs" else None
        for x in reversed(stack):
            done.add(id(x))
            out.append(x)
    for e in es:
        put(e)
    return out


def write_pack_files(rng, dirpath, entries, idx_version=None, force64="some", order=True, deflate=None):
    """-> (pack path, ordered entries)"""
    es = order_entries(rng, entries) if order else list(entries)
    data = build_pack(rng, es, deflate)
    v = idx_version or rng.choice((2, 2, 1))
    f64 = None
    if v == 2 and force64 == "some":
        k = rng.random()
        # git refuses an index in which all offsets are 64 bit (one object is always at offset 12)
        f64 = (lambda e: e.offset > 12) if k < 0.2 else ((lambda e, m=rng.randint(2, 5): e.offset > 12 and e.sha[3] % m == 0) if k < 0.5 else None)
    elif v == 2 and force64 == "all":
        f64 = lambda e: e.offset > 12
    idx = build_idx(es, data[-20:], v, f64)
    name = os.path.join(dirpath, "pack-" + rng.randbytes(20).hex())
    with open(name + ".pack", "wb") as f:
        f.write(data)
    with open(name + ".idx", "wb") as f:
        f.write(idx)
    return name + ".pack", es


# ---------------------------------------------------------------- strict pack / index checker
def check_pack(data):
    """parse a pack of whole objects -> list of (offset, type, content, raw); raises ValueError"""
    if len(data) < 32:
        raise ValueError("too short")
    if data[-20:] != hashlib.sha1(data[:-20]).digest():
        raise ValueError("pack checksum")
    sig, ver, n = struct.unpack(">4sLL", data[:12])
    if sig != b"PACK" or ver != 2:
        raise ValueError("pack header %r %d" % (sig, ver))
    pos, end, out = 12, len(data) - 20, []
    for _ in range(n):
        start = pos
        c = data[pos]
        pos += 1
        t, size, s = (c >> 4) & 7, c & 15, 4
        while c & 0x80:
            c = data[pos]
            pos += 1
            size |= (c & 0x7f) << s
            s += 7
        if t not in NAME:
            raise ValueError("type %d at %d" % (t, start))
        if entry_header(t, size) != data[start:pos]:
            raise ValueError("non-canonical header at %d" % start)
        d = zlib.decompressobj()
        body = d.decompress(data[pos:end])
        if not d.eof:
            raise ValueError("truncated entry at %d" % start)
        pos = end - len(d.unused_data)
        if len(body) != size:
            raise ValueError("size of entry at %d: header %d, data %d" % (start, size, len(body)))
        out.append((start, NAME[t], body, data[start:pos]))
    if pos != end:
        raise ValueError("%d bytes of garbage after the last entry" % (end - pos))
    return out


def check_idx_v2(idx, pack_data, entries):
    """entries as returned by check_pack; raises ValueError"""
    if idx[:8] != b"\xfftOc\0\0\0\2":
        raise ValueError("index header")
    if idx[-20:] != hashlib.sha1(idx[:-20]).digest():
        raise ValueError("index checksum")
    if idx[-40:-20] != pack_data[-20:]:
        raise ValueError("pack checksum in index")
    want = sorted((oid(t, b), binascii.crc32(raw) & 0xffffffff, o) for o, t, b, raw in entries)
    n = len(want)
    fan = struct.unpack(">256L", idx[8:1032])
    for i in range(256):
        if fan[i] != sum(1 for w in want if w[0][0] <= i):
            raise ValueError("fanout %d" % i)
    p = 1032
    if [idx[p + 20 * i:p + 20 * i + 20] for i in range(n)] != [w[0] for w in want]:
        raise ValueError("ids")
    p += 20 * n
    if list(struct.unpack(">%dL" % n, idx[p:p + 4 * n])) != [w[1] for w in want]:
        raise ValueError("crcs")
    p += 4 * n
    o32 = struct.unpack(">%dL" % n, idx[p:p + 4 * n])
    p += 4 * n
    big = [w[2] for w in want if w[2] > 0x7fffffff]
    got, k = [], 0
    for o in o32:
        if o & 0x80000000:
            j = o & 0x7fffffff
            got.append(struct.unpack(">Q", idx[p + 8 * j:p + 8 * j + 8])[0])
            k += 1
        else:
            got.append(o)
    if got != [w[2] for w in want]:
        raise ValueError("offsets")
    if len(idx) != p + 8 * k + 40:
        raise ValueError("index length")


# ---------------------------------------------------------------- git
def git(args, cwd=None, input=None, ok=True):
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    env.pop("GIT_DIR", None)
    try:
        p = subprocess.run(["git"] + list(args), cwd=cwd, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           timeout=300)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise Inconclusive("git failed to run: %s" % e)
    if ok and p.returncode:
        raise Inconclusive("git %s: %s" % (" ".join(args), p.stderr.decode("utf-8", "replace")[-400:]))
    return p


def git_repo(path):
    """bare repository, returns its objects directory"""
    git(["init", "-q", "--bare", path])
    return os.path.join(path, "objects")


def cat_file_batch(repo, shas):
    """{sha: (type, content)} or None as git reads them"""
    p = git(["--git-dir", repo, "cat-file", "--batch"], input=b"".join(s.hex().encode() + b"\n" for s in shas))
    out, res, i = p.stdout, {}, 0
    for s in shas:
        j = out.index(b"\n", i)
        f = out[i:j].split()
        i = j + 1
        if f[1] == b"missing":
            res[s] = None
            continue
        n = int(f[2])
        res[s] = (f[1], out[i:i + n])
        i += n + 1
    return res
