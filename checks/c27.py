from vlib.world import *
import mmap
import zlib
from gitdb import fun
from gitdb.pack import write_stream_to_pack
from gitdb.stream import FDStream, NullStream
from gitdb.util import LazyMixin, allocate_memory, bin_to_hex, file_contents_ro, file_contents_ro_filepath, hex_to_bin, sliding_ro_buffer, to_bin_sha, to_hex_sha

LEVEL = "exploration"
RULE = ("one case = one file (or scratch memory block, descriptor stream, set of ids) with generated content, accessed through one helper with random slices, "
        "reads and writes, with memory mapping available or failing, and compared with a byte-array model; distinct = (helper, options, size class, "
        "mapping available)")
MORE = 2
REQUIRE = {"descriptors moved": 100, "file views": 800, "views without mapping": 250, "slices compared": 10000, "windowed slices": 1640, "memory operations": 4800, "id conversions": 2400,
           "descriptor operations": 4000, "loose reads without mapping": 180, "lazy attributes": 200, "short reads": 300,
           "buffers over changed files": 600,
           "streams copied": 1900, "null streams": 150, "ids and prefixes compared": 6400}


class no_mapping:
    """files and memory can't be mapped, as on some network and user space file systems"""

    def __enter__(self):
        self.real = mmap.mmap

        def fail(*a, **k):
            raise OSError(19, "No such device")
        mmap.mmap = fail

    def __exit__(self, *a):
        mmap.mmap = self.real


class short_reads:
    """a single call returns less than asked for, as it does beyond 2 GB or where the file system wants to"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.real = os.read

        def read(fd, n):
            if n > 1:
                n = self.c.rng.choice((1, n // 2 + 1, n - 1, max(1, n - 4096), n)) if n < 2000 else self.c.rng.choice((self.c.rng.randint(n // 4, n), self.c.rng.randint(1000, 20000)))
                self.c.ev("short reads")
            return self.real(fd, n)
        os.read = read

    def __exit__(self, *a):
        os.read = self.real


class Nothing:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def size(rng):
    k = rng.random()
    if k < .6:
        return max(1, rng.choice((1, 2, 4096, 8192, 65536)) * rng.randint(1, 4) + rng.randint(-2, 2))
    return gen.size(rng, 300000) or 1


def slices(c, v, data, what, n):
    rng = c.rng
    for k in range(n):
        i = rng.choice((0, rng.randrange(len(data)), max(0, len(data) - rng.randint(1, 30))))
        j = rng.choice((len(data), rng.randint(i, len(data)), min(len(data), i + rng.randint(0, 30))))
        if i == j:
            continue
        got = bytes(v[i:j])
        if got != data[i:j]:
            c.fail(what + ": slice", "%d:%d of %d" % (i, j, len(data)), got, data[i:j])
        c.ev("slices compared")


def views(c):
    rng = c.rng
    data = gen.content(rng, size(rng))
    path = os.path.join(c.tmp, "f")
    with open(path, "wb") as f:
        f.write(data)
    before = fds()
    stream, allow = rng.random() < .5, rng.random() < .6
    flags = rng.choice((0, getattr(os, "O_NOATIME", 0)))
    mapped = rng.random() < .7
    what = "contents(stream=%s, allow_mmap=%s)%s" % (stream, allow, "" if mapped else " without mapping")
    with Nothing() if mapped else no_mapping(), short_reads(c) if rng.random() < .3 else Nothing():
        if rng.random() < .6:
            v = file_contents_ro_filepath(path, stream=stream, allow_mmap=allow, flags=flags)
            c.eq(set(fds().values()) & {path}, set(), what + ": descriptors left open") if not (mapped and allow) else None
        else:
            fd = os.open(path, os.O_RDONLY)
            v = file_contents_ro(fd, stream, allow)
            c.check(fd in fds(), what + ": closed a descriptor it was given")
            os.close(fd)
    c.eq(len(v), len(data), what + ": length")
    c.eq(bytes(v[:]), data, what + ": everything")
    slices(c, v, data, what, 8)
    for k in range(4):
        i = rng.randrange(len(data))
        b = v[i]
        c.eq(b if isinstance(b, int) else ord(b), data[i], what + ": byte")
    if stream:
        got = []
        pos = 0
        for k in range(6):
            n = rng.choice((1, 7, 4096, len(data)))
            r = v.read(n)
            c.eq(r, data[pos:pos + n], what + ": read(%d) at %d" % (n, pos))
            pos += len(r)
        v.seek(0)
        c.eq(v.read(len(data)), data, what + ": read after rewinding")
    c.ev("file views")
    if not mapped:
        c.ev("views without mapping")
    v = None
    gc.collect()
    c.eq(set(fds()) - set(before), set(), what + ": descriptors left open")
    c.eq(maps(c.tmp), [], what + ": mappings left")
    c.raises(OSError, lambda: file_contents_ro_filepath(path + "x", stream=stream, allow_mmap=allow), what + ": missing file")
    c.raises(OSError, lambda: file_contents_ro_filepath(c.tmp, stream=stream, allow_mmap=allow), what + ": directory")
    gc.collect()
    c.eq(set(fds()) - set(before), set(), what + ": descriptors left open after a failure")
    c.sig("view", stream, allow, mapped, flags, len(data).bit_length())


def sliding(c):
    rng = c.rng
    data = gen.content(rng, size(rng) * rng.choice((1, 3)))
    path = os.path.join(c.tmp, "f")
    with open(path, "wb") as f:
        f.write(data)
    win = rng.choice((None, 4096, 8192, 65536))
    with Nothing() if win is None else small_windows(win):
        b = sliding_ro_buffer(path)
        c.eq(len(b), len(data), "sliding buffer: length")
        slices(c, b, data, "sliding buffer, window %s" % win, 25)
        for k in range(5):
            i = rng.randrange(len(data))
            x = b[i]
            c.eq(x if isinstance(x, int) else ord(x), data[i], "sliding buffer: byte %d" % i)
        if win and len(data) > win:
            c.ev("windowed slices", 25)
        for k in range(rng.choice((0, 0, 1, 2, 3))):
            # the file is replaced or written to: new buffers are of what is there now
            keep, old = rng.random() < .3 and b, data
            data = gen.content(rng, size(rng) * rng.choice((1, 3)))
            how = rng.choice(("replaced", "removed and created", "written to"))
            if how == "written to":
                if len(data) < len(old):
                    data += old[:len(old) - len(data)]
                keep = None
                with open(path, "r+b") as f:
                    f.write(data)
            else:
                if how != "replaced":
                    os.unlink(path)
                with open(path + ".new" * (how == "replaced"), "wb") as f:
                    f.write(data)
                if how == "replaced":
                    os.rename(path + ".new", path)
            if rng.random() < .5:
                del b
                gc.collect()
            b = sliding_ro_buffer(path)
            c.ev("buffers over changed files")
            c.eq(len(b), len(data), "sliding buffer over a file that was %s: length" % how)
            slices(c, b, data, "sliding buffer over a file that was %s, window %s" % (how, win), 8)
            if keep and (not win or len(old) <= win):
                slices(c, keep, old, "older sliding buffer over a file that was %s" % how, 8)
            del keep
        if rng.random() < .3:
            del b
            gc.collect()
            os.unlink(path)
            c.raises(OSError, lambda: sliding_ro_buffer(path), "sliding buffer over a file that was removed")
        b = None
        gc.collect()
    c.sig("sliding", win, len(data).bit_length())


def memory(c):
    rng = c.rng
    n = rng.choice((0, 1, rng.randint(1, 50), size(rng)))
    mapped = rng.random() < .7
    with Nothing() if mapped else no_mapping():
        m = allocate_memory(n)
    model, pos = bytearray(n), 0
    what = "scratch memory of %d bytes%s" % (n, "" if mapped else " without mapping")
    c.eq(len(m), n, what + ": length")
    c.eq(bytes(m[0:n]), bytes(n), what + ": initial content")
    for k in range(20):
        op = rng.random()
        c.ev("memory operations")
        if op < .4 and pos < n:
            d = rng.randbytes(rng.choice((1, n - pos, rng.randint(1, n - pos))))
            m.write(d)
            model[pos:pos + len(d)] = d
            pos += len(d)
        elif op < .6:
            pos = rng.choice((0, rng.randint(0, n)))
            m.seek(pos)
        elif op < .8:
            r = rng.randint(1, n + 1)
            c.eq(bytes(m.read(r)), bytes(model[pos:pos + r]), what + ": read(%d) at %d" % (r, pos))
            pos = min(n, pos + r)
        else:
            i = rng.randint(0, n)
            j = rng.randint(i, n)
            c.eq(bytes(m[i:j]), bytes(model[i:j]), what + ": slice %d:%d" % (i, j))
        c.eq(m.tell(), pos, what + ": position")
    c.eq(bytes(m[0:n]), bytes(model), what + ": final content")
    c.sig("memory", n.bit_length(), mapped)


def loose(c):
    """objects can be read where files can't be mapped"""
    rng = c.rng
    objs = []
    for k in range(3):
        typ, data = gen.otype(rng), gen.content(rng, gen.size(rng, 100000))
        ref.write_loose(c.tmp, typ, data, gen.deflate(rng, ref.loose_bytes(typ, data)))
        objs.append((ref.oid(typ, data), typ, data))
    before = fds()
    with no_mapping(), short_reads(c) if rng.random() < .3 else Nothing():
        db = LooseObjectDB(c.tmp)
        for sha, typ, data in objs:
            s = check_present(c, db, sha, typ, data, "without mapping")
            c.ev("loose reads without mapping")
            del s
        gc.collect()
    c.eq(set(fds()) - set(before), set(), "descriptors left open")
    c.sig("loose", len(objs[0][2]).bit_length())


def ids(c):
    rng = c.rng
    for k in range(20):
        b = rng.choice((rng.randbytes(20), bytes(20), b"\xff" * 20, bytes(rng.choice((0, 9, 10, 0x30, 0x61, 0x66)) for _ in range(20))))
        h = b.hex().encode()
        c.eq(bytes(to_hex_sha(b)), h, "hex form")
        c.eq(bytes(bin_to_hex(b)), h, "hex form")
        c.eq(bt(to_hex_sha(h)), h, "hex form of a hex id")
        c.eq(bytes(to_bin_sha(h)), b, "binary form")
        c.eq(bytes(to_bin_sha(h.decode())), b, "binary form of text")
        c.eq(bytes(hex_to_bin(h)), b, "binary form")
        c.eq(bytes(to_bin_sha(b)), b, "binary form of a binary id")
        c.ev("id conversions")
        c.sig("ids", b[:2])


def descriptor(c):
    """a stream on a raw descriptor"""
    rng = c.rng
    path = os.path.join(c.tmp, "f")
    data = gen.content(rng, size(rng))
    if rng.random() < .5:
        fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        s = FDStream(fd)
        n = 0
        for part in gen.split(rng, data):
            r = s.write(part)
            if r is not None:
                c.eq(r, len(part), "write() result")
            n += len(part)
            c.eq(s.tell(), n, "position after write")
            c.ev("descriptor operations")
        with open(path, "rb") as f:
            c.eq(f.read(), data, "written through a descriptor stream")
    else:
        with open(path, "wb") as f:
            f.write(data)
        fd = os.open(path, os.O_RDONLY)
        s = FDStream(fd)
        n = 0
        while True:
            k = rng.choice((0, 1, 100, 4096, 1 << 20)) if n > len(data) // 2 or rng.random() < .02 else rng.choice((1, 1000, 50000))
            d = s.read(k) if k or rng.random() < .5 else s.read()
            want = data[n:n + k] if k else data[n:]
            c.eq(d, want, "read(%d) at %d of a descriptor stream" % (k, n))
            n += len(d)
            c.eq(s.tell(), n, "position after read")
            c.ev("descriptor operations")
            if n == len(data):
                break
        c.eq(s.read(10), b"", "read at the end")
    if rng.random() < .4:
        # somebody else moves the descriptor, or it can be both read and written
        s.close()
        fd = os.open(path, os.O_RDWR)
        s, at = FDStream(fd), 0
        for _ in range(rng.randint(2, 8)):
            op = rng.random()
            if op < .4:
                at = os.lseek(fd, rng.choice((0, 0, rng.randint(0, len(data)), len(data))), 0)
            elif op < .6:
                b = gen.content(rng, rng.choice((1, 5, 300)))
                c.eq(s.write(b), len(b), "write() result")
                data = data[:at] + b + data[at + len(b):]
                at += len(b)
            else:
                k = rng.choice((0, 0, 1, 100, 1 << 20))
                d = s.read(k) if k or rng.random() < .5 else s.read()
                c.eq(d, data[at:at + k] if k else data[at:], "read(%d) at %d of a descriptor that was moved" % (k, at))
                at += len(d)
            c.ev("descriptor operations")
        c.ev("descriptors moved")
    c.eq(s.fileno(), fd, "fileno")
    s.close()
    c.check(fd not in fds() or fds()[fd] != path, "descriptor still open after close()")
    c.sig("fd", len(data).bit_length(), n == 0)


def lazy(c):
    rng = c.rng
    names = ["a", "b", "c"]

    class T(LazyMixin):
        def __init__(self):
            self.calls = []

        def _set_cache_(self, attr):
            self.calls.append(attr)
            if attr in names:
                setattr(self, attr, (attr, len(self.calls)))
            else:
                super()._set_cache_(attr)
    t, have = T(), {}
    for k in range(20):
        n = rng.choice(names)
        op = rng.random()
        if op < .7:
            before = len(t.calls)
            v = getattr(t, n)
            if n in have:
                c.eq((v, len(t.calls)), (have[n], before), "lazy attribute computed again")
            else:
                c.eq((v, t.calls[before:]), ((n, before + 1), [n]), "lazy attribute")
                have[n] = v
        elif op < .85 and n in have:
            delattr(t, n)
            del have[n]
        else:
            c.raises(AttributeError, lambda: t.unknown, "unknown attribute")
    c.ev("lazy attributes")
    c.sig("lazy", tuple(sorted(have)), len(t.calls))


class Piecewise:
    """source whose reads return what they like, up to what is asked for"""

    def __init__(self, c, data, after=b""):
        self.c, self.data, self.pos, self.asked = c, data + after, 0, 0

    def read(self, n):
        rng = self.c.rng
        self.asked = max(self.asked, n)
        if n > 1 and rng.random() < .6:
            n = rng.choice((1, n // 2, n - 1)) if n < 3000 else rng.randint(n // 4, n)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r


def copies(c):
    """copying a stream plain, behind a header and compressed: exactly the announced amount, whatever the pieces"""
    rng = c.rng
    for _ in range(6):
        data = gen.content(rng, rng.choice((0, 1, 2, rng.randint(0, 5000), rng.randint(0, 5000), rng.randint(0, 200000))))
        n = len(data)
        chunk = rng.choice((1, 2, 7, 100, n, n + 1, max(1, n - 1), max(1, n // 2), 4096, 1 << 20)) if n < 5000 else rng.choice((1000, 4096, n, n - 1, n // 2, 1 << 20))
        chunk = max(1, chunk)
        more = gen.content(rng, rng.choice((0, 0, 1, 50)))
        short = n and rng.random() < .25
        src = Piecewise(c, data[:rng.randrange(n)] if short else data, b"" if short else more)
        avail = min(n, len(src.data))
        out = []
        what = "%d of %d bytes in chunks of %d" % (n, len(src.data), chunk)
        kind = rng.choice(("copy", "object", "object", "pack"))
        if kind == "copy":
            r = fun.stream_copy(src.read, lambda b: out.append(bytes(b)), n, chunk)
            c.eq(r, avail, "stream_copy() result, " + what)
            c.eq(b"".join(out), src.data[:avail], "copied by stream_copy(), " + what)
            c.eq(src.pos, avail, "taken by stream_copy(), " + what)
        elif kind == "object":
            t = rng.choice(gen.TYPES)
            a = (t if rng.random() < .5 else t.decode(), n, src.read, lambda b: out.append(bytes(b)) or len(b)) + rng.choice(((), (chunk,)))
            head = b"%s %d\0" % (t, n)
            if short:
                c.raises(Exception, lambda: fun.write_object(*a), "write_object() of a stream that ends early, " + what)
            else:
                c.eq(fun.write_object(*a), len(head) + n, "write_object() result, " + what)
                c.eq(b"".join(out), head + data, "written by write_object(), " + what)
                c.eq(src.pos, n, "taken by write_object(), " + what)
        else:
            z = zlib.compressobj(rng.randint(0, 9))
            base = rng.choice((None, 0, rng.randrange(1 << 32)))
            br, bw, crc = write_stream_to_pack(src.read, lambda b: out.append(bytes(b)), z, *([base] if base is not None or rng.random() < .5 else []))
            got = b"".join(out)
            c.eq((br, bw), (len(src.data), len(got)), "amounts read and written by write_stream_to_pack(), " + what)
            c.eq(zlib.decompress(got), src.data, "written by write_stream_to_pack(), " + what)
            if base is not None:
                c.eq(crc & 0xffffffff, zlib.crc32(got, base) & 0xffffffff, "checksum of what write_stream_to_pack() wrote, " + what)
        if rng.random() < .1:
            # nothing at all
            z = NullStream()
            c.eq([z.read(*a) for a in ((), (0,), (10,), (-1,))], [b""] * 4, "read from the null stream")
            c.eq(z.write(data), n, "write() result of the null stream")
            c.eq(fun.stream_copy(z.read, z.write, n, chunk), 0, "copied from the null stream")
            o = MemoryDB().store(IStream(b"blob", 0, z))
            c.eq(bytes(o.binsha), ref.oid(b"blob", b""), "id of a null stream")
            z.close()
            c.ev("null streams")
        c.ev("streams copied")
        c.sig("copies", kind, n.bit_length(), chunk.bit_length(), short)


def prefixes(c):
    """whether an id starts with an abbreviation of any number of digits"""
    rng = c.rng
    for _ in range(40):
        sha = rng.choice((rng.randbytes(20), bytes(20), b"\xff" * 20))
        k = rng.randint(1, 39)
        h = sha.hex()[:k]
        other = rng.random() < .6
        if other:
            i = rng.choice((0, k - 1, rng.randrange(k)))
            h = h[:i] + "%x" % (int(h[i], 16) ^ (1 << rng.randrange(4))) + h[i + 1:]
        part = bytes.fromhex(h + "0" * (k % 2))
        c.eq(bool(fun.is_equal_canonical_sha(k, part, sha)), not other, "whether %s starts with %s" % (sha.hex(), h))
        c.ev("ids and prefixes compared")
        c.sig("prefix", k, other)


FAMILIES = [("views", views, 2000, 20000), ("sliding", sliding, 600, 6000), ("memory", memory, 600, 6000), ("loose", loose, 150, 1500),
            ("ids", ids, 300, 3000), ("descriptor", descriptor, 600, 5000), ("lazy", lazy, 500, 4000),
            ("copies", copies, 400, 4000), ("prefixes", prefixes, 200, 2000)]
