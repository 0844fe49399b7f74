"""Helpers that talk to gitdb through its public interface and compare with the model."""
import copy
import gc
import os
import signal
import stat
import sys
import warnings
from io import BytesIO

import gitdb
from gitdb import GitDB, IStream, LooseObjectDB, MemoryDB, OInfo, OStream, PackedDB
from gitdb.db import ReferenceDB
from gitdb.exc import AmbiguousObjectName, BadObject, UnsupportedOperation

from vlib import gen, ref
from vlib.core import Violation

packmod = sys.modules["gitdb.pack"]         # the attribute gitdb.pack is another module
utilmod = sys.modules["gitdb.util"]
PackEntity, PackFile, PackIndexFile = packmod.PackEntity, packmod.PackFile, packmod.PackIndexFile


def bt(t):
    return t.encode() if isinstance(t, str) else bytes(t)


class small_windows:
    """context in which the shared memory manager maps windows of the given size only (as for packs larger than one window)"""

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        import gitdb.util
        m = type(gitdb.util.mman)(window_size=self.size)
        self.old = []
        for mod in list(sys.modules.values()):
            if getattr(mod, "__name__", "").startswith("gitdb") and hasattr(mod, "mman"):
                self.old.append((mod, mod.mman))
                mod.mman = m
        return m

    def __exit__(self, *a):
        gc.collect()
        for mod, m in self.old:
            mod.mman = m


def collect():
    gc.collect()
    try:
        utilmod.mman.collect()
    except Exception:
        pass


def istream(rng, typ, data, src=None):
    t = typ if rng.random() < 0.8 else typ.decode()
    return IStream(t, len(data), src or gen.Source(data, rng.choice(gen.SPLITS), rng))


def check_info(c, info, sha, typ, size, what):
    c.eq(bytes(info.binsha), sha, what + " binsha")
    c.eq(bt(info.hexsha), sha.hex().encode(), what + " hexsha")
    c.eq(bt(info.type), typ, what + " type")
    c.eq(info.size, size, what + " size")
    if not isinstance(info.type, str):
        c.eq(info.type_id, ref.NUM[typ], what + " type_id")


def in_child(fn, seconds=60):
    """fork and call fn in the child -> function to wait for it, which returns what fn did: None or an error message"""
    r, w = os.pipe()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")         # there may be other threads
        pid = os.fork()
    if pid == 0:
        msg = "died"
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, seconds)
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                msg = fn() or "ok"
            except BaseException as e:
                msg = repr(e)
        finally:
            os.write(w, msg[:1000].encode("utf8", "replace"))
            os._exit(0)
    os.close(w)

    def wait():
        got = b""
        while True:
            b = os.read(r, 1000)
            if not b:
                break
            got += b
        os.close(r)
        os.waitpid(pid, 0)
        return None if got == b"ok" else got.decode() or "it does not finish"
    return wait


def check_present(c, db, sha, typ, data, what="", reads="random"):
    """all query forms of db agree that sha is the given object"""
    c.ev("object checks")
    if not db.has_object(sha):
        c.fail(what + " has_object() is False for a present object", sha.hex())
    if not (sha in db):
        c.fail(what + " 'in' is False for a present object", sha.hex())
    check_info(c, db.info(sha), sha, typ, len(data), what + " info")
    s = db.stream(sha)
    check_info(c, s, sha, typ, len(data), what + " stream")
    if reads == "random":
        gen.drive(c, Rewindable(s), data, ops=c.rng.choice((0, 3, 12)), what=what)
    elif reads == "all":
        got = s.read()
        if got != data:
            c.fail(what + " content differs", got, data)
        c.ev("bytes compared", len(data))
    return s


class Rewindable:
    """uniform read/seek on O*Stream objects: seek is only defined on the contained stream"""

    def __init__(self, s):
        self.read = s.read
        self.seek = s.stream.seek


def check_absent(c, db, sha, what=""):
    c.ev("absence checks")
    if db.has_object(sha):
        c.fail(what + " has_object() is True for an absent id", sha.hex())
    if sha in db:
        c.fail(what + " 'in' is True for an absent id", sha.hex())
    for name in ("info", "stream"):
        try:
            r = getattr(db, name)(sha)
        except BadObject:
            continue
        c.fail("%s %s() of an absent id returned %r" % (what, name, r))


def near_ids(rng, shas, n=4):
    """ids that are likely to be confused with the given ones"""
    out = [bytes(20), b"\xff" * 20, rng.randbytes(20)]
    shas = list(shas)
    for _ in range(n if shas else 0):
        s = int.from_bytes(rng.choice(shas), "big")
        k = rng.randint(0, 159)
        for v in (s + 1, s - 1, s ^ (1 << k), s ^ 1, s ^ (1 << 159)):
            if 0 <= v < 1 << 160:
                out.append(v.to_bytes(20, "big"))
    have = set(shas)
    return [o for o in out if o not in have]


def snapshot(root, content=True):
    """{relative path: (kind, inode, mode, mtime_ns, size, bytes)} of everything below root"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode):
                out[os.path.relpath(p, root)] = ("dir", st.st_ino, st.st_mode, 0, 0, None)
            else:
                b = None
                if stat.S_ISLNK(st.st_mode):
                    b = os.fsencode(os.readlink(p))
                elif content:
                    with open(p, "rb") as f:
                        b = f.read()
                out[os.path.relpath(p, root)] = ("file", st.st_ino, st.st_mode, st.st_mtime_ns, st.st_size, b)
    return out


def fds():
    """{fd: target} of this process"""
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def maps(prefix):
    """list of mapped files below prefix"""
    out = []
    with open("/proc/self/maps") as f:
        for line in f:
            i = line.find("/")
            if i >= 0 and line[i:].startswith(prefix):
                out.append(line[i:].rstrip("\n"))
    return out
