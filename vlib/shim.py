"""Python side of the LD_PRELOAD file-system shim (shim.c)."""
import ctypes
import mmap
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = dict(open=1, write=2, close=3, rename=4, unlink=5, mkdir=6, rmdir=7, chmod=8, truncate=9, link=10, sync=11,
           utime=12, ropen=13, opendir=14, map=15, stat=16)
OFF, COUNT, KILL_BEFORE, KILL_AFTER, KILL_MID, FAIL, SHORT, FAIL_FROM, ALL_SHORT = range(9)
KILLED = 77
_lib = None


def build(target):
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-pthread", "-o", target, os.path.join(HERE, "shim.c"), "-ldl"],
                   check=True)


def ensure():
    """Make sure this process runs with the shim loaded; re-executes the interpreter once if not"""
    global _lib
    so = os.environ.get("VERIF_SHIM")
    if not so:
        d = tempfile.mkdtemp(prefix="verif-shim-")
        so = os.path.join(d, "shim.so")
        try:
            build(so)
        except (OSError, subprocess.CalledProcessError) as e:
            shutil.rmtree(d, ignore_errors=True)
            print("INCONCLUSIVE: cannot build the file-system shim: %s" % e)
            sys.stdout.flush()
            os._exit(2)
        env = dict(os.environ, VERIF_SHIM=so, LD_PRELOAD=so)
        os.execve(sys.executable, [sys.executable] + ["-O"] * sys.flags.optimize + sys.argv, env)
    os.environ.pop("LD_PRELOAD", None)
    lib = ctypes.CDLL(None)
    lib.shim_init()
    lib.shim_set_root.argtypes = [ctypes.c_char_p]
    lib.shim_event.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
    lib.shim_gate.argtypes = [ctypes.c_void_p, ctypes.c_int]
    _lib = lib
    d = os.path.dirname(so)
    if os.path.basename(d).startswith("verif-shim-"):
        shutil.rmtree(d, ignore_errors=True)        # it stays loaded


def mask(*names):
    m = 0
    for n in names:
        m |= 1 << OPS[n]
    return m


def arm(root, mode, n=0, err=0, opmask=0):
    _lib.shim_set_root(os.fsencode(root))
    _lib.shim_arm(mode, n, err, opmask)


def disarm():
    if _lib is not None:
        _lib.shim_disarm()
        _lib.shim_delay(0, 0)
        _lib.shim_see_ropen(0)


def count():
    return _lib.shim_count()


def hits():
    return _lib.shim_hits()


def see_ropen(v):
    _lib.shim_see_ropen(int(v))


def delay(us, seed):
    _lib.shim_delay(us, seed & 0x7fffffff)


class Event:
    __slots__ = ("op", "ret", "err", "tid", "ts", "size", "path", "path2")

    def __repr__(self):
        return "%s(%s%s)=%d%s" % (self.op, os.path.basename(self.path), " -> " + self.path2 if self.path2 else "", self.ret,
                                  " errno %d" % self.err if self.err else "")


def events():
    out = []
    buf = ctypes.create_string_buffer(1024)
    for i in range(_lib.shim_nev()):
        if not _lib.shim_event(i, buf, 1024):
            break
        e = Event()
        op, ret, err, tid, ts, size, p1, p2 = buf.value.decode("utf-8", "replace").split("\t")
        e.op, e.ret, e.err, e.tid, e.ts, e.size, e.path, e.path2 = op, int(ret), int(err), int(tid), int(ts), int(size), p1, p2
        out.append(e)
    return out


class Gate:
    """Shared schedule: the calls of the numbered participants are executed in the given order"""
    HEAD = 4 * (3 + 16 + 16 + 1)

    def __init__(self, who, nproc):
        assert len(who) <= 8192
        self.mm = mmap.mmap(-1, 16384)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.mm))
        self.ints = (ctypes.c_int * 36).from_address(self.addr)
        self.ints[0], self.ints[1], self.ints[2] = 0, len(who), nproc
        for i, w in enumerate(who):
            self.mm[self.HEAD + i] = w

    def join(self, ident):
        _lib.shim_gate(self.addr, ident)

    def join_thread(self, ident):
        _lib.shim_gate_thread(ident)

    def leave(self, ident):
        _lib.shim_gate_done(ident)

    @staticmethod
    def off():
        _lib.shim_gate(None, -1)

    @property
    def timeouts(self):
        return self.ints[35]

    @property
    def pos(self):
        return self.ints[0]
