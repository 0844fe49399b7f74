"""Running an operation in a forked child that is killed, failed or watched; used by the crash and fault checks."""
import os
import pickle
import shutil
import signal
import sys
import time
import traceback

from vlib import shim
from vlib.core import Inconclusive, Violation, REPO

PREFIX = os.path.join(REPO, "gitdb") + os.sep


def child(fn, timeout=120):
    """run fn() in a fork -> (exit status, result or None); result is ('ok', value) or ('exc', type name, text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                res = ("ok", fn())
            except BaseException as e:
                shim.disarm()
                res = ("exc", type(e).__name__, "".join(traceback.format_exception_only(type(e), e)) + traceback.format_exc(limit=-5))
            shim.disarm()
            data = pickle.dumps(res)
            i = 0
            while i < len(data):
                i += os.write(w, data[i:])
            os._exit(0)
        finally:
            os._exit(99)
    os.close(w)
    out = bytearray()
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            out += b
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    code = os.waitstatus_to_exitcode(st)
    if code == shim.KILLED:
        return code, None
    if code != 0 or not out:
        raise Inconclusive("child ended with %d" % code)
    return code, pickle.loads(bytes(out))


def fs_events(root, fn, reads=False):
    """the file-system mutations below root that fn performs, seen in a fork -> (events as tuples, result)"""
    def run():
        shim.arm(root, shim.COUNT)
        shim.see_ropen(reads)
        try:
            fn()
        finally:
            shim.disarm()
        return [(e.op, e.path, e.path2, e.size) for e in shim.events()]
    return child(run)[1]


class Proc:
    """fn() running in a fork; result() waits for it"""

    def __init__(self, fn):
        self.r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(self.r)
                try:
                    res = ("ok", fn())
                except BaseException as e:
                    shim.disarm()
                    res = ("exc", type(e).__name__, "".join(traceback.format_exception_only(type(e), e)) + traceback.format_exc(limit=-6))
                shim.disarm()
                data = pickle.dumps(res)
                i = 0
                while i < len(data):
                    i += os.write(w, data[i:])
                os._exit(0)
            finally:
                os._exit(99)
        os.close(w)

    def result(self):
        out = bytearray()
        while True:
            b = os.read(self.r, 1 << 16)
            if not b:
                break
            out += b
        os.close(self.r)
        _, st = os.waitpid(self.pid, 0)
        self.pid = None
        code = os.waitstatus_to_exitcode(st)
        if code == shim.KILLED:
            return ("killed",)
        if code or not out:
            raise Inconclusive("child ended with %d" % code)
        return pickle.loads(bytes(out))

    def kill(self):
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                os.close(self.r)
            except OSError:
                pass
            self.pid = None


class LineKill:
    """kills (or counts) at the n-th executed line of the code under test"""

    def __init__(self, n=None):
        self.n, self.k = n, 0
        self.where = None

    def local(self, frame, event, arg):
        if event == "line":
            self.k += 1
            if self.k == self.n:
                os._exit(shim.KILLED)
        return self.local

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self.local
        return None

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class LineHook:
    """calls hook(k, frame) at every executed line of the code under test in the current thread"""

    def __init__(self, hook, also=None):
        self.hook, self.k, self.also = hook, 0, also

    def local(self, frame, event, arg):
        if event == "line":
            self.k += 1
            self.hook(self.k, frame)
        return self.local

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX) or (self.also and self.also in frame.f_code.co_filename):
            return self.local
        return None

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def copytree(src, dst):
    shutil.copytree(src, dst, symlinks=True)
    return dst
