from vlib.world import *
from vlib import crash, shim
from vlib.crash import Proc
from checks.c10 import shutil_rm
import errno
import gc
import hashlib
import random
import time
from gitdb.util import LockedFD

NEEDS_SHIM = True
LEVEL = "exploration"
RULE = ("one case = (a) a random history of open/write/read/commit/rollback/drop by several holders over several files in one process, compared "
        "with a model after every event; (b) processes adding tokens to one file under the lock with a forced order of file-system calls and an "
        "observer; (c) a rival running completely at each line of a holder; (d) death of the holder at every call and line; (e) failing calls; "
        "distinct = event contexts, observed orders, points")
MORE = 1.5
REQUIRE = {"time stamps set": 400, "events": 8000, "refused opens": 400, "commits": 390, "rollbacks": 300, "holders dropped": 200, "forced schedules": 60,
           "observations": 3000, "injection points": 1000, "kills": 600, "failing calls": 250, "repeated ends": 400}


def payload(rng, n=None):
    d = gen.content(rng, gen.size(rng, 3000) if n is None else n)
    return d


def sealed(d):
    return hashlib.sha1(d).hexdigest().encode() + d


def is_sealed(b):
    return len(b) >= 40 and hashlib.sha1(b[40:]).hexdigest().encode() == b[:40]


def content(p):
    try:
        with open(p, "rb") as f:
            mode = os.fstat(f.fileno()).st_mode
            if mode & 0o444 != 0o444:
                raise Violation("observers who are other users see nothing, the mode of the file is %o" % mode)
            return f.read()
    except FileNotFoundError:
        return None


class Holder:
    def __init__(self, path):
        self.path, self.l = path, LockedFD(path)
        self.state, self.write, self.fd, self.stream, self.buf, self.pos = "new", False, None, None, b"", 0


def history(c):
    rng = c.rng
    d = os.path.join(c.tmp, rng.choice(("h", "h with space", "h[1]*", "ü")))
    os.mkdir(d)
    paths = [os.path.join(d, n) for n in rng.sample(("index", "HEAD", "config", "a.lock", "x y"), rng.randint(1, 3))]
    model = {}
    for p in paths:
        model[p] = payload(rng) if rng.random() < .7 else None
        if model[p] is not None:
            with open(p, "wb") as f:
                f.write(model[p])
    decoy = os.path.join(c.tmp, "decoy")
    with open(decoy, "wb") as f:
        f.write(b"decoy")
    lock = {p: None for p in paths}         # who holds it: Holder, "other program", None
    hs, decoys, watchers = [], [], []
    base = set(fds())

    def verify(what):
        for p in paths:
            c.eq(content(p), model[p], what + ": content of the file")
            c.ev("observations")
        want = {os.path.basename(p) for p in paths if model[p] is not None} | {os.path.basename(p) + ".lock" for p in paths if lock[p] is not None}
        c.eq(set(os.listdir(d)), want, what + ": files present")
        open_ = {f for f in fds() if f not in base}
        mine = {h.fd for h in hs if h.state == "open"} | set(decoys) | {w[0] for w in watchers}
        extra = {f: t for f, t in fds().items() if f in open_ - mine}
        if any(t.startswith(c.tmp) or "deleted" in t for t in extra.values()):
            c.fail(what + ": descriptors leaked", sorted(extra.values()))
        if mine - open_:
            c.fail(what + ": descriptors that are still in use were closed", sorted(mine - open_))
        for f in decoys:
            c.check(os.readlink("/proc/self/fd/%d" % f) == decoy, what + ": a foreign descriptor was closed")

    steps = rng.randint(15, 60)
    for k in range(steps):
        op = rng.choice(("open", "open", "write", "write", "read", "commit", "rollback", "drop", "again", "reopen", "other", "watch", "early", "age"))
        live = [h for h in hs if h.state == "open"]
        ended = [h for h in hs if h.state in ("done", "failed")]
        c.ev("events")
        what = op
        if op == "open" or not hs:
            p = rng.choice(paths)
            h = Holder(p)
            h.write = rng.random() < .7
            h.stream = rng.random() < .5
            hs.append(h)
            what = "open(write=%s, stream=%s)" % (h.write, h.stream)
            fail = lock[p] is not None or (not h.write and model[p] is None)
            c.log(what, os.path.basename(p), "expected to fail" if fail else "")
            try:
                r = h.l.open(write=h.write, stream=h.stream)
            except OSError as e:
                if not fail:
                    c.fail(what + ": free file could not be locked: %s" % e)
                h.state = "failed"
                c.ev("refused opens")
            else:
                if fail:
                    c.fail(what + (": locked file was locked again" if lock[p] is not None else ": opened a file that isn't there"))
                h.state, lock[p] = "open", h
                h.io = r
                h.fd = r.fileno() if h.stream else r
                c.check(isinstance(h.fd, int), "descriptor returned by open()", h.fd)
            c.sig("open", h.write, h.stream, fail, type(lock[p]).__name__, model[p] is None)
        elif op == "write" and [h for h in live if h.write]:
            h = rng.choice([h for h in live if h.write])
            b = payload(rng, rng.choice((0, 1, 10, 500, 70000)))
            n = h.io.write(b) if h.stream else os.write(h.fd, b)
            c.eq(n, len(b), "write")
            h.buf += b
        elif op == "read" and [h for h in live if not h.write]:
            h = rng.choice([h for h in live if not h.write])
            m = model[h.path]
            n = rng.choice((1, 7, 4000, 100000))
            b = h.io.read(n) if h.stream else os.read(h.fd, n)
            c.eq(b, m[h.pos:h.pos + n], "reading through the lock")
            h.pos += len(b)
        elif op in ("commit", "rollback", "drop") and live:
            h = rng.choice(live)
            what = "%s (%s)" % (op, "writing" if h.write else "reading")
            c.log(what, os.path.basename(h.path), len(h.buf).__str__())
            if op == "commit":
                h.l.commit()
                c.ev("commits")
                if h.write:
                    model[h.path] = h.buf
            elif op == "rollback":
                h.l.rollback()
                c.ev("rollbacks")
            else:
                h.l = h.io = None
                gc.collect()
                hs.remove(h)
                c.ev("holders dropped")
            h.state, lock[h.path] = "done", None
            c.sig(op, h.write, h.stream, len(h.buf) == 0, model[h.path] is None)
            for _ in range(rng.choice((0, 1, 2))):
                decoys.append(os.open(decoy, os.O_RDONLY))
        elif op == "again" and ended:
            h = rng.choice(ended)
            f = rng.choice((h.l.commit, h.l.rollback))
            what = "%s of a holder that %s" % (f.__name__, "ended" if h.state == "done" else "failed to open")
            f()
            if rng.random() < .3:
                h.l = f = None
                hs.remove(h)
                gc.collect()
            c.ev("repeated ends")
            c.sig(what, h.state, lock[h.path] is None)
        elif op == "reopen" and hs:
            h = rng.choice(hs)
            if h.state == "new":
                continue
            what = "second open of a holder (%s)" % h.state
            try:
                h.l.open(write=rng.random() < .5)
            except AssertionError:
                pass
            else:
                c.fail(what + " succeeded")
        elif op == "early":
            l = LockedFD(rng.choice(paths))
            if rng.random() < .6:
                c.raises(AssertionError, rng.choice((l.commit, l.rollback)), "ending something that wasn't started")
            del l
            what = "unused holder dropped"
        elif op == "other":
            p = rng.choice(paths)
            if lock[p] is None:
                with open(p + ".lock", "wb") as f:
                    f.write(b"other program")
                lock[p] = "other"
                c.ev("locks of other programs")
            elif lock[p] == "other":
                c.eq(content(p + ".lock"), b"other program", "lock of another program")
                os.unlink(p + ".lock")
                lock[p] = None
        elif op == "age":
            # time stamps say nothing about whether a lock is held
            p = rng.choice(paths)
            at = rng.choice((0, 1, 10**9, time.time() - rng.choice((5, 70, 700, 4000, 90000)), time.time() + 10**6, 2**32 + 5))
            for f in rng.sample((p, p + ".lock", d), rng.randint(1, 3)):
                if os.path.exists(f):
                    os.utime(f, (at, at))
                    c.ev("time stamps set")
        elif op == "watch":
            # an observer that opens now and goes on reading later
            p = rng.choice(paths)
            if model[p] is not None and len(watchers) < 8:
                f = os.open(p, os.O_RDONLY)
                half = len(model[p]) // 2
                c.eq(os.read(f, half) if half else b"", model[p][:half], "first half seen by an observer")
                watchers.append((f, model[p], half))
        verify("after " + what)
    for f, want, half in watchers:
        rest = b""
        while True:
            b = os.read(f, 1 << 20)
            if not b:
                break
            rest += b
        c.eq(rest, want[half:], "rest seen by an observer that opened the file earlier")
        os.close(f)
    watchers.clear()
    for h in hs:
        if h.state == "open":
            lock[h.path] = None
        h.l = h.io = None
    hs.clear()
    gc.collect()
    verify("after dropping all holders")
    for f in decoys:
        os.close(f)
    c.sample(steps=steps, files=len(paths))


def add_token(path, token, ev=None):
    """-> True if the lock was obtained and the token added"""
    l = LockedFD(path)
    try:
        fd = l.open(write=True)
    except OSError:
        return False
    if ev:
        ev("in")
    old = content(path)
    if not is_sealed(old):
        raise Violation("holder of the lock reads partial content: %d bytes" % len(old))
    b = sealed(old[40:] + token)
    h = len(b) // 2
    os.write(fd, b[:h])
    os.write(fd, b[h:])
    if ev:
        ev("out")
    l.commit()
    return True


def gated(c):
    rng = c.rng
    d = os.path.join(c.tmp, "g")
    os.mkdir(d)
    path = os.path.join(d, "index")
    with open(path, "wb") as f:
        f.write(sealed(b""))
    nw, nr = rng.choice((2, 2, 3, 4)), 1
    quota = [rng.randint(1, 3) for _ in range(nw)]
    who = []
    while len(who) < 50 * (nw + nr):
        who += [rng.randrange(nw + nr)] * rng.choice((1, 1, 1, 2, 3, 6))
    g = shim.Gate(who, nw + nr)
    seed = rng.randrange(1 << 60)

    def writer(w):
        def run():
            r = random.Random(seed + w)
            times, fails = [], 0
            shim.arm(d, shim.COUNT)
            g.join(w)
            done, tries = 0, 0
            try:
                while done < quota[w]:
                    k = r.random()
                    if k < .15:
                        # reading holder: blocks the others
                        l = LockedFD(path)
                        try:
                            fd = l.open()
                        except OSError:
                            fails += 1
                        else:
                            times.append((time.monotonic_ns(), "in"))
                            b = os.read(fd, 1 << 20)
                            if not is_sealed(b):
                                raise Violation("reading holder sees partial content")
                            times.append((time.monotonic_ns(), "out"))
                            r.choice((l.commit, l.rollback))()
                    elif k < .3:
                        l = LockedFD(path)
                        try:
                            fd = l.open(write=True)
                        except OSError:
                            fails += 1
                        else:
                            times.append((time.monotonic_ns(), "in"))
                            os.write(fd, b"garbage")
                            times.append((time.monotonic_ns(), "out"))
                            if r.random() < .5:
                                l.rollback()
                        del l
                    elif add_token(path, b"<%d.%d>" % (w, done), lambda x: times.append((time.monotonic_ns(), x))):
                        done += 1
                    else:
                        fails += 1
                    tries += 1
                    if tries > 3000:
                        break
                    if tries > 100:
                        time.sleep(.001)
            finally:
                g.leave(w)
                g.off()
                shim.disarm()
            return done, fails, times, [(e.ts, e.op, e.err) for e in shim.events()]
        return run

    def reader(w):
        def run():
            n = 0
            shim.arm(d, shim.COUNT)
            shim.see_ropen(1)
            g.join(w)
            try:
                for k in range(30):
                    b = content(path)
                    n += 1
                    if b is None or not is_sealed(b):
                        raise Violation("observer sees %s" % ("no file" if b is None else "partial content, %d bytes" % len(b)))
            finally:
                g.leave(w)
                g.off()
                shim.disarm()
            return n, [(e.ts, e.op, e.err) for e in shim.events()]
        return run
    procs = [Proc(writer(w)) for w in range(nw)] + [Proc(reader(nw))]
    try:
        res = [p.result() for p in procs]
    finally:
        for p in procs:
            p.kill()
    merged, spans = [], []
    for w, r in enumerate(res):
        if r[0] != "ok":
            c.fail("holder failed" if w < nw else "observer failed", r[-1])
        if w < nw:
            done, fails, times, evs = r[1]
            c.check(done == quota[w], "a holder never got the lock although it was free again and again", done, quota[w])
            c.ev("refused opens", fails)
            for a, b in zip(times[::2], times[1::2]):
                spans.append((a[0], b[0], w))
        else:
            n, evs = r[1]
            c.ev("observations", n)
        merged += [(ts, w, op, bool(err)) for ts, op, err in evs]
    spans.sort()
    for a, b in zip(spans, spans[1:]):
        if b[0] < a[1]:
            c.fail("two holders had the file locked at the same time", str(a[2]), str(b[2]))
    b = content(path)
    c.check(is_sealed(b), "final content is partial")
    toks = b[40:].split(b">")[:-1]
    want = sorted(b"<%d.%d" % (w, k) for w in range(nw) for k in range(quota[w]))
    c.eq(sorted(toks), want, "updates made under the lock (lost or doubled ones)")
    c.eq(os.listdir(d), ["index"], "files left")
    merged.sort()
    c.ev("forced schedules")
    c.ev("schedule timeouts", g.timeouts)
    order = " ".join("%d:%s%s" % (w, op, "!" if f else "") for _, w, op, f in merged)
    c.sig("order", order)
    c.log("order", order[:300])
    c.sample(holders=nw, order=order[:300])


def inject(c):
    """a rival (or observer) runs completely at each line of a holder"""
    rng = c.rng
    rival = rng.choice(("writer", "writer", "reader", "observer", "forget"))
    mode = rng.choice(("commit", "commit", "rollback", "drop", "read"))
    start = rng.random() < .7
    d = os.path.join(c.tmp, "i")
    os.mkdir(d)
    path = os.path.join(d, "f")

    def holder():
        l = LockedFD(path)
        try:
            fd = l.open(write=mode != "read")
        except OSError:
            return None
        if mode != "read":
            old = content(path)
            b = sealed((old or sealed(b""))[40:] + b"<A>")
            os.write(fd, b[:20])
            os.write(fd, b[20:])
        else:
            os.read(fd, 1 << 20)
        if mode == "commit":
            l.commit()
            return "A"
        if mode == "drop":
            del l
        else:
            l.rollback()
        return ""

    def reset():
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        if start or mode == "read":
            with open(path, "wb") as f:
                f.write(sealed(b""))
    reset()
    with crash.LineHook(lambda k, f: None) as h:
        holder()
    total = h.k
    for k in range(1, total + 1):
        reset()
        out = {}

        def hook(n, frame):
            if n != k or "r" in out:
                return
            out["at"] = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            out["r"] = None
            # the rival must not be traced
            import sys
            tr = sys.gettrace()
            sys.settrace(None)
            try:
                b = content(path)
                if b is not None and not is_sealed(b):
                    out["bad"] = "observer sees partial content"
                if b is None and (start or mode == "read"):
                    out["bad"] = "observer sees no file"
                if rival == "writer":
                    l = LockedFD(path)
                    try:
                        fd = l.open(write=True)
                    except OSError:
                        out["r"] = "refused"
                        return
                    b = content(path) or sealed(b"")
                    os.write(fd, sealed(b[40:] + b"<B>"))
                    l.commit()
                    out["r"] = "B"
                elif rival == "reader":
                    l = LockedFD(path)
                    try:
                        fd = l.open()
                    except OSError:
                        out["r"] = "refused"
                        return
                    if not is_sealed(os.read(fd, 1 << 20)):
                        out["bad"] = "reading holder sees partial content"
                    l.rollback()
                    out["r"] = ""
                elif rival == "forget":
                    l = LockedFD(path)
                    try:
                        os.write(l.open(write=True), b"garbage")
                    except OSError:
                        out["r"] = "refused"
                    del l
                    gc.collect()
            finally:
                sys.settrace(tr)
        what = "holder doing %s, rival (%s) at " % (mode, rival)
        with crash.LineHook(hook):
            try:
                a = holder()
            except Exception as x:
                c.fail(what + out.get("at", "?") + ": holder failed: %r" % x)
        if "r" not in out:
            continue
        what += out["at"]
        c.ev("injection points")
        c.ev("observations")
        if out.get("bad"):
            c.fail(what + ": " + out["bad"])
        b = content(path)
        toks = set() if b is None else {x[1:] for x in b[40:].split(b">")[:-1]}
        if b is not None:
            c.check(is_sealed(b), what + ": final content is partial")
            c.eq(b[40:].count(b"<"), len(toks), what + ": doubled update")
        want = set()
        if a == "A":
            want.add(b"A")
        if out["r"] == "B":
            want.add(b"B")
        c.eq(toks, want, what + ": updates in the file (%r, %r)" % (a, out["r"]))
        c.eq([n for n in os.listdir(d) if n != "f"], [], what + ": files left")
        c.sig(mode, rival, out["at"], a, out["r"])
        if a is None and out["r"] == "refused":
            c.fail(what + ": both were refused")
    c.sample(holder=mode, rival=rival, points=total)


def scenario(c):
    rng = c.rng
    old = sealed(payload(rng)) if rng.random() < .75 else None
    new = sealed(payload(rng) + b"new")
    mode = rng.choice(("commit", "commit", "commit", "rollback", "drop", "read", "two"))
    if mode == "read" and old is None:
        mode = "commit"
    stream = rng.random() < .5
    pieces = gen.split(rng, new)[:20]
    pieces.append(new[sum(map(len, pieces)):])

    def act(path):
        l = LockedFD(path)
        io = l.open(write=mode != "read", stream=stream)
        if mode == "read":
            (io.read(100) if stream else os.read(io, 100))
            l.rollback()
            return
        for p in pieces:
            if stream:
                io.write(p)
            else:
                while p:
                    p = p[os.write(io, p):]
        if mode in ("commit", "two"):
            l.commit()
        elif mode == "rollback":
            l.rollback()
        else:
            del l
        if mode == "two":
            l = LockedFD(path)
            l.open(write=True)
            l.rollback()
    return old, new, mode, stream, act


def fresh(c, n, old):
    d = os.path.join(c.tmp, "k%d" % n)
    os.mkdir(d)
    p = os.path.join(d, "file")
    if old is not None:
        with open(p, "wb") as f:
            f.write(old)
    return d, p


def kill(c):
    rng = c.rng
    old, new, mode, stream, act = scenario(c)
    d, p = fresh(c, 0, old)
    res = crash.fs_events(d, lambda: act(p))
    if res[0] != "ok":
        c.fail("without faults: ", res[2])
    evs = res[1]
    d, p = fresh(c, 1, old)

    def count():
        with crash.LineKill() as t:
            act(p)
        return t.k
    total = crash.child(count)[1][1]
    points = []
    for k, e in enumerate(evs, 1):
        points.append((k, shim.KILL_BEFORE, "before " + e[0]))
        if e[0] == "write" and e[3] > 1:
            points.append((k, shim.KILL_MID, "half-way through " + e[0]))
    points.append((len(evs), shim.KILL_AFTER, "after the last call"))
    if len(points) > 40:
        points = points[:12] + rng.sample(points[12:-12], 12) + points[-12:]
    ks = list(range(1, total + 1))
    if len(ks) > 60:
        ks = ks[:25] + rng.sample(ks[25:-25], 10) + ks[-25:]
    points += [(k, None, "line %d" % k) for k in ks]
    c.log(mode, str(stream), " ".join(e[0] for e in evs)[:300])
    c.sample(mode=mode, calls=[e[0] for e in evs][:20], lines=total)
    for n, (k, km, name) in enumerate(points):
        d, p = fresh(c, n + 2, old)

        def run():
            if km is None:
                with crash.LineKill(k):
                    act(p)
            else:
                shim.arm(d, km, k)
                act(p)
        code, _ = crash.child(run)
        if code != shim.KILLED:
            continue
        c.ev("kills")
        what = "%s, holder killed at %s" % (mode, name)
        b = content(p)
        ok = [old, new] if mode in ("commit", "two") else [old]
        if b not in ok:
            c.fail(what + ": neither old nor new content", b)
        extra = set(os.listdir(d)) - {"file", "file.lock"}
        if extra:
            c.fail(what + ": unexpected files", sorted(extra))
        c.sig(mode, name, b == new, "file.lock" in os.listdir(d))
        # another holder after the lock has been removed, none before
        if os.path.exists(p + ".lock"):
            l = LockedFD(p)
            c.raises(OSError, lambda: l.open(write=True), what + ": locked file could be locked again")
            del l
            os.unlink(p + ".lock")
        l = LockedFD(p)
        os.write(l.open(write=True), b"after")
        c.eq(content(p), b, what + ": content while another holder writes")
        l.commit()
        c.eq(content(p), b"after", what + ": content after the next commit")
        c.eq(os.listdir(d), ["file"], what + ": files after the next commit")
        shutil_rm(d)


def faults(c):
    rng = c.rng
    old, new, mode, stream, act = scenario(c)
    d, p = fresh(c, 0, old)
    res = crash.fs_events(d, lambda: act(p), True)
    if res[0] != "ok":
        c.fail("without faults: ", res[2])
    evs = res[1]
    n = 1
    pts = list(enumerate(evs, 1))
    if len(pts) > 20:
        pts = pts[:8] + rng.sample(pts[8:-8], 4) + pts[-8:]
    for k, e in pts:
        for err in (errno.ENOSPC, errno.EIO, errno.EACCES):
            n += 1
            d, p = fresh(c, n, old)
            shim.arm(d, shim.FAIL, k, err, shim.mask(*shim.OPS))
            shim.see_ropen(1)
            raised = None
            foreign = []
            try:
                act(p)
            except Exception as x:
                raised = type(x).__name__
                # reuse the number of a descriptor that was just closed while the holder still exists
                foreign = [os.open(os.devnull, os.O_RDONLY) for _ in range(4)]
            hits = shim.hits()
            gc.collect()
            shim.disarm()
            for f in foreign:
                try:
                    os.close(f)
                except OSError:
                    c.fail("%s, call %d (%s) fails with %s: a foreign descriptor was closed" % (mode, k, e[0], errno.errorcode[err]), raised)
            if not hits:
                continue
            c.ev("failing calls")
            what = "%s, call %d (%s) fails with %s" % (mode, k, e[0], errno.errorcode[err])
            b = content(p)
            ok = [old, new] if mode in ("commit", "two") else [old]
            if b not in ok:
                c.fail(what + ": neither old nor new content", raised, b)
            if mode in ("commit", "two") and not raised and b != new:
                c.fail(what + ": commit returned normally but did not install the content")
            if mode == "commit" and raised and e[0] in ("open", "write", "ropen") and b != old:
                c.fail(what + ": failed write was installed")
            left = [t for t in fds().values() if t.startswith(d)]
            if left:
                c.fail(what + ": descriptors left open", raised, left)
            if e[0] != "unlink" and "file.lock" in os.listdir(d):
                c.fail(what + ": the lock was not released", raised, os.listdir(d))
            if e[0] in ("open", "write", "ropen") and os.listdir(d) != (["file"] if old is not None or (mode == "two" and b == new) else []):
                c.fail(what + ": unexpected files", raised, os.listdir(d))
            c.sig(mode, e[0], k, err, raised, b == new)
            shutil_rm(d)
    # the file to be read vanished, is a directory or is not readable
    n += 1
    d, p = fresh(c, n, None)
    if rng.random() < .5:
        os.symlink(rng.choice((os.path.join(d, "nowhere"), "file", os.path.join(d, "file.lock", "x"))), p)
    l = LockedFD(p)
    c.raises(OSError, lambda: l.open(), "reading a file that isn't there")
    c.check(not os.path.exists(p + ".lock"), "failed open keeps the lock")
    del l


FAMILIES = [("history", history, 900, 12000), ("gated", gated, 250, 4000), ("inject", inject, 120, 900), ("kill", kill, 60, 900), ("faults", faults, 60, 1000)]
