"""Case runner: seeded cases, worker processes, counters, evidence, replays."""

import errno
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = 90          # CPU seconds one case may use before it counts as a hang
WALL_LIMIT = 780        # seconds after which the whole run is given up as inconclusive


class Violation(Exception):
    """The property does not hold"""


class Inconclusive(BaseException):
    """The check could not decide (environment problem)"""


class Blocked(BaseException):
    """A case made no progress for very long although it hardly used the CPU"""


class Hang(BaseException):
    """A case used far more CPU time than it can need"""


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def brief(x, n=160):
    """compact printable form for logs and replays"""
    if isinstance(x, (bytes, bytearray, memoryview)):
        x = bytes(x)
        if len(x) <= 40:
            return repr(x)
        return "<%d bytes %r.. sha1 %s>" % (len(x), x[:16], hashlib.sha1(x).hexdigest()[:10])
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Case:
    """One generated case: random source, scratch directory, counters, trace"""

    def __init__(self, prop, seed, tier, family, index, base):
        self.prop, self.seed, self.tier, self.family, self.index = prop, seed, tier, family, index
        self.rng = random.Random("%s:%d:%s:%d" % (prop, seed, family, index))
        self._base = base
        self._tmp = None
        self.counters = {}
        self.sigs = set()
        self.trace = []
        self.samples = []
        self.thorough = tier == "thorough"
        self.known = []

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="c-", dir=self._base)
        return self._tmp

    def ev(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name, v):
        k = "max:" + name
        self.counters[k] = max(self.counters.get(k, 0), v)

    def sig(self, *parts):
        """record one distinct non-trivial situation that was observed"""
        self.sigs.add(hashlib.sha1(repr(parts).encode()).digest()[:8])

    def log(self, *what):
        """trace of what was done, kept for the replay file"""
        if len(self.trace) < 400:
            self.trace.append(" ".join(w if isinstance(w, str) else brief(w) for w in what))

    def sample(self, **kw):
        if len(self.samples) < 1:
            self.samples.append({k: (v if isinstance(v, (int, float, str, bool, list)) else brief(v)) for k, v in kw.items()})

    def fail(self, msg, *detail):
        raise Violation(msg + ("" if not detail else ": " + ", ".join(d if isinstance(d, str) else brief(d) for d in detail)))

    def check(self, cond, msg, *detail):
        if not cond:
            self.fail(msg, *detail)

    def eq(self, got, want, msg, *detail):
        if got != want:
            self.fail(msg, "got " + brief(got), "expected " + brief(want), *detail)

    def raises(self, exc, fn, msg, *detail):
        """fn must raise one of exc; the exception is returned"""
        try:
            r = fn()
        except exc as e:
            return e
        self.fail(msg, "no error, returned " + brief(r), *detail)

    def cleanup(self):
        if self._tmp:
            for root, dirs, files in os.walk(self._tmp):
                for d in dirs:
                    try:
                        os.chmod(os.path.join(root, d), 0o755)
                    except OSError:
                        pass
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


# ------------------------------------------------------------------ line coverage of the code under test
class Lines:
    def __init__(self):
        self.seen = {}

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        root = os.path.join(REPO, "gitdb") + os.sep
        seen = self.seen
        try:
            mon.use_tool_id(4, "verif")
        except ValueError:
            return

        def line(code, n):
            f = code.co_filename
            if f.startswith(root):
                seen.setdefault(f[len(root):], set()).add(n)
            return mon.DISABLE
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)


LINES = Lines()


CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL)

BLOCK_LIMIT = 300       # seconds of real time after which a case counts as blocked (quick tier)


def _on_prof(*a):
    raise Hang()


def _on_alarm(*a):
    raise Blocked()


def limits(size=1 << 30, memory=6 << 30):
    """code which never stops writing or allocating must not be able to take the machine down
    (both count as violations); cases which need more raise the limits"""
    for what, n in ((resource.RLIMIT_FSIZE, size), (resource.RLIMIT_AS, memory)):
        resource.setrlimit(what, (n, resource.getrlimit(what)[1]))


def run_case(fn, case):
    """:return: None or (kind, message)"""
    limits()
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT * (4 if case.thorough else 1))
    signal.setitimer(signal.ITIMER_REAL, BLOCK_LIMIT * (4 if case.thorough else 1))
    cpu0 = time.process_time()
    res = None
    try:
        fn(case)
    except Violation as e:
        res = ("violation", str(e))
    except Hang:
        res = ("violation", "no end after %d s of CPU time\n%s" % (CPU_LIMIT, traceback.format_exc(limit=-8)))
    except Blocked:
        tb = traceback.format_exc(limit=-8)
        if time.process_time() - cpu0 < 5:
            res = ("violation", "blocked for %d s\n%s" % (BLOCK_LIMIT, tb))
        else:
            res = ("inconclusive", "too slow\n" + tb)
    except Inconclusive as e:
        res = ("inconclusive", str(e))
    except MemoryError:
        res = ("violation", "out of memory\n" + traceback.format_exc(limit=-6))
    except OSError as e:
        tb = traceback.format_exc(limit=-8)
        if e.errno in (errno.ENOSPC, errno.EAGAIN, errno.ENOMEM) and not case.counters.get("faults injected"):
            res = ("inconclusive", "environment: %s" % tb)
        else:
            res = ("violation", "unexpected %s\n%s" % (type(e).__name__, tb))
    except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
        res = ("violation", "unexpected %s\n%s" % (type(e).__name__, traceback.format_exc(limit=-8)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            from vlib import shim
            shim.disarm()
        except Exception:
            pass
        gc.collect()
        case.cleanup()
    return res


def _worker(prop, seed, tier, tasks, fns, out, base, stopfile):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.close(devnull)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.unraisablehook = lambda u: None         # errors in __del__ under injected faults
    LINES.seen.clear()
    LINES.start()
    agg = dict(n=0, counters={}, sigs=set(), samples={}, fams={}, bad=None, inc=None, known=[], slow=[])
    cur = os.open(out + ".cur", os.O_WRONLY | os.O_CREAT, 0o600)
    try:
        for family, index in tasks:
            if os.path.exists(stopfile):
                break
            # known to the parent even if we crash
            os.pwrite(cur, json.dumps([family, index]).ljust(200).encode(), 0)
            case = Case(prop, seed, tier, family, index, base)
            t0 = time.monotonic()
            res = run_case(fns[family], case)
            dt = time.monotonic() - t0
            agg["slow"].append((round(dt, 3), family, index))
            agg["slow"] = sorted(agg["slow"], reverse=True)[:3]
            agg["n"] += 1
            agg["fams"][family] = agg["fams"].get(family, 0) + 1
            for k, v in case.counters.items():
                if k.startswith("max:"):
                    agg["counters"][k] = max(agg["counters"].get(k, 0), v)
                else:
                    agg["counters"][k] = agg["counters"].get(k, 0) + v
            agg["sigs"] |= case.sigs
            agg["known"] += case.known
            if case.samples and family not in agg["samples"]:
                agg["samples"][family] = dict(case.samples[0], family=family, index=index)
            if res:
                rec = dict(family=family, index=index, message=res[1], trace=case.trace, optimize=sys.flags.optimize)
                if res[0] == "violation":
                    agg["bad"] = rec
                    open(stopfile, "w").close()
                else:
                    agg["inc"] = rec
                break
    finally:
        os.close(cur)
        agg["lines"] = LINES.seen
        with open(out + ".t", "wb") as f:
            pickle.dump(agg, f)
        os.rename(out + ".t", out)


def work(prop, families, taskfile):
    """the body of a worker which has an interpreter of its own"""
    with open(taskfile, "rb") as f:
        seed, tier, mine, out, base, stop = pickle.load(f)
    _worker(prop, seed, tier, mine, {f[0]: f[1] for f in families}, out, base, stop)
    return 0


def run(prop, level, families, rule, assumptions=(), replay=None, workers=8, require=None, before=None, more=1):
    """more: factor for the numbers of quick cases (never beyond the thorough ones)
    families: list of (name, function(case), number of quick cases, number of thorough cases)"""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    fns = {f[0]: f[1] for f in families}
    base = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=scratch_base())
    try:
        return _run(prop, level, families, fns, rule, assumptions, replay, workers, require, before, seed, tier, base, more)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run(prop, level, families, fns, rule, assumptions, replay, workers, require, before, seed, tier, base, more):
    t0 = time.monotonic()
    if replay:
        rec = json.load(open(replay))
        case = Case(prop, rec["seed"], rec["tier"], rec["family"], rec["index"], base)
        res = run_case(fns[rec["family"]], case)
        for l in case.trace:
            print("  ", l)
        print("result:", res)
        return 1 if res and res[0] == "violation" else 0
    tasks = []
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_FAMILY")
    for f in families:
        n = f[3] if tier == "thorough" else min(f[3], int(f[2] * more)) if f[3] > f[2] else f[2]
        if n and scale != 1:
            n = max(1, int(n * scale))
        if not only or only == f[0]:
            tasks += [(f[0], i) for i in range(n)]
    random.Random(12345).shuffle(tasks)
    stop = os.path.join(base, "stop")
    pids = {}
    sys.stdout.flush()
    for w in range(workers):
        mine = tasks[w::workers]
        if not mine:
            continue
        out = os.path.join(base, "out%d" % w)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                wb = os.path.join(base, "w%d" % w)
                os.mkdir(wb)
                if w == 7 and not sys.flags.optimize:
                    # nothing may depend on assertions being enabled
                    with open(os.path.join(wb, "tasks"), "wb") as f:
                        pickle.dump((seed, tier, mine, out, wb, stop), f)
                    sys.stderr.flush()
                    os.environ.pop("VERIF_SHIM", None)      # it was removed
                    os.execv(sys.executable, [sys.executable, "-O", os.path.join(HERE, "run.py"), prop, "--worker", f.name])
                _worker(prop, seed, tier, mine, fns, out, wb, stop)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = (w, out)
    died, crashed = [], []
    wall = WALL_LIMIT if tier == "quick" else int(os.environ.get("VERIF_WALL", "3600"))
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.monotonic() - t0 > wall:
                for p in pids:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                died.append("wall limit of %d s reached" % wall)
            time.sleep(0.02)
            continue
        if pid in pids:
            w, out = pids.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)      # stray children of the worker
            except OSError:
                pass
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASHES:
                # whatever is asked of it, the library must not crash the interpreter
                family, index = json.loads(open(out + ".cur").read())
                crashed.append(dict(family=family, index=index, message="the process crashed: %s" % signal.Signals(os.WTERMSIG(st)).name,
                                    trace=[], optimize=int(w == 7) or sys.flags.optimize))
                open(stop, "w").close()
            elif st != 0:
                died.append("worker %d ended with status %d" % (w, st))
    tot = dict(n=0, counters={}, sigs=set(), samples=[], fams={}, lines={}, known=[], slow=[])
    bad, inc = crashed, []
    fam_samples = {}
    for w in range(workers):
        out = os.path.join(base, "out%d" % w)
        if not os.path.exists(out):
            continue
        a = pickle.load(open(out, "rb"))
        tot["n"] += a["n"]
        for k, v in a["counters"].items():
            if k.startswith("max:"):
                tot["counters"][k] = max(tot["counters"].get(k, 0), v)
            else:
                tot["counters"][k] = tot["counters"].get(k, 0) + v
        for k, v in a["fams"].items():
            tot["fams"][k] = tot["fams"].get(k, 0) + v
        for k, v in a["lines"].items():
            tot["lines"].setdefault(k, set()).update(v)
        for k, v in a["samples"].items():
            fam_samples.setdefault(k, v)
        tot["sigs"] |= a["sigs"]
        tot["known"] += a["known"]
        tot["slow"] = sorted(tot["slow"] + a["slow"], reverse=True)[:3]
        if a["bad"]:
            bad.append(a["bad"])
        if a["inc"]:
            inc.append(a["inc"])
    known = {}
    for key, msg in tot["known"]:
        known[key] = msg
    wall_s = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": tot["n"],
            "distinct_nontrivial": len(tot["sigs"]),
            "rule": rule,
            "samples": [fam_samples[k] for k in sorted(fam_samples)][:12],
            "cases_per_family": dict(sorted(tot["fams"].items())),
            "observed": {k: v for k, v in sorted(tot["counters"].items())},
            "gitdb_lines_executed": {k: len(v) for k, v in sorted(tot["lines"].items())},
            "slowest_cases": [list(s) for s in tot["slow"]],
        },
        "assumptions": list(assumptions),
        "wall_s": round(wall_s, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key, msg in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, msg))
    print("%s %s seed=%d: %d cases, %d distinct, %.1f s; %s" % (
        prop, tier, seed, tot["n"], len(tot["sigs"]), wall_s,
        ", ".join("%s=%s" % kv for kv in sorted(tot["counters"].items()))))
    if bad:
        bad.sort(key=lambda b: (b["family"], b["index"]))
        b = bad[0]
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d-%s-%d.json" % (prop, seed, b["family"], b["index"]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, **b), f, indent=1)
        print("case %s/%d: %s" % (b["family"], b["index"], b["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inc or died:
        for i in inc:
            print("INCONCLUSIVE case %s/%d: %s" % (i["family"], i["index"], i["message"]))
        for d in died:
            print("INCONCLUSIVE " + d)
        return 2
    for k, v in (require or {}).items():
        if tot["counters"].get(k, 0) < v and scale == 1 and not only:
            print("INCONCLUSIVE: only %d x %r observed, at least %d needed" % (tot["counters"].get(k, 0), k, v))
            return 2
    return 0
