from vlib.world import *
from vlib import crash
from checks.c08 import fill
from checks.c09 import Live, stale, compare, hammer
import time

LEVEL = "exploration"
RULE = ("one case = one open database and a random history of external changes, each giving the changed directories a newer time stamp; after each "
        "unforced update all answers are compared with the model of the disk and with a newly opened database and the returned report with what "
        "happened; or one change made at one executed line of a running update, for every line; distinct = (database kind, kinds of changes, "
        "report) or (line, change)")
MORE = 2.5
REQUIRE = {"updates": 600, "updates reporting a change": 160, "updates reporting no change": 40, "untouched objects before an update": 1910, "external changes": 530, "racing changes": 300,
           "object checks": 3000}

CACHED = ("pack added", "pack removed", "pack moved away", "pack moved back", "loose packed", "packs consolidated")


class Clock:
    """gives changed directories time stamps which are newer than all others"""

    def __init__(self, repos, rng):
        self.repos, self.t = repos, (int(time.time()) + 1000) * 10**9
        self.step = lambda: rng.choice((10**6, 10**7, 10**9, 2 * 10**9))
        self.seen = self.scan()

    def scan(self):
        return {d: (os.stat(d).st_mtime_ns, sorted(os.listdir(d))) for r in self.repos for d, _, _ in os.walk(r.root)}

    def tick(self):
        now = self.scan()
        self.t += self.step()
        for d, v in now.items():
            if self.seen.get(d) != v:
                os.utime(d, ns=(self.t, self.t))
        self.seen = self.scan()


def packsets(r):
    """what the caches of a database on r depend on"""
    return (tuple(sorted(p for p, _ in r.files)), r.has_packdir(), tuple(sorted((a.root, packsets(a)) for a in r.alts)))


def locations(r, kind):
    """{id: paths of the files holding it}"""
    out = {}
    if kind != "reference":
        for p, m in r.files:
            for s in m:
                out.setdefault(s, set()).add(p)
        for s in r.loose if kind == "git" else ():
            out.setdefault(s, set()).add(ref.loose_path(r.root, s))
    for a in r.alts if kind != "packed" else ():
        for s, v in locations(a, "git").items():
            out.setdefault(s, set()).update(v)
    return out


def opener(rng, main):
    kind = rng.choice(("git", "git", "git", "packed", "reference"))
    if kind == "packed" and not main.has_packdir():
        os.mkdir(os.path.join(main.root, "pack"))
    mk = {"git": lambda: GitDB(main.root), "packed": lambda: PackedDB(os.path.join(main.root, "pack")),
          "reference": lambda: ReferenceDB(os.path.join(main.root, "info", "alternates"))}[kind]
    model = {"git": main.all, "packed": lambda: {k: v for p in main.packs for k, v in p.items()},
             "reference": lambda: {k: v for a in main.alts for k, v in a.all().items()}}[kind]
    state = {"git": lambda: packsets(main), "packed": lambda: packsets(main)[0],
             "reference": lambda: packsets(main)[2:]}[kind]
    return kind, mk, model, state


def world(c, n):
    rng, pool = c.rng, {}
    repos = [Live(c, x) for x in ("main", "alt", "alt2")[:n]]
    for r in repos:
        if rng.random() < .7:
            fill(c, r, pool, 5)
    for i, r in enumerate(repos[:-1]):
        if rng.random() < .7:
            r.alts = rng.sample(repos[i + 1:], rng.randint(1, len(repos) - i - 1))
            r.write_alts()
    return pool, repos


def unforced(c):
    rng = c.rng
    pool, repos = world(c, rng.choice((1, 2, 2, 3)))
    main = repos[0]
    kind, mk, model, state = opener(rng, main)
    clock = Clock(repos, rng)
    clock.tick()
    db = mk()
    # what is determined at first use is not a change
    list(db.sha_iter())
    trail = []
    for rnd in range(rng.randint(1, 6)):
        if rng.random() < .6:
            stale(c, db, pool)
        hammer(c, db, model())
        before, changes, where = state(), [], locations(main, kind)
        for k in range(rng.choice((0, 1, 1, 1, 2, 4))):
            r = rng.choice(repos)
            ch = r.change(pool, repos[repos.index(r) + 1:])
            if kind == "packed" and not main.has_packdir():
                os.mkdir(os.path.join(main.root, "pack"))
            clock.tick()
            if ch:
                changes.append(("" if r is main else "alternate's ") + ch)
                c.ev("external changes")
                c.log(changes[-1])
        what = "%s, unforced update after %s:" % (kind, ", ".join(changes) or "nothing")
        after = state()
        # not updated yet: objects whose files are all where they were are still found
        now = locations(main, kind)
        same = [s for s, v in where.items() if v <= now.get(s, set())]
        for s in rng.sample(same, min(len(same), 6)):
            check_present(c, db, s, *model()[s], "%s, not yet updated after %s:" % (kind, ", ".join(changes) or "nothing"), reads="none")
            c.ev("untouched objects before an update")
        kept = [id(e) for e in db.entities()] if kind == "packed" else None
        rep = db.update_cache()
        c.ev("updates")
        c.log("update ->", str(rep))
        if after != before:
            c.check(rep, what + " reported no change", rep)
            c.ev("updates reporting a change")
        elif kind == "packed" and not changes:
            c.check(not rep, what + " reported a change", rep)
            c.eq([id(e) for e in db.entities()], kept, what + " packs replaced")
            c.ev("updates reporting no change")
        compare(c, kind, db, mk(), model(), pool, changes)
        c.sig(kind, tuple(sorted(set(changes)))[:4], bool(rep))
        trail.append(changes)
    c.sample(kind=kind, rounds=trail)
    del db
    collect()


def racing(c):
    """something changes while an update is running"""
    rng = c.rng
    pool, repos = world(c, rng.choice((1, 2)))
    main = repos[0]
    for r in repos:
        if not r.files:
            fill(c, r, pool, 4)
    kind, mk, model, state = opener(rng, main)
    clock = Clock(repos, rng)
    clock.tick()
    # the number of lines of an update which has something to do
    db = mk()
    list(db.sha_iter())
    n = 400
    at = rng.randint(1, 60)
    tries = 0
    while at < n and tries < 25:
        tries += 1
        for r in repos:
            if rng.random() < .5:
                r.change(pool, repos[repos.index(r) + 1:])
                clock.tick()
            if not r.has_packdir():
                os.mkdir(os.path.join(r.root, "pack"))
                clock.tick()
        done = []

        def hook(k, frame):
            if k != at or done:
                return
            r = rng.choice(repos)
            for _ in range(20):
                q = rng.randrange(5)
                if q == 0 or not r.files:
                    es = ref.random_entries(rng, rng.randint(1, 5), 500)
                    if not es:
                        continue
                    r.add_pack(es)
                    pool.update(r.packs[-1])
                    ch = "pack added"
                elif q in (1, 2):
                    p, m = r.files.pop(rng.randrange(len(r.files)))
                    r.packs.remove(m)
                    exts = [".pack", ".idx"]
                    rng.shuffle(exts)
                    for x in exts:
                        os.unlink(p + x)
                    ch = "pack removed"
                else:
                    old = list(r.files)
                    m = {s: v for _, x in old for s, v in x.items()}
                    r.files, r.packs = [], []
                    es = [ref.Entry(*v) for v in m.values()]
                    rng.shuffle(es)
                    r.add_pack(es)
                    for p, _ in old:
                        if p != r.files[0][0]:
                            os.unlink(p + ".idx")
                            os.unlink(p + ".pack")
                    ch = "packs consolidated"
                break
            clock.tick()
            done.append((ch, frame.f_code.co_name))

        force = rng.random() < .5
        with crash.LineHook(hook) as h:
            rep = db.update_cache(force=force)
        if not done:
            n = min(n, h.k)
            at = rng.randint(1, max(2, n - 1))
            clock.tick()
            db.update_cache()
            continue
        c.ev("racing changes")
        c.log("line", at, *done[0])
        rep = db.update_cache()
        c.ev("updates")
        what = "%s, unforced update after one with %s at its line %d (%s):" % (kind, done[0][0], at, done[0][1])
        compare(c, kind, db, mk(), model(), pool, [what])
        c.sig(kind, done[0], at)
        at += rng.choice((1, 1, 1, 2, 5))
    del db
    collect()


FAMILIES = [("unforced", unforced, 400, 8000), ("racing", racing, 120, 2500)]
