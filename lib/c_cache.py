"""K01-K03: the cache."""
import itertools
import select
from vlib import *
from c_pool import sched_build
import c_db


class CHist(c_db.Hist):
    def __init__(self, keys):
        c_db.Hist.__init__(self, keys, [])

    def text(self):
        return "K %s\nH %s\n" % (" ".join(k.hex() or "-" for k in self.keys), " ".join(self.tok))


def paths(rnd, n, profile):
    ks = set()
    comp = ["a", "bb", "src", "photos", "x" * 40, "\u00e9t\u00e9", "with space", "IMG_%04d", "..", "long" * 30]
    while len(ks) < n:
        if profile == "flat":
            k = "/d/f%d" % rnd.randrange(10 * n)
        elif profile == "img":
            k = "/home/user/photos/2024/IMG_%06d.jpg" % rnd.randrange(4 * n)
        elif profile == "deep":
            k = "/" + "/".join(rnd.choice(comp).replace("%04d", "%04d" % rnd.randrange(9999)) for _ in range(rnd.randrange(1, 9)))
        elif profile == "long":
            k = "/" + "/".join("q" * 200 for _ in range(rnd.randrange(1, 8))) + "/%d" % rnd.randrange(10 * n)
        elif profile == "prefix":
            k = "/" + "ab"[rnd.randrange(2)] * rnd.randrange(1, 200)
        else:
            k = "/" + "".join(chr(rnd.choice((1, 9, 10, 32, 34, 92, 127, 200, 255, 97, 98))) for _ in range(rnd.randrange(1, 12)))
        b = k.encode("utf-8" if profile == "deep" else "latin-1")
        if len(b) <= 1900:
            ks.add(b)
    return sorted(ks, key=lambda _: rnd.random()) if rnd.random() < 0.5 else sorted(ks)


PROFILES = [("flat", 400), ("img", 500), ("deep", 150), ("long", 60), ("prefix", 80), ("odd", 120)]


def judge(ctx, exe, hists, module="CacheTrace"):
    raw = c_db.play(ctx, exe, hists)
    recs = [dict(h=r or []) for r in raw]
    ctx.add("events", sum(len(r["h"]) for r in recs))
    ctx.add("histories", len(recs))
    bad = check_records(ctx, module, recs)
    if bad:
        i = bad[0]
        raise Violation("history of the cache rejected: " + bad[1][:1200], dict(input=hists[i].text(), history=recs[i]["h"][:3000]))
    for i in (0, len(recs) // 2):
        ctx.sample(dict(tokens=" ".join(hists[i].tok)[:300], history=json.dumps(recs[i])[:500]))


def build(ctx):
    return build_both(ctx, ["cache_run.c"], "cache_run", ldflags=["-rdynamic"])


def stores(rnd, h, n, count, live):
    for _ in range(count):
        k = rnd.randrange(1, n + 1)
        if rnd.random() < 0.75:
            h.t("p%d,%d" % (k, rnd.randrange(1, 100000)))
            live.add(k)
        else:
            h.t("g%d" % k)


def k01(ctx):
    rnd, hists = ctx.rnd, []
    # every word of short sessions over two paths
    alpha = ["p1,1", "p1,2", "p2,3", "C W", "A W", "C Q O W", "g1", "A Q O W"]
    for w in itertools.product(alpha, repeat=ctx.n(4, 5)):
        h = CHist([b"/a", b"/b"])
        h.t("O W " + " ".join(w) + " D C R D E Q O R D E Q")
        hists.append(h)
    for r in range(ctx.n(400, 5000)):
        prof, n = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(2, 12) if r % 2 else rnd.randrange(3, n + 1)
        h, live = CHist(paths(rnd, n, prof)), set()
        h.t("O")
        for _ in range(rnd.randrange(1, 12)):
            w = rnd.random()
            if w < 0.5:
                h.t("W")
                stores(rnd, h, n, rnd.choice((1, 3, n, 2 * n)), live)
                h.t("D" if rnd.random() < 0.5 else "")
                h.t(rnd.choice(("C", "C", "C", "A", "F%d C" % rnd.randrange(1, 6))))
            elif w < 0.6:
                h.t("W " + " ".join("p%d,%d" % (k, rnd.randrange(1, 100000)) for k in range(1, n + 1)) + " C")
            elif w < 0.75:
                h.t("Q O")
            elif w < 0.85:
                h.t(" ".join("m%d" % rnd.randrange(1, n + 1) for _ in range(n)) + " S")
            h.t("R D " + " ".join("g%d" % rnd.randrange(1, n + 1) for _ in range(3)) + " E")
        h.t("Q O R D E Q")
        hists.append(h)
    # paths about as long as can be stored, and longer
    for r in range(ctx.n(20, 200)):
        ks = [b"/" + bytes([97 + i]) * rnd.choice((5, 100, 1000, 1890, 2020, 2030, 2500, 4000, 5000)) for i in range(10)]
        h = CHist(ks)
        h.t("O")
        for _ in range(3):
            h.t("W " + " ".join("p%d,%d" % (rnd.randrange(1, 11), rnd.randrange(1, 1000)) for _ in range(12)) + " D C R D E")
        h.t("Q O R D E Q")
        hists.append(h)
    hists += many(ctx, False)
    judge(ctx, build(ctx), hists)


def many(ctx, sweeps):
    """Caches of thousands of entries, stored, replaced, swept in bulk."""
    rnd, hists = ctx.rnd, []
    for r in range(ctx.n(8, 60)):
        n = rnd.choice(ctx.n((1500, 2500, 4000, 6000), (3000, 8000, 20000, 50000)))
        ks = [b"/home/user/%s/%06d" % (b"d" * rnd.choice((1, 1, 30, 150)), i) for i in range(n)]
        if r % 2:
            rnd.shuffle(ks)
        h = CHist(ks)
        h.t("O W P1,%d,%d D C R D E" % (n, rnd.randrange(1000)))
        for _ in range(rnd.randrange(1, 4)):
            a = rnd.randrange(1, n + 1)
            b = rnd.randrange(a, n + 1)
            if sweeps:
                w = rnd.randrange(5)
                h.t(["", "M1,%d,4" % n, "M%d,%d,3" % (a, b), "M1,%d,2 M%d,%d,2" % (a, b, n), " ".join("m%d" % rnd.randrange(1, n + 1) for _ in range(40))][w])
                h.t("S R D E")
            h.t("W P%d,%d,%d %s R D E" % (a, b, rnd.randrange(100000), rnd.choice("CCA")))
        h.t("Q O R D E Q")
        hists.append(h)
    return hists


def marking_sweeping(ctx, h, n, rounds, threads):
    rnd = ctx.rnd
    h.t("O")
    for _ in range(rounds):
        w = rnd.random()
        h.t("W")
        ks = list(range(1, n + 1))
        if w < 0.6:
            rnd.shuffle(ks)
        for k in ks[:rnd.choice((n, n, n // 2, 1))]:
            h.t("p%d,%d" % (k, rnd.randrange(1, 100000)))
        h.t(rnd.choice(("C", "C", "C", "A")))
        m = rnd.randrange(8)
        if m == 0:
            pass                                            # nothing marked: everything goes
        elif m == 1:
            h.t("M1,%d,%d" % (n, rnd.choice(threads)))      # everything marked
        elif m == 2:                                        # a range survives, or a range goes
            a = rnd.randrange(1, n + 1)
            h.t("M%d,%d,%d" % (a, rnd.randrange(a, n + 1), rnd.choice(threads)))
        elif m == 3:
            a, b = sorted((rnd.randrange(1, n + 1), rnd.randrange(1, n + 1)))
            h.t("M1,%d,%d M%d,%d,%d" % (a, rnd.choice(threads), b, n, rnd.choice(threads)))
        elif m == 4:
            h.t("m%d" % rnd.randrange(1, n + 1))
        elif m == 5:
            h.t(" ".join("m%d" % k for k in range(1, n + 1, 2)))
        else:
            h.t(" ".join("m%d" % rnd.randrange(1, n + 1) for _ in range(n)))
        if rnd.random() < 0.15:
            h.t("Q O")                                      # marks do not survive the session
        w = rnd.random()
        h.t("F%d S R D E S" % rnd.randrange(1, 6) if w < 0.15 else "S S" if w < 0.25 else "S")
        h.t("R D E")
    h.t("Q O R D E Q")


def k02(ctx):
    rnd, hists = ctx.rnd, []
    # every subset of marked paths, over trees from one entry to several leaves
    for n, size in ((1, 3), (3, 10), (5, 1500), (6, 700), (ctx.n(7, 9), 1200)):
        ks = [b"/" + bytes([97 + i]) * size for i in range(n)]
        for sub in itertools.product((0, 1), repeat=n):
            h = CHist(ks)
            h.t("O W " + " ".join("p%d,%d" % (k, 10 + k) for k in range(1, n + 1)) + " C")
            h.t(" ".join("m%d" % (i + 1) for i in range(n) if sub[i]) + " S R D E S R D E Q")
            hists.append(h)
    for r in range(ctx.n(240, 3000)):
        prof, n = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(1, 10) if r % 3 == 0 else rnd.randrange(3, n + 1)
        h = CHist(paths(rnd, n, prof))
        marking_sweeping(ctx, h, n, rnd.randrange(1, 6), (1, 2, 4, 8))
        hists.append(h)
    hists += many(ctx, True)
    judge(ctx, build(ctx), hists)
    # marking threads under the controlled scheduler
    exe = sched_build(ctx, ["cache_run.c"], "cache_sched", ["napr_cache.c"], flags=["-DSCHED"])
    hists = []
    for r in range(ctx.n(300, 4000)):
        prof, n = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(2, 40)
        h = CHist(paths(rnd, n, prof))
        marking_sweeping(ctx, h, n, rnd.randrange(1, 4), (2, 3, 4))
        hists.append(h)
    judge(ctx, exe, hists)


class Proc:
    def __init__(self, exe, path):
        self.p = subprocess.Popen([exe, path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.state = "idle"

    def send(self, s):
        try:
            self.p.stdin.write(s.encode() + b"\n")
        except BrokenPipeError:
            pass

    def line(self):
        b = b""
        while not b.endswith(b"\n"):
            if not select.select([self.p.stdout], [], [], 40)[0]:
                HUNG.append(1)
                return "=died timeout"
            c = self.p.stdout.read(1)
            if not c:
                return "=died"
            b += c
        return b.decode().strip()

    def kill(self):
        self.p.kill()
        self.p.wait()


def session(exe, d, scripts, choose, spoil=False):
    """Runs the processes step by step; choose(n) picks the next process (or, beyond them, a death)."""
    path = os.path.join(d, "cache")
    for f in (path, path + ".lock"):
        if os.path.exists(f):
            os.unlink(f)
    procs = [None] * len(scripts)
    todo = [list(s) for s in scripts]
    inside = [False] * len(scripts)
    h, n, v = [], len(scripts), 0
    spoiled = False

    def nature():
        """Now and then, when nobody is there, the file turns into something else, and back."""
        nonlocal spoiled
        if any(inside) or any(p and p.state != "idle" for p in procs):
            return
        if not spoiled and spoil and os.path.exists(path) and choose(4) == 0:
            os.rename(path, path + ".aside")
            with open(path, "wb") as f:
                f.write(b"not a cache\n" * (1 + 1000 * choose(3)))
            h.append(dict(o="spoil", p=1))
            spoiled = True
        elif spoiled and choose(3) == 0:
            mend()

    def mend():
        nonlocal spoiled
        os.rename(path + ".aside", path)
        h.append(dict(o="mend", p=1))
        spoiled = False
    try:
        while True:
            run = [i for i in range(n) if todo[i] or (procs[i] and procs[i].state != "idle")]
            if not run:
                break
            nature()
            i = run[choose(len(run))]
            if procs[i] is None:
                procs[i] = Proc(exe, path)
            p = procs[i]
            if p.state == "idle":
                c = todo[i].pop(0)
                if c == "k" or (p.state == "idle" and c in "kK"):
                    p.kill()
                    procs[i], inside[i] = None, False
                    h.append(dict(o="die", p=i + 1))
                    continue
                if (c == "o") == inside[i]:
                    continue                                # refused before: nothing to do
                if c == "o":
                    h.append(dict(o="open", p=i + 1))
                    p.send("open")
                elif c == "c":
                    h.append(dict(o="close", p=i + 1))
                    p.send("close")
                    inside[i] = False
                elif c == "a":
                    p.send("all")
                else:
                    v += 1
                    k = 1 + (v * 5 + i) % 8
                    h.append(dict(o="store", p=i + 1, k=k, v=v))
                    p.send("put %d %d" % (k, v))
                p.state = "busy"
            else:
                if todo[i] and todo[i][0] == "K":           # dies inside the operation
                    if choose(3) == 0:
                        todo[i].pop(0)
                        p.kill()
                        procs[i], inside[i] = None, False
                        h.append(dict(o="die", p=i + 1))
                        continue
                p.send("go")
            a = p.line()
            if a.startswith("@"):
                continue
            p.state = "idle"
            w = a[1:].split()
            if w[0] == "open":
                h.append(dict(o="opened", p=i + 1, rc=w[1]))
                inside[i] = w[1] == "ok"
            elif w[0] == "close":
                h.append(dict(o="closed", p=i + 1, rc=w[1]))
            elif w[0] == "put":
                h.append(dict(o="stored", p=i + 1, rc=w[1]))
            elif w[0] == "all":
                h.append(dict(o="all", p=i + 1, rc=w[1], d=[[int(y) for y in x.split(":")] for x in w[2:]]))
            else:
                h.append(dict(o="crashed", p=i + 1, why=a))
                break
    finally:
        for i, p in enumerate(procs):
            if p:
                p.kill()
                h.append(dict(o="die", p=i + 1))
        if spoiled:
            mend()
    return h


def k03(ctx):
    def cfg(procs, off=""):
        return ("SPECIFICATION Spec\nINVARIANTS Exclusive NotLockedOut\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Procs = {%s}\n Files = {11, 12, 13}\n" % ",".join(map(str, range(1, procs + 1)))
                + "".join(" %s = %s\n" % (c, "FALSE" if c == off else "TRUE") for c in ("LockFirst", "UnlockLast", "KeepFile")))
    model_check(ctx, "CacheLockImpl", cfg(3))
    if ctx.thorough:
        model_check(ctx, "CacheLockImpl", cfg(4))
    for off in ("LockFirst", "UnlockLast", "KeepFile"):
        r = tlc(ctx, "CacheLockImpl", cfg(3, off), workers=4)
        if r.ok or "is violated" not in r.out:
            raise CheckError("CacheLockImpl without %s: no invariant violated" % off)
        ctx.add("design_variants_refuted")
    exe = build_lib(ctx, ["cache_proc.c"], "cache_proc", ldflags=["-rdynamic"])
    rnd = ctx.rnd
    jobs = []
    SC = [["owac", "owac"], ["owacoac", "owac"], ["owk", "oac"], ["owKoac", "oaac"], ["oc", "oc", "oc"], ["owac", "oac", "oac"], ["owkoac", "owac", "oaac"], ["ocoacoac", "ocowac"], ["ok", "ok", "oac"],
          ["oKoac", "oKoac"], ["owwKoac", "oac"], ["owacc", "oooac"], ["ocKoac", "oac"], ["owawac", "ooooo"]]
    for i in range(ctx.n(700, 12000)):
        sc = rnd.choice(SC)
        if rnd.random() < 0.4:
            sc = ["o" + "".join(rnd.choice("owwaacKk") for _ in range(rnd.randrange(2, 7))) for _ in range(rnd.randrange(2, 4))]
        jobs.append((sc, rnd.randrange(1 << 30), rnd.choice((0, 2, 6, 20)), rnd.random() < 0.4))

    def one(j):
        sc, seed, sticky, spoil = j
        r = __import__("random").Random(seed)
        last = [0]

        def choose(n):
            if sticky and n > 1 and r.randrange(sticky):
                return min(last[0], n - 1)
            last[0] = r.randrange(n)
            return last[0]
        d = tempfile.mkdtemp(prefix="k03_", dir=ctx.scratch)
        h = session(exe, d, sc, choose, spoil)
        # afterwards: nobody is left, the cache opens and shows the contents
        path = os.path.join(d, "cache")
        p = Proc(exe, path)
        for c in ("open", "all", "close"):
            p.send(c)
            if c != "all":
                h.append(dict(o=c, p=4))
            a = p.line()
            while a.startswith("@"):
                p.send("go")
                a = p.line()
            w = a[1:].split()
            if w[0] not in ("open", "all", "close"):
                h.append(dict(o="crashed", p=4, why=a))
                break
            h.append(dict(o={"open": "opened", "all": "all", "close": "closed"}[w[0]], p=4, rc=w[1], d=[[int(y) for y in x.split(":")] for x in w[2:]]))
            if w[1] != "ok":
                break
        p.kill()
        shutil.rmtree(d, ignore_errors=True)
        return h
    hs = pmap(one, jobs, workers=16)
    jobs = [j for j, h in zip(jobs, hs) if h is not None]
    hs = [h for h in hs if h is not None]
    ctx.add("executions", len(hs))
    ctx.add("executions_with_a_refused_open", sum(any(e["o"] == "opened" and e["rc"] != "ok" for e in h) for h in hs))
    ctx.add("executions_with_a_spoiled_file", sum(any(e["o"] == "spoil" for e in h) for h in hs))
    ctx.add("executions_with_a_death", sum(any(e["o"] == "die" for e in h) for h in hs))
    bad = check_records(ctx, "CacheLockTrace", [dict(h=h) for h in hs])
    if bad:
        raise Violation("execution of several processes rejected: " + bad[1][:1000], dict(scripts=jobs[bad[0]], history=hs[bad[0]]))
    ctx.sample(dict(scripts=jobs[0][0], history=hs[0][:30]))
