"""D01-D07: the database, its histories, crashes, cursors and pages."""
import itertools
from vlib import *
from c_pool import sched_build


class Hist:
    """One history: tables of keys and values, and the tokens of db_run.c."""

    def __init__(self, keys, vals, pages=4096, intra=1, drop=(), small=False):
        self.keys, self.vals, self.pages, self.intra, self.small = keys, vals, pages, intra, small
        self.tok, self.drop = [], set(drop)
        self.t = self.tok.append

    def text(self):
        keys = "G %d %d %d" % self.keys if isinstance(self.keys, tuple) else "K " + " ".join(k.hex() or "-" for k in self.keys)
        return "%s\nV %s\nB %d %d %s\n" % (keys, " ".join(map(str, self.vals)), self.pages, self.intra, " ".join(self.tok))


def play(ctx, exe, hists, nproc=8):
    """Plays the histories; a crash of the program, or its failure to end, is an event of its own."""
    timeout, deaths = ctx.n(90, 600), []
    strict = exe + "_strict" if os.path.exists(exe + "_strict") else None

    def one(part, use):
        out, todo = [], list(part)
        p0 = tempfile.mkdtemp(prefix="db_", dir=ctx.scratch)
        while todo:
            if len(deaths) > 3:
                out += [None] * len(todo)
                break
            text = "".join(h.text() for h in todo)
            try:
                p = subprocess.run([use, os.path.join(p0, "f")], input=text, capture_output=True, text=True, timeout=timeout)
                got, rc, err = p.stdout.splitlines(), p.returncode, p.stderr
            except subprocess.TimeoutExpired as e:
                got, rc, err = (e.stdout or b"").decode(errors="replace").splitlines(), "timeout", ""
            if rc == 2:
                raise CheckError("db_run: " + err[-500:])
            k = 0
            for g in got:
                try:
                    out.append(json.loads(g))
                    k += 1
                except ValueError:
                    break
            todo = todo[k:]
            if todo:
                if use != exe and not MEMERR.search(err):       # the sanitizer itself may have given up
                    use = exe
                    continue
                out.append([dict(o="died", rc=str(rc), err=(MEMERR.search(err) or [""])[0])])
                deaths.append(rc)
                todo = todo[1:]
        if use != exe:
            ctx.add("histories_with_strict_memory", len(part))
        shutil.rmtree(p0, ignore_errors=True)
        return out
    size = max(1, (len(hists) + 8 * nproc - 1) // (8 * nproc))
    order = list(range(len(hists)))
    parts = [order[i::max(1, len(order) // size)] for i in range(max(1, len(order) // size))]
    res = [None] * len(hists)
    for part, r in zip(parts, pmap(lambda p: one([hists[i] for i in p[1]], strict if strict and p[0] % 3 == 0 else exe), list(enumerate(parts)))):
        for i, h in zip(part, r):
            res[i] = h
    return res


def judge(ctx, exe, hists, module="NaprDBTrace", timeout=850):
    raw = play(ctx, exe, hists)
    recs = []
    for h, r in zip(hists, raw):
        if r is None:                   # not played: enough others died
            recs.append(dict(small=False, h=[]))
            continue
        recs.append(dict(small=h.small, h=[e for e in r if e.get("o") not in h.drop]))
        for e in r:
            if e.get("o") == "crashed":
                ctx.add("crash_images_opened", e["images"])
        ctx.add("events", len(r))
    idx = sorted(range(len(recs)), key=lambda i: len(recs[i]["h"]))
    ways = 8
    order = [i for w in range(ways) for i in idx[w::ways]]
    bad = check_records(ctx, module, [recs[i] for i in order], timeout=timeout)
    if bad:
        i = order[bad[0]]
        raise Violation("history rejected: " + bad[1][:1500], dict(input=hists[i].text(), history=recs[i]["h"][:4000], why=bad[1][:3000]))
    for i in (idx[len(idx) // 2], idx[len(idx) // 3]):
        ctx.sample(dict(input=hists[i].text()[-300:], history=json.dumps(recs[i])[:500]))


def build(ctx, flags=()):
    return build_both(ctx, ["db_run.c"], "db_run", flags=list(flags), ldflags=["-rdynamic"])


PRECAUTIONS = ("HonourReaders", "AtomicRegister", "SyncData", "SyncMeta", "Alternate", "Fresh", "Restore")


def design(ctx, invariants, needed):
    """The page-level design: its invariants hold, and fail when one of the precautions they rest on is left out."""
    def cfg(pages, txs, readers, fails, off=()):
        return ("SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxPage = %d\n MaxTx = %d\n Readers = {%s}\n MaxFail = %d\n" % (
            " ".join(invariants), pages, txs, ",".join('"r%d"' % i for i in range(readers)), fails)
            + "".join(" %s = %s\n" % (p, "FALSE" if p in off else "TRUE") for p in PRECAUTIONS))
    for size in [(4, 5, 1, 1), (3, 6, 1, 1), (4, 5, 2, 0)] + ([(4, 6, 1, 2), (5, 5, 1, 1), (4, 6, 2, 1), (5, 6, 2, 0)] if ctx.thorough else []):
        model_check(ctx, "NaprDBImpl", cfg(*size))
    for p in needed:
        r = tlc(ctx, "NaprDBImpl", cfg(4, 5, 1, 1, (p,)), workers=8)
        if r.ok or "is violated" not in r.out:
            raise CheckError("NaprDBImpl without %s: no invariant violated" % p)
        ctx.add("design_variants_refuted")


# ---- keys and values --------------------------------------------------------------------------------------------
def keyset(rnd, n, profile):
    """n distinct keys in byte order."""
    ks = set()
    while len(ks) < n:
        if profile == "tiny":
            k = rnd.randbytes(rnd.choice((1, 2, 2, 3)))
        elif profile == "word":
            k = ("%s%0*d" % (rnd.choice("abz"), rnd.choice((3, 3, 4)), rnd.randrange(10 * n))).encode()
        elif profile == "path":
            k = ("/" + "/".join(rnd.choice(("a", "bb", "src", "photo%d" % rnd.randrange(50), "x" * rnd.randrange(1, 60))) for _ in range(rnd.randrange(1, 6)))).encode()
        elif profile == "prefix":
            k = rnd.choice((b"a", b"ab", b"b")) * rnd.randrange(0, 25) + rnd.choice((b"", b"\0", b"\0\0", b"\xff", b"a"))
        elif profile == "long":
            k = rnd.randbytes(2) + bytes([rnd.choice((0, 65, 255))]) * rnd.choice((300, 500, 900, 1300, 1880))
        elif profile == "deep":
            k = rnd.randbytes(3) + b"k" * rnd.choice((1200, 1300, 1350, 1880))
        else:
            k = rnd.randbytes(rnd.choice((0, 1, 4, 20, 100, 400, 1000, 1800)))
            if not k and n < 20:
                continue
        ks.add(k)
    return sorted(ks)


def values(rnd, n, profile):
    """Sizes of n values; small ones are told apart by their contents (value i starts with the bytes of i)."""
    out, seen = [], set()
    for i in range(1, n + 1):
        if profile == "tiny":
            s = rnd.choice((0, 1, 2, 3, 4, 8))
        elif profile == "big":
            s = rnd.choice((500, 1000, 1999, 2000, 2100))
        elif profile == "mix":
            s = rnd.choice((0, 1, 5, 30, 200, 900, 2000))
        elif profile == "fixed":
            s = 40
        else:
            s = rnd.choice((4, 10, 30, 100, 300))
        c = (s, i.to_bytes(4, "little")[:s])
        if s < 4:
            if c in seen:
                s = 4
            seen.add(c)
        out.append(s)
    return out


PROFILES = [("tiny", "tiny", 500, 600), ("word", "small", 250, 400), ("path", "mix", 80, 150), ("prefix", "mix", 70, 150), ("long", "mix", 40, 100), ("deep", "small", 40, 100),
            ("mix", "mix", 60, 120), ("word", "fixed", 400, 500), ("word", "big", 50, 120), ("long", "big", 30, 80)]


def order(rnd, n):
    ks = list(range(1, n + 1))
    w = rnd.randrange(6)
    if w == 0:
        return ks
    if w == 1:
        return ks[::-1]
    if w == 2:
        return [x for p in zip(ks, ks[::-1]) for x in p][:n]
    if w == 3:
        a = n // 2
        return [x for i in range(n) for x in ((a + i // 2) if i % 2 else (a - i // 2),) if 1 <= x <= n]
    rnd.shuffle(ks)
    return ks


def writes(rnd, h, model, count, nk, nv, mix):
    """Random changes of the open write transaction; model = keys present (only to choose useful operations)."""
    for _ in range(count):
        o = rnd.choice(mix)
        k = rnd.randrange(1, nk + 1)
        if o in "dq" and model and rnd.random() < 0.8:
            k = rnd.choice(sorted(model))
        if o == "p":
            h.t("p%d,%d" % (k, rnd.randrange(1, nv + 1)))
            model.add(k)
        elif o == "d":
            h.t("d%d" % k)
            model.discard(k)
        elif o == "q":
            h.t("q%d,%d" % (k, rnd.randrange(1, nv + 1)))
        else:
            h.t("g0,%d" % k)


def large(ctx, r, drop, readers=False):
    """A history of large transactions: hundreds of pages change at once, the tree has three or four levels."""
    rnd = ctx.rnd
    kp, vals = (("word", [1500, 1900, 10]), ("wide", [100, 700, 4]), ("word", [350, 20, 900]), ("wide", [1200, 4, 1900]))[r % 4]
    n = rnd.choice((500, 900, 1400)) if not ctx.thorough else rnd.choice((900, 1500, 3000))
    keys = sorted({(b"%0*d" % (7 if kp == "word" else 300, rnd.randrange(10 ** 7))) for _ in range(n)})
    n = len(keys)
    h = Hist(keys, vals, pages=20000, drop=drop, intra=rnd.randrange(2))
    model = set()

    def batch(ks, op):
        for k in ks:
            h.t("p%d,%d" % (k, rnd.randrange(1, 4)) if op == "p" or k not in model else "d%d" % k)
            (model.add if op == "p" else model.discard)(k)
    h.t("W")
    batch(order(rnd, n), "p")
    saved = set()
    if rnd.random() < 0.3:
        h.t("A")
        model.clear()
        h.t("W")
        batch(order(rnd, n), "p")
    h.t("C r1" if readers else "C r1 D1 x1")
    for i in range(ctx.n(3, 6)):
        saved = set(model)
        h.t("W")
        a, b = sorted((rnd.randrange(1, n + 1), rnd.randrange(1, n + 1)))
        w = rnd.randrange(4)
        if w == 0:
            batch(range(a, b + 1), "d")
        elif w == 1:
            batch(rnd.sample(range(1, n + 1), n // 2), "d")
            batch(rnd.sample(range(1, n + 1), n // 3), "p")
        elif w == 2:
            batch([k for k in range(a, b + 1)], "p")
        else:
            batch(rnd.sample(range(1, n + 1), n // 2), "p")
        if rnd.random() < 0.3:
            h.t("A")
            model = saved
        else:
            h.t(rnd.choice(("C", "C O" if not readers else "C")))
        h.t("D1 r2 D2 x2" if readers else "r2 D2 x2")
    if readers:
        h.t("D1 x1")
    h.t("O r1 D1 x1")
    return h


def wide(ctx, what):
    """Very many keys, pages or commits: counters and page numbers beyond 8 and 16 bits, trees of many levels."""
    rnd, out = ctx.rnd, []

    def new(n, klen, vals, pages=4096):
        h = Hist((n, klen, 3), vals, pages=pages, intra=2 + rnd.randrange(2))
        h.t("W")
        return h
    if "keys" in what:
        # leaves with hundreds of entries, branches with hundreds of children
        for klen, vals, n in ((6, [0], ctx.n(15000, 90000)), (8, [4, 5, 8], ctx.n(9000, 50000)), (40, [20, 60], ctx.n(6000, 30000))):
            h = new(n, klen, vals)
            if rnd.randrange(2):
                h.t("P1,%d,%d" % (n, rnd.randrange(9)))
            else:
                cut = sorted(rnd.sample(range(2, n), 5)) + [n + 1]
                parts = [(a, b - 1) for a, b in zip([1] + cut, cut)]
                rnd.shuffle(parts)
                for a, b in parts:
                    h.t("P%d,%d,%d" % (a, b, rnd.randrange(9)))
            h.t("C r1 G1 D1 W")
            a = rnd.randrange(1, n // 2)
            h.t("E%d,%d,%d P%d,%d,%d E%d,%d,%d D0 C D1 r2 G2 U2 x1 x2 O r1 D1" % (a, a + n // 3, rnd.choice((1, 1, 2, 3)), a + n // 4, a + n // 2, rnd.randrange(9), n // 3, n // 2 + a // 2, rnd.choice((1, 5, 7))))
            h.t("c1,1")
            for _ in range(40):
                o = rnd.choice("flnnnvvvtsSSS")
                h.t("%s1" % o + (",%d" % rnd.randrange(1, n + 1) if o in "sS" else ""))
            h.t("z1 x1")
            out.append(h)
    if "pages" in what:
        # more pages than 16 bits can number
        n = 67000
        h = new(n, 12, [3900], pages=150000)
        h.t("P1,%d,0 C Y r1 G1 W E%d,%d,1 E%d,%d,3 C Y D1 r2 G2 U2 x1 x2 W P1,2000,0 P%d,%d,0 C O r1 D1 x1" % (n, 60000, 61000, 66000, n, n - 300, n))
        out.append(h)
    if "deep" in what:
        # long keys: a branch has two to five children
        for i, (n, klen) in enumerate(((1500, rnd.choice((800, 1010, 1020, 1300))), (700, 1880), (700, rnd.choice((1340, 1350, 1360, 1500))), (ctx.n(12000, 60000), 1880))):
            h = new(n, klen, [10, 200], pages=20000 + 12 * n)
            if i in (0, 3):
                h.t("P1,%d,3" % n)
            else:                                   # orders that go on splitting at one place
                lo, hi = list(range(1, n // 2)), list(range(n // 2, n + 1))
                w = rnd.randrange(6)
                ks = [lo + hi, hi[::-1] + lo[::-1], [1, 2, n - 1, n] + list(range(n - 2, 2, -1)), [1, 2, n - 1, n] + list(range(3, n - 1)),
                      [x for p in zip(lo, hi[::-1]) for x in p], [x for p in zip(lo[::-1], hi) for x in p]][w]
                h.tok += ["p%d,%d" % (k, rnd.choice((1, 2))) for k in ks]
            h.t("C r1 G1 D1 U1 W E%d,%d,2 P%d,%d,1 E%d,%d,1 D0 C D1 r2 G2 U2 x1 x2 O r1 D1" % (n // 9, n // 2, n // 3, n - 4, n // 3, n // 2))
            h.t("c1,1")
            for _ in range(60):
                o = rnd.choice("flnnnvvvtsSSS")
                h.t("%s1" % o + (",%d" % rnd.randrange(1, n + 1) if o in "sS" else ""))
            h.t("z1 x1")
            out.append(h)
    if "commits" in what:
        # more commits than 16 bits can number; readers from before and after the turn
        h = new(40, 300, [4, 600, 30], pages=20000)
        h.t("P1,40,1 C r1 g1,3 Q3,300 H1 D1 x1 Q3,64990 r1 g1,3 Q3,150 r2 Q7,150 H1 D1 D2 r3 Q3,200 D1 D2 D3 x1 r4 D4 Q3,200 D2 D3 D4 x2 x3 x4 Q3,400 O r1 D1 W P5,20,2 C D1 r2 D2 x1 x2")
        out.append(h)
    ctx.add("wide_histories", len(out))
    return out


def d01(ctx):
    rnd, hists = ctx.rnd, []
    drop = ("pages",)
    # every insertion order of keys so long that a page holds two or three of them
    for nk, sizes in ((6, (1300,) * 6), (6, (1880, 900, 1880, 900, 1880, 900)), (5, (1880,) * 5), (ctx.n(6, 7), (900, 1300, 1880, 1000, 1300, 1880, 950))):
        keys = [bytes([i]) + b"k" * s for i, s in zip(range(nk), sizes)]
        for p in itertools.permutations(range(1, nk + 1)):
            h = Hist(keys, [10, 2000, 100], drop=drop)
            h.t("W")
            for k in p:
                h.t("p%d,%d" % (k, rnd.choice((1, 3))))
            h.t("D0")
            h.t("C" if rnd.random() < 0.5 else "C O")
            h.t("r1 D1 " + " ".join("g1,%d" % k for k in range(1, nk + 1)) + " x1")
            hists.append(h)
    # every word of puts and deletes over few long keys
    keys = [bytes([i]) + b"k" * 1300 for i in range(5)]
    n = ctx.n(6, 7)
    alpha = ["p1,1", "p2,1", "p3,1", "p4,1", "d1", "d2", "d3"]
    for w in itertools.product(alpha, repeat=n):
        if w[0][0] == "d" or (w[1][0] == "d" and w[1][1] != w[0][1]) or (not ctx.thorough and rnd.random() < 0.9):
            continue
        h = Hist(keys, [10], drop=drop)
        h.t("W " + " ".join(x + (" C W" if rnd.random() < 0.3 else "") for x in w) + " C r1 D1 " + " ".join("g1,%d" % k for k in range(1, 6)) + " x1")
        hists.append(h)
    for r in range(ctx.n(700, 9000)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(3, n + 1)
        keys, nv = keyset(rnd, n, kp), 60
        h = Hist(keys, values(rnd, nv, vp), drop=drop, intra=rnd.randrange(2))
        model = set()
        h.t("W")
        if rnd.random() < 0.7:
            for k in order(rnd, n):
                h.t("p%d,%d" % (k, rnd.randrange(1, nv + 1)))
                model.add(k)
                if rnd.random() < 0.02:
                    h.t("C W")
        mix = rnd.choice(("pppd", "ppdd", "pdg", "ppg", "pdq", "ddp"))
        for _ in range(rnd.randrange(1, 5)):
            writes(rnd, h, model, rnd.randrange(1, ops // 2), n, nv, mix)
            h.t("D0")
            h.t(rnd.choice(("C", "C", "C O", "A")))
            h.t("r1 D1 " + " ".join("g1,%d" % k for k in rnd.sample(range(1, n + 1), min(n, 40))) + " x1")
            h.t("W")
        if model and rnd.random() < 0.3:
            for k in sorted(model, key=lambda _: rnd.random()):
                h.t("d%d" % k)
            h.t("D0 p1,1 C W D0")
        h.t("C O r1 D1 x1")
        hists.append(h)
    hists += [large(ctx, r, drop) for r in range(ctx.n(8, 60))]
    hists += wide(ctx, ("keys", "pages", "deep", "commits"))
    # sizes at and beyond what fits
    for r in range(ctx.n(40, 300)):
        sizes = sorted(rnd.choice((0, 1, 10, 1000, 1900, 2020, 2026, 2027, 2028, 2030, 2500, 4000, 4060, 4072, 4096, 5000, 65535, 65540, 70000)) for _ in range(8))
        keys = sorted({bytes([i + 1]) * s for i, s in enumerate(sizes)} - {b""} | {b"m"})
        h = Hist(keys, [0, 1, 10, 1000, 2000, 2044, 2500, 4000, 4050, 4070, 4071, 4072, 4073, 4080, 4096, 5000, 65535, 65536, 65540, 70000], drop=drop)
        model = set()
        h.t("W")
        for _ in range(3):
            writes(rnd, h, model, 12, len(keys), 20, "ppppd")
            h.t("D0 C r1 D1 x1 W")
        h.t("C O r1 D1 x1")
        hists.append(h)
    judge(ctx, build(ctx), hists)
    ctx.add("histories", len(hists))


NOPAGES = ("pages",)


def d02(ctx):
    """Commit: all, abort and failed commit: nothing."""
    design(ctx, ["LiveIntact", "CleanReopen"], ["Restore"])
    rnd, hists = ctx.rnd, []
    # every way to end two or three write transactions, watched by readers from before, between and after
    keys = [b"a", b"b", b"c" * 900, b"d", b"e" * 1200]
    changes = ["p1,1", "p2,2", "d1", "p3,3 d2", "p1,4 p4,1", "q1,1", "p5,2 p3,1", "d1 p1,5", "p1,2 d1"]
    for ends in itertools.product("CA", repeat=3):
        for ch in itertools.product(changes, repeat=3):
            if not ctx.thorough and rnd.random() < 0.6:
                continue
            h = Hist(keys, [4, 10, 700, 0, 1500], drop=NOPAGES, intra=rnd.randrange(2))
            h.t("W p1,1 p2,1 C r1")
            for i, (e, c) in enumerate(zip(ends, ch)):
                h.t("W %s r%d D%d D0 %s D%d r%d D%d" % (c, 2 + 2 * i, 2 + 2 * i, e, 2 + 2 * i, 3 + 2 * i, 3 + 2 * i))
                if rnd.random() < 0.2:
                    h.t(" ".join("x%d" % t for t in range(1, 4 + 2 * i)) + " O r1 D1" + "".join(" r%d" % t for t in range(2, 4 + 2 * i)))
            h.t(" ".join("D%d x%d" % (t, t) for t in range(1, 8)) + " O r1 D1 x1")
            hists.append(h)
    # a failing system call at every position of a commit
    for r in range(ctx.n(30, 300)):
        kp, vp, n, ops = rnd.choice(PROFILES)
        n = rnd.randrange(3, 12) if r % 3 else rnd.randrange(3, n // 2)
        keys, vals = keyset(rnd, n, kp), values(rnd, 30, vp)
        for kind in (0, 1, 2):
            model = set()
            h = Hist(keys, vals, drop=NOPAGES, intra=rnd.randrange(2))
            h.t("W")
            writes(rnd, h, model, n, n, 30, "ppd")
            h.t("C r1")
            for at in range(1, ctx.n(14, 30)):
                h.t("W")
                writes(rnd, h, set(model), rnd.randrange(1, max(3, n // 2)), n, 30, "ppd")
                if rnd.random() < 0.2:
                    h.t("r%d D%d" % (2 + at % 8, 2 + at % 8))
                    h.tok[-1] += " x%d" % (2 + at % 8)
                h.t("F%d,%d C D1 r18 D18 x18" % (at, kind))
                w = rnd.random()
                if w < 0.25:
                    h.t("x1 O r1 D1")
                elif w < 0.6:
                    h.t("W")
                    writes(rnd, h, model, 2, n, 30, "ppd")
                    h.t("C r18 D18 x18" if rnd.random() < 0.7 else "A r18 D18 x18")
            h.t("x1 O r1 D1 x1")
            hists.append(h)
    hists += [large(ctx, r, NOPAGES, bool(r % 2)) for r in range(ctx.n(8, 60))]
    # maps with little room: refused puts, refused commits
    for r in range(ctx.n(60, 600)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        keys, vals = keyset(rnd, n, kp), values(rnd, 40, vp)
        h = Hist(keys, vals, pages=rnd.choice((4, 5, 6, 8, 12, 20, 40)), drop=NOPAGES, small=True, intra=rnd.randrange(2))
        for _ in range(rnd.randrange(3, 9)):
            h.t("W")
            writes(rnd, h, set(), rnd.randrange(1, 40), n, 40, rnd.choice(("p", "ppd", "pdd")))
            h.t("D0 r1 " + rnd.choice("CCCA") + " D1 x1 r1 D1 x1")
            if rnd.random() < 0.2:
                h.t("O r1 D1 x1")
        h.t("O r1 D1 x1")
        hists.append(h)
    judge(ctx, build(ctx), hists)
    ctx.add("histories", len(hists))


def d03(ctx):
    """Readers over many commits."""
    design(ctx, ["SnapshotIntact", "LiveIntact"], ["HonourReaders", "AtomicRegister", "Fresh"])
    rnd, hists = ctx.rnd, []
    hists += [large(ctx, r, ("pages",), True) for r in range(ctx.n(8, 60))] + wide(ctx, ("pages", "commits"))
    for r in range(ctx.n(500, 6000)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(2, 10) if r % 2 else rnd.randrange(5, n + 1)
        keys, vals = keyset(rnd, n, kp), values(rnd, 40, vp)
        h = Hist(keys, vals, drop=("pages",) if r % 4 else (), intra=rnd.randrange(2))
        model, live = set(), set()
        h.t("W")
        if rnd.random() < 0.8:
            for k in order(rnd, n):
                h.t("p%d,%d" % (k, rnd.randrange(1, 41)))
                model.add(k)
        h.t("C")
        mix = rnd.choice(("pppd", "p", "ppdd", "pdq"))
        for _ in range(rnd.randrange(4, ctx.n(26, 60))):
            if len(live) < 8 and rnd.random() < 0.5:
                t = rnd.choice([x for x in range(1, 10) if x not in live])
                live.add(t)
                h.t("r%d %s" % (t, " ".join("g%d,%d" % (t, rnd.randrange(1, n + 1)) for _ in range(rnd.randrange(0, 6)))))
            inside = rnd.random() < 0.3
            h.t("W")
            writes(rnd, h, model, rnd.choice((1, 1, 2, 5, max(1, n // 2))), n, 40, mix)
            if inside and len(live) < 9:
                t = rnd.choice([x for x in range(1, 11) if x not in live])
                live.add(t)
                h.t("r%d g%d,%d" % (t, t, rnd.randrange(1, n + 1)))
            h.t(rnd.choice(("C", "C", "C", "C", "A", "F%d,%d C" % (rnd.randrange(1, 6), rnd.randrange(3)))))
            for t in sorted(live):
                w = rnd.random()
                if w < 0.25:
                    h.t("H%d D%d" % (t, t))
                elif w < 0.3:
                    h.t("H%d U%d" % (t, t))
                elif w < 0.5:
                    h.t("H%d %s%d" % (t, rnd.choice("ex"), t))
                    live.discard(t)
                elif w < 0.7:
                    h.t(" ".join("g%d,%d" % (t, rnd.randrange(1, n + 1)) for _ in range(4)))
        for t in sorted(live):
            h.t("H%d D%d x%d" % (t, t, t))
        hists.append(h)
    # as many readers as there may be, coming and going
    for r in range(ctx.n(12, 100)):
        keys = keyset(rnd, 5, "word")
        h = Hist(keys, values(rnd, 20, "small"), drop=("pages",), intra=r % 2)
        free, live = list(range(1, 190)), []
        h.t("W p1,1 C")
        for _ in range(rnd.randrange(200, 700)):
            w = rnd.random()
            if w < 0.03:
                h.t("W")
                writes(rnd, h, set(), 2, 5, 20, "ppd")
                h.t(rnd.choice("CCA"))
            elif len(live) < (126 if r % 3 else 30) and (w < 0.75 or not live):
                t = free.pop(rnd.randrange(len(free)))
                live.append(t)
                h.t("r%d" % t)
            else:
                t = live.pop(rnd.randrange(len(live)))
                free.append(t)
                h.t("D%d %s%d" % (t, rnd.choice("ex"), t))
        for t in live:
            h.t("D%d x%d" % (t, t))
        h.t(" ".join("r%d" % t for t in range(1, 140)) + " W p1,3 C " + " ".join("D%d x%d" % (t, t) for t in range(1, 140)) + " r1 D1 x1")
        hists.append(h)
    # one reader alone keeps its snapshot, whichever place it has among those that began with it
    for place in sorted({1, 2, 32, 33, 63, 64, 65, 96, 124, 125, 126} | {rnd.randrange(1, 127) for _ in range(ctx.n(6, 400))}):
        n = rnd.choice((6, 20, 40))
        h = Hist(keyset(rnd, n, "word"), values(rnd, 20, "big"), drop=("pages",), intra=place % 2)
        rewrite = lambda: "W " + " ".join("d%d p%d,%d" % (k, k, rnd.randrange(1, 21)) for k in order(rnd, n)) + " C"
        h.t("W " + " ".join("p%d,%d" % (k, k) for k in range(1, n + 1)) + " C " + rewrite() + " " + rewrite())
        top = rnd.choice((place, 126))
        h.t(" ".join("r%d" % t for t in range(1, top + 1)))
        h.t(" ".join("x%d" % t for t in order(rnd, top) if t != place))
        for i in range(8):
            h.t(rewrite())
            if place % 3 == 0 and i == 3:
                h.t("r130")
            h.t("D%d" % place)
        h.t("x%d" % place + (" D130 x130" if place % 3 == 0 else ""))
        hists.append(h)
    judge(ctx, build(ctx), hists)
    ctx.add("histories", len(hists))
    concurrent(ctx, "D03")


def d04(ctx):
    """Crash images at every point of the journal of system calls."""
    design(ctx, ["CrashSafe", "CleanReopen"], ["SyncData", "SyncMeta", "Alternate", "Fresh", "Restore"])
    rnd, hists = ctx.rnd, []
    for r in range(ctx.n(900, 12000)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(1, 6) if r % 2 else rnd.randrange(2, max(3, n // 3))
        keys, vals = keyset(rnd, n, kp), values(rnd, 30, vp)
        h = Hist(keys, vals, drop=NOPAGES, intra=rnd.randrange(2), pages=4096 if r % 3 else 256)
        model = set()
        reader = False
        for i in range(rnd.randrange(0, 7)):
            if rnd.random() < 0.3:
                h.t("x1" if reader else "r1")
                reader = not reader
            h.t("W")
            writes(rnd, h, model, rnd.choice((1, 2, 5, n)), n, 30, rnd.choice(("p", "ppd", "pdd")))
            h.t(rnd.choice(("C", "C", "C", "C", "A", "F%d,%d C" % (rnd.randrange(1, 5), rnd.randrange(3)))))
            if not reader and rnd.random() < 0.15:
                h.t("O")
        if reader:
            h.t("x1")
        h.t("X%d,%d" % (ctx.n(6, 30), rnd.randrange(1, 1000000)))
        hists.append(h)
    # long histories, only the end is crashed: by then pages are recycled
    for r in range(ctx.n(150, 2000)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(2, max(3, n // 4))
        keys, vals = keyset(rnd, n, kp), values(rnd, 30, vp)
        h = Hist(keys, vals, drop=NOPAGES, intra=rnd.randrange(2))
        model = set()
        for i in range(rnd.randrange(10, 40)):
            h.t("W")
            writes(rnd, h, model, rnd.choice((1, 2, 3)), n, 30, rnd.choice(("p", "ppd")))
            h.t("C")
        h.t("X%d,%d,75" % (ctx.n(4, 20), rnd.randrange(1, 1000000)))
        hists.append(h)
    judge(ctx, build(ctx), hists)
    ctx.add("histories", len(hists))


def d05(ctx):
    """Cursors: every short word of movements over many tree shapes, and long random words."""
    rnd, hists = ctx.rnd, []
    shapes = []
    long6 = [bytes([65 + i]) + b"k" * 1300 for i in range(6)]
    short6 = [bytes([65 + i]) for i in range(6)]
    deep9 = [bytes([65 + i]) + b"k" * 1880 for i in range(9)]
    for keys in (short6, long6, deep9):
        n = len(keys)
        for fill in ("", "1", "3", "12", "2 4", "135", "246", "12345", "123456"):
            shapes.append((keys, " ".join("p%s,1" % c for c in fill.replace(" ", ""))))
        full = " ".join("p%d,%d" % (k, 1 + k % 3) for k in range(1, n + 1))
        for gone in ("1", "6", "12", "56", "34", "234", "12345", "23456", "135", "246", "123456", "2345"):
            shapes.append((keys, full + " C W " + " ".join("d%s" % c for c in gone)))
            shapes.append((keys, full + " " + " ".join("d%s" % c for c in gone)))
    for keys, setup in shapes:
        n = len(keys)
        moves = ["f1", "l1", "n1", "v1", "t1", "s1,1", "s1,4", "S1,2", "S1,3", "S1,%d" % n, "S1,1"]
        words = list(itertools.product(moves, repeat=3)) + [w for w in itertools.product(["f1", "l1", "n1", "v1", "t1", "S1,3"], repeat=5)]
        rnd.shuffle(words)
        words = words[:ctx.n(400, 9000)]
        for i in range(0, len(words), 40):
            h = Hist(keys, [10, 20, 600], drop=NOPAGES)
            w, t = rnd.random() < 0.3, 1
            h.t("W " + setup)
            if w:
                t = 0
            else:
                h.t("C")
                if rnd.random() < 0.2:
                    h.t("O")
                h.t("r1")
            for x in words[i:i + 40]:
                h.t("c1,%d %s z1" % (t, " ".join(x)))
            h.t("D%d U%d" % (t, t))
            hists.append(h)
    for r in range(ctx.n(500, 8000)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(2, n + 1)
        keys, vals = keyset(rnd, n, kp), values(rnd, 40, vp)
        h = Hist(keys, vals, drop=NOPAGES, intra=rnd.randrange(2))
        model = set()
        h.t("W")
        for k in order(rnd, n):
            h.t("p%d,%d" % (k, rnd.randrange(1, 41)))
            model.add(k)
        if rnd.random() < 0.3:
            h.t("C W")
        w = rnd.randrange(5)
        if w == 1:                                  # a hole
            a = rnd.randrange(1, n + 1)
            for k in range(a, rnd.randrange(a, n + 1) + 1):
                h.t("d%d" % k)
        elif w == 2:                                # the ends
            for k in list(range(1, rnd.randrange(1, n + 1))) + list(range(rnd.randrange(1, n + 1), n + 1)):
                h.t("d%d" % k)
        elif w == 3:                                # few survivors
            stay = set(rnd.sample(range(1, n + 1), rnd.randrange(0, 4 if n > 4 else 2)))
            for k in range(1, n + 1):
                if k not in stay:
                    h.t("d%d" % k)
        elif w == 4:
            writes(rnd, h, model, rnd.randrange(1, ops), n, 40, "ppd")
        ts = [0]
        if rnd.random() < 0.7:
            h.t(rnd.choice(("C", "C O")) + " r1 r2")
            ts = [1, 2]
        cs = {}
        for c in (1, 2, 3):
            cs[c] = rnd.choice(ts)
            h.t("c%d,%d" % (c, cs[c]))
        for t in ts:
            h.t("D%d U%d" % (t, t))
        for _ in range(rnd.randrange(20, 200)):
            c, o = rnd.choice((1, 2, 3)), rnd.choice("flnnnnvvvvtsSSS")
            h.t("%s%d" % (o, c) + (",%d" % rnd.randrange(1, n + 1) if o in "sS" else ""))
        hists.append(h)
    hists += wide(ctx, ("keys", "deep"))
    judge(ctx, build(ctx), hists)
    ctx.add("histories", len(hists))


def d07(ctx):
    """Pages: accounted for, never overwritten while visible, used again; the file levels off."""
    design(ctx, ["Accounted", "SnapshotIntact"], ["HonourReaders"])
    rnd, hists = ctx.rnd, []
    for r in range(ctx.n(60, 500)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(1, 8) if r % 3 == 0 else rnd.randrange(2, max(3, n // (1 if r % 5 == 0 else 3)))
        keys, vals = keyset(rnd, n, kp), values(rnd, 40, vp)
        h = Hist(keys, vals, pages=20000, intra=rnd.randrange(2), drop=("get", "put", "del", "cdel", "scan"))
        model = set()
        h.t("W")
        for k in order(rnd, n):
            h.t("p%d,%d" % (k, rnd.randrange(1, 41)))
            model.add(k)
        h.t("C")
        most = 0
        for i in range(rnd.randrange(20, ctx.n(90, 300))):
            h.t("W")
            m = rnd.choice((1, 1, 2, 3, n))
            most = max(m, most)
            writes(rnd, h, model, m, n, 40, rnd.choice(("p", "p", "ppd")))
            h.t("C" if rnd.random() < 0.93 else rnd.choice(("A", "C O", "F%d,%d C" % (rnd.randrange(1, 5), rnd.randrange(3)))))
        h.t("L6,%d" % 120)
        hists.append(h)
    hists += wide(ctx, ("pages",))
    # readers come and go
    for r in range(ctx.n(60, 500)):
        kp, vp, n, ops = PROFILES[r % len(PROFILES)]
        n = rnd.randrange(2, max(3, n // 2))
        keys, vals = keyset(rnd, n, kp), values(rnd, 40, vp)
        h = Hist(keys, vals, pages=20000, intra=rnd.randrange(2), drop=("get", "put", "del", "cdel", "scan"))
        model, live = set(), []
        for i in range(rnd.randrange(20, ctx.n(80, 300))):
            w = rnd.random()
            if w < 0.15 and len(live) < 9:
                t = rnd.choice([x for x in range(1, 11) if x not in live])
                live.append(t)
                h.t("r%d" % t)
            elif w < 0.3 and live:
                h.t(rnd.choice("ex") + "%d" % live.pop(rnd.randrange(len(live))))
            h.t("W")
            writes(rnd, h, model, rnd.choice((1, 1, 2, 3, n)), n, 40, rnd.choice(("p", "p", "ppd")))
            h.t("C" if rnd.random() < 0.93 else "A")
        for t in live:
            h.t("x%d" % t)
        for i in range(15):
            h.t("W")
            writes(rnd, h, model, rnd.choice((1, 1, 2, 3)), n, 40, "p")
            h.t("C")
        hists.append(h)
    judge(ctx, build(ctx), hists)
    ctx.add("histories", len(hists))


CONC = {
    "D06": ["w|,w,w", "w|ww,ww", "w|wa,aw", "w|f,w", "w|fw,wf", "w|,f,f,w", "wo|+c,r,r", "wo|+c,rl", "wo|+cw,rr,l", "w|wr,rw", "wf|,w,r", "ww|awf,fwa,w", "w|w,w,w,w", "wo|c,h,w", "w|aa,aa", "w|r,w,a,f"],
    "D03": ["w|w,r", "w|ww,r", "w|www,rr", "wl|ww+ke,w", "wl|+ke,www", "ww|,lwe,ww", "w|,leww,rww", "w|ww,h,wr", "wwl|ww+ke,wwr", "w|wwww,lkke", "w|,r,r,www", "wwwl|w+e,lyke,www", "w|wwwww,rrrr", "www|,lkyke,wwwww",
            "www|,hw,ww,lke"],
}


def conc_events(text):
    h = []
    for w in text.split():
        m = re.fullmatch(r"([a-zA-Z]+)(\d+)((?:,-?\d+)*)", w)
        if not m:
            continue
        k, t, a = m.group(1), int(m.group(2)), [int(x) for x in m.group(3).split(",")[1:]]
        if k in ("deadlock", "endless", "crash"):
            h.append(dict(e="stuck", t=t))
            break
        if k == "s":
            h.append(dict(e="s", t=t, d=[a[i:i + 2] for i in range(0, len(a), 2)]))
        elif k == "p":
            h.append(dict(e="put", t=t, k=a[0], v=a[1], rc=a[2]))
        elif k == "d":
            h.append(dict(e="del", t=t, k=a[0], rc=a[1]))
        else:
            h.append(dict(e=k, t=t))
    done = {x["t"] for x in h if x["e"] == "c"}
    for x in h:
        if x["e"] == "C":
            x["ok"] = x["t"] in done
    return h


def concurrent(ctx, want):
    exe = sched_build(ctx, ["db_conc.c"], "db_conc", ["napr_db.c", "napr_db_tree.c", "napr_db_cursor.c"])
    runs, base = [], ctx.seed * 1000003 + 5
    for si, sc in enumerate(CONC[want]):
        for intra in (0, 1):
            for st, mem, spur, pre, est in (("dfs", 0, 0, 2, 0), ("rand", 0, 0, 0, 0), ("rand", 1, 0, 6, 0), ("pct", 1, 0, 3, 3000), ("pct", 0, 0, 3, 60)):
                runs.append((intra, (4, 1300)[(si + intra + mem + len(st)) % 2], sc, st, base + si * 100000, ctx.n(700, 12000), mem, spur, pre, est))

    def one(r):
        d = tempfile.mkdtemp(prefix="conc_", dir=ctx.scratch)
        try:
            p = subprocess.run([exe, os.path.join(d, "f")] + [str(x) for x in r], capture_output=True, text=True, timeout=ctx.n(200, 1500))
            text, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired:
            text, rc = "", 1
            HUNG.append(1)
        shutil.rmtree(d, ignore_errors=True)
        out, n, full = [], 0, False
        for line in text.splitlines():
            if line.startswith("H "):
                out.append(line.split(" ", 2)[2])
            elif line.startswith("N "):
                n, full = int(line.split()[1]), line.split()[2] == "1"
        if rc == 2:
            raise CheckError("db_conc: " + p.stderr[-300:])
        if rc or not n:
            out.append("crash0")
        return r, out, n, full
    recs, meta, seen = [], [], set()
    for r, out, n, full in filter(None, pmap(one, runs)):
        ctx.add("schedules_executed", n)
        if full:
            ctx.add("schedule_spaces_exhausted")
        for t in out:
            h = conc_events(t)
            key = json.dumps(h)
            if key not in seen:
                seen.add(key)
                recs.append(dict(h=h))
                meta.append((r, t))
    ctx.add("distinct_interleavings", len(recs))
    lim = ctx.n(60000, 400000)
    if len(recs) > lim:
        keep = sorted(range(len(recs)), key=lambda i: not any(x["e"] in ("stuck", "refused", "failed") for x in recs[i]["h"]))[:100] + ctx.rnd.sample(range(len(recs)), lim)
        recs, meta = [recs[i] for i in keep], [meta[i] for i in keep]
    bad = check_records(ctx, "NaprDBConcTrace", recs)
    if bad:
        r, t = meta[bad[0]]
        raise Violation("execution of threads on the database rejected: " + bad[1][:1500], dict(command="db_conc FILE " + " ".join(map(str, r)), history=t))
    for r, t in meta[:2]:
        ctx.sample(dict(script=r[2], execution=t[:600]))
    ctx.assumptions.append("sequential consistency; scheduling points: all pthread calls, and all memory accesses of the database in the runs marked mem=1")


def d06(ctx):
    concurrent(ctx, "D06")


# ---------------------------------------------------------------- D08
class Life:
    """One life of a file: the tokens of db_open.c."""

    def __init__(self, tok):
        self.tok = tok

    def text(self):
        return " ".join(self.tok) + "\n"


def sane_life(tok):
    """Leaves out what nothing is claimed about: two meta pages wiped out one after the other, a bit flipped twice, an older state behind a cut."""
    out, z, h, cut = [], 0, 0, False
    for t in tok:
        if t[0] == "d":
            if cut or (t[-1] == "z" and (z or t[1] == "b")) or (t[-1] == "h" and h):
                continue
            z += t[-1] == "z"
            h += t[-1] == "h"
        if t[0] == "p":
            cut = True
        if t[0] in "kegyR":
            cut, z, h = False, 0, 0
        out.append(t)
    return out


def d08(ctx):
    rnd = ctx.rnd
    model_check(ctx, "DBOpen", "SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT OnlyCommitted\nINVARIANT LastIfIntact\nINVARIANT NeverNothing\nCONSTANTS Keys = {1, 2} Values = {1, 2}\nCHECK_DEADLOCK FALSE\n")
    exe = build_lib(ctx, ["db_open.c"], "db_open")
    opens = ["o%s,%s" % (f, m) for f in ("", "c", "r", "i", "ci", "cr", "ri") for m in "nestu"]
    harm = ["d%s,%s" % (w, h) for w in "nob" for h in "mvzgh"] + ["k", "e", "s1", "s7", "s4095", "s4096", "s4097", "s8191", "p", "q", "R"]
    harm += ["g%d" % n for n in (1, 16, 4096, 8191, 8192, 8193, 12288, 40000)] + ["y%d" % n for n in (1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 12288, 20480)]
    lives = []
    # everything that can be wrong with a file, every way to open it, and then an ordinary life
    for made in ([], ["oc,n", "x"], ["oc,n", "w1,11", "x"], ["oci,n", "w1,11", "w2,22", "x"], ["oc,n", "w1,11", "w2,22", "w1,33", "x"]):
        for h in harm:
            for o in opens:
                if rnd.random() < ctx.n(.5, 1):
                    lives.append(Life(sane_life(made + [h, o, "w3,44", "x", "oc,n", "w2,55", "x", "o,n", "x"])))
        for o in opens:
            lives.append(Life(made + [o, "w3,44", "x", "oc,n", "w2,55", "x", "o,e", "x"]))
    for _ in range(ctx.n(1500, 20000)):
        tok, isopen = [], False
        for _ in range(rnd.randint(4, 30)):
            if isopen:
                t = rnd.choice(["w%d,%d" % (rnd.randint(1, 3), rnd.randint(1, 120))] * 3 + ["x", "x"])
                isopen = t != "x"
            elif rnd.random() < .6:
                t = rnd.choice(opens + ["oc,n", "oci,n", "o,n"] * 8)
                isopen = True
            else:
                t = rnd.choice(harm)
            tok.append(t)
            if isopen and t[0] == "o" and rnd.random() < .5:
                tok.append("w%d,%d" % (rnd.randint(1, 3), rnd.randint(1, 120)))
            if isopen and rnd.random() < .05:
                isopen = False
                tok.append("x")
        if isopen:
            tok.append("x")
        lives.append(Life(sane_life(tok)))
    # more commits than 8 bits can number between openings
    for n in (120, 127, 128, 130, 200, 255, 256, 257, 270, 300):
        w = ["w%d,%d" % (rnd.randint(1, 3), rnd.randint(1, 120)) for _ in range(n)]
        for h in ([], ["dn,m"], ["do,m"]):
            lives.append(Life(["oc,n"] + w + ["x"] + h + ["o,n", "w1,3", "w2,4", "x", "or,n", "x"]))
    res = play(ctx, exe, lives)
    recs, idx = [], []
    for i, r in enumerate(res):
        if r is None:
            continue
        tight = False
        for e in r:
            if e["o"] == "open":
                tight = e["map"] != "n"
            if e["o"] == "put":
                e["tight"] = tight
        recs.append(dict(ev=r))
        idx.append(i)
    ctx.add("lives_of_files", len(recs))
    bad = check_records(ctx, "DBOpenTrace", recs)
    if bad is not None:
        raise Violation("opening a database file did not do what its state calls for (%s)" % bad[1], dict(tokens=" ".join(lives[idx[bad[0]]].tok), events=recs[bad[0]]["ev"]))
