"""S01, S02: the heap and the hash table."""
import itertools
from vlib import *
from c_pool import sched_build


def play(ctx, exe, lines, nproc=8):
    """Plays the words; a crash is a history whose last operation is 'crash'."""
    def one(part):
        out = []
        todo = list(part)
        crashes = 0
        while todo:
            try:
                p = subprocess.run([exe], input="\n".join(todo) + "\n", capture_output=True, text=True, timeout=300)
                got, rc = p.stdout.splitlines(), p.returncode
            except subprocess.TimeoutExpired as e:
                got, rc = (e.stdout or b"").decode(errors="replace").splitlines(), "timeout"
            k = 0
            for g in got:
                try:
                    out.append(json.loads(g))
                    k += 1
                except ValueError:
                    break
            if k < len(todo):
                out.append([dict(op="crash", rc=str(rc))])
                k += 1
                crashes += 1
            todo = todo[k:]
            if rc == "timeout" or crashes > 3:
                out += [[dict(op="crash", rc="not run")]] * len(todo)
                break
        return out
    size = (len(lines) + nproc - 1) // nproc
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]
    return [h for r in pmap(one, parts) for h in r]


def play_all(ctx, lines):
    """Two thirds of the words with the ordinary build, one third with memory strictly bounded (where the sanitizer works)."""
    exe = build_lib(ctx, ["struct_run.c"], "struct_run")
    strict = build_lib(ctx, ["struct_run.c", "strictmem.c"], "struct_run_strict", flags=STRICT_C, ldflags=STRICT_L)
    works = all(subprocess.run([strict], input="", capture_output=True, text=True).returncode == 0 for _ in range(3))
    if not works:
        return play(ctx, exe, lines)
    out = [None] * len(lines)
    for e, sel in ((strict, lambda i: i % 3 == 0), (exe, lambda i: i % 3)):
        idx = [i for i in range(len(lines)) if sel(i)]
        for i, h in zip(idx, play(ctx, e, [lines[i] for i in idx])):
            out[i] = h
        ctx.add("words_with_strict_memory" if e == strict else "words", len(idx))
    return out


def verdict(ctx, module, lines, recs):
    idx = sorted(range(len(recs)), key=lambda i: len(json.dumps(recs[i])))
    # spread the long histories evenly
    ways = 8
    order = [i for w in range(ways) for i in idx[w::ways]]
    bad = check_records(ctx, module, [recs[i] for i in order], timeout=850)
    if bad:
        i = order[bad[0]]
        raise Violation("history rejected: " + bad[1], dict(word=lines[i], history=recs[i]))
    for i in (idx[len(idx) // 2], idx[len(idx) // 3]):
        ctx.sample(dict(word=lines[i][:300], history=json.dumps(recs[i])[:600]))


def s01(ctx):
    cfg = "SPECIFICATION Spec\nINVARIANT Agree\nINVARIANT Order\nPROPERTY StepOk\nCONSTANTS MaxOps = %d Ranks = {%s}\nCHECK_DEADLOCK FALSE\n"
    model_check(ctx, "HeapImpl", cfg % (ctx.n(7, 9), "0, 1, 2"))
    rnd, lines = ctx.rnd, []
    # every word up to a length, observed completely after every step
    n = ctx.n(7, 9)
    for w in itertools.product(("i0", "i1", "i2", "x"), repeat=n):
        if w[0] == "x" and w[1] == "x":
            continue
        lines.append("H %d %d " % (rnd.randrange(3), rnd.randrange(2)) + " ".join(y for o in w for y in (o, "a")) + " s x x x x x x x x x x")
    ctx.add("exhaustive_word_length", n)
    # every insertion order of a set of distinct ranks, then complete extraction
    for p in itertools.permutations(range(ctx.n(6, 8))):
        lines.append("H 0 0 " + " ".join("i%d" % r for r in p) + " a" + " x" * (len(p) + 1))
    for w in range(ctx.n(120, 1500)):
        k = rnd.choice((20, 60, 255, 256, 257, 300, 400)) if w % 4 else rnd.choice((511, 512, 513, 520, 700, 1030))
        rng = rnd.choice((1, 2, 5, 50, 100000))
        sign = rnd.choice((1, 1, -1))
        shape = rnd.randrange(4)
        ops = []
        for i in range(k):
            r = (i if shape == 0 else -i if shape == 1 else rnd.randrange(rng)) * sign
            ops.append("i%d" % r)
            if shape == 3:
                ops += ["x"] * rnd.choice((0, 0, 0, 1, 2))
            if rnd.random() < 0.03:
                ops += [rnd.choice(("s", "x", "n%d" % rnd.randrange(k + 2)))]
        ops += ["a", "s"]
        more = rnd.randrange(0, 40)
        for i in range(more):
            ops += ["x", "x", "i%d" % rnd.randrange(-5, rng + 1)]
        ops += ["s", "a"] + ["x"] * (k + more + 2) + ["s"]
        lines.append("H %d %d " % (rnd.randrange(3), rnd.randrange(2)) + " ".join(ops))
    hs = play_all(ctx, lines)
    recs = [dict(kind="seq", h=h) for h in hs]
    # locked insertion from several threads
    cexe = sched_build(ctx, ["heap_run.c"], "heap_run", ["napr_heap.c"])
    jobs = []
    for nt, ranks, pre in ((2, "12", 0), (2, "1122", 0), (2, "3142", 0), (3, "231", 0), (3, "123312", 0), (2, "57", 254), (2, "9988", 254), (3, "135", 255), (2, "40", 255), (4, "1234", 254)):
        for st, k, p, est in (("dfs", ctx.n(3000, 60000), 2, 0), ("rand", ctx.n(1500, 30000), 0, 0), ("pct", ctx.n(1500, 30000), 3, 200)):
            jobs.append((nt, ranks, st, ctx.seed * 7919, k if pre == 0 else k // 4, p, est if pre == 0 else 12000, pre))

    def one(j):
        try:
            p = subprocess.run([cexe] + [str(x) for x in j], capture_output=True, text=True, timeout=ctx.n(150, 900))
        except subprocess.TimeoutExpired:
            HUNG.append(1)
            return j, ["rc99 s0"], 0
        res, cnt = [], 0
        for line in p.stdout.splitlines():
            if line.startswith("H "):
                res.append(line[2:])
            elif line.startswith("N "):
                cnt = int(line.split()[1])
        if p.returncode or not cnt:
            res.append("rc99 s0")
        return j, res, cnt
    for j, res, cnt in filter(None, pmap(one, jobs)):
        ctx.add("schedules_executed", cnt)
        pre = j[7]
        ranks = [i % 10 for i in range(pre)] + [int(c) for c in j[1]]
        for r in res:
            t = r.split()
            rc = int(t[0][2:])
            h = [dict(op="crash", rc=str(rc))] if rc else [dict(op="s", n=int(t[1][1:]))] + [dict(op="x", id=int(x)) for x in t[2:]]
            recs.append(dict(kind="par", ranks=ranks, h=h))
            lines.append("heap_run " + " ".join(map(str, j)))
    verdict(ctx, "HeapTrace", lines, recs)
    ctx.assumptions.append("concurrent use: only insertion has a locked variant in the code; sequential consistency, every memory access of napr_heap.c a scheduling point")


def s02(ctx):
    cfg = "SPECIFICATION Spec\nINVARIANT Exact\nINVARIANT Bounded\nCONSTANTS Keys = {%s} F = %d MaxPow = 3 MaxOps = %d\nCHECK_DEADLOCK FALSE\n"
    for f in (1, 2, 3):
        model_check(ctx, "HashImpl", cfg % (ctx.n("1, 2, 3, 4", "1, 2, 3, 4, 5"), f, ctx.n(6, 7)))
    rnd, lines = ctx.rnd, []
    n = ctx.n(5, 6)
    alpha = ["s0", "s1", "s7", "s2", "r0", "r1", "r7"]
    for w in itertools.product(alpha, repeat=n):
        if w[0][0] == "r":
            continue
        lines.append("T %d %d %d " % (rnd.choice((0, 1, 2, 4)), rnd.choice((1, 2, 3)), rnd.randrange(8)) + " ".join(w) + " a f0 f1 f7 f2 f3")
    ctx.add("exhaustive_word_length", n)
    for w in range(ctx.n(250, 3000)):
        mode = rnd.randrange(8)
        span = rnd.choice((4, 10, 30, 100, 300)) if mode in (1, 2, 3) else rnd.choice((4, 10, 30, 100, 300, 800))
        ff = rnd.choice((1, 2, 3, 4, 8, 8, 16))
        nel = rnd.choice((0, 1, 2, 7, 8, 9, 32, 1000))
        base = rnd.choice((0, 0, 1, 1000, 100000))
        mix = rnd.choice(("sssr", "ssrf", "sr", "sss", "srr"))
        ops = []
        if rnd.random() < 0.4:
            ks = list(range(base, base + span))
            rnd.shuffle(ks)
            ops += ["s%d" % k for k in ks] + ["a"]
        for i in range(rnd.choice((20, 100, 300))):
            ops.append("%s%d" % (rnd.choice(mix), base + rnd.randrange(span)))
            if rnd.random() < 0.02:
                ops.append("a")
        ops += ["a"] + ["f%d" % (base + k) for k in rnd.sample(range(span), min(span, 60))]
        lines.append("T %d %d %d " % (nel, ff, mode) + " ".join(ops))
    recs = [dict(h=h) for h in play_all(ctx, lines)]
    verdict(ctx, "HashTrace", lines, recs)
    ctx.assumptions.append("callers search before storing (a key is stored at most once at a time), as the whole repository does")
