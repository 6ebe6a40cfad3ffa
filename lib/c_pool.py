"""T01, T02: the thread pool under a controlled scheduler."""
from vlib import *

NAMES = {"c": "call", "r": "ret", "b": "begin", "e": "end", "W": "wait", "R": "waited", "X": "shut", "Y": "gone", "d": "deny", "D": "nopool"}


def sched_build(ctx, harness, name, instrument, flags=(), ldflags=()):
    """Links the repository with the controlled scheduler; `instrument`: sources (base names) whose memory accesses are
    scheduling points."""
    src = repo_sources()
    ins = [s for s in src if os.path.basename(s) in instrument]
    rest = [s for s in src if os.path.basename(s) not in instrument]
    objs = compile_objs(ctx, ins, name + "_i", ["-DFTWIN_TEST_BUILD", "-fsanitize=thread", *flags])
    objs += compile_objs(ctx, rest, name, ["-DFTWIN_TEST_BUILD", *flags])
    objs += compile_objs(ctx, xxhash_source(), name, ["-O2"])
    objs += compile_objs(ctx, [os.path.join(HARNESS, h) for h in ["sched.c", *harness]], name + "_h", ["-DFTWIN_TEST_BUILD", *flags])
    return link(ctx, objs, name, ["-rdynamic", *ldflags])


def events(text):
    h = []
    for w in text.split():
        m = re.fullmatch(r"([a-zA-Z]+)(\d+)", w)
        if not m:
            continue
        k, n = m.group(1), int(m.group(2))
        if k in ("deadlock", "endless"):
            h.append(dict(e="stuck", n=n))
            break
        h.append(dict(e=NAMES.get(k, k), n=n))
    return h


SCRIPTS = [("w+w", 1), ("sw+w", 1), ("ssw+ssw", 1), ("sssw+w", 1), ("swsw+sww", 1), ("ffsw+w", 1), ("nw+ww", 1), ("sw+,sw", 0), ("sw,sw", 0), ("ssw,ssw", 0), ("w+w,sw", 1),
           ("sw,ww,sw", 0), ("s", 0), ("sss", 0), ("nn+ww", 1), ("fnw+ww,sw", 1), ("sssss+w", 1), ("s+w,s,s", 1), ("ssf+sww,nyw", 1), ("wsws+w,wsws", 1), ("yysw+w,sys", 1),
           ("sswsswssw+w", 1), ("nyn+ww,w,w", 1), ("sw+w,fw,ww", 1), ("1sw+w", 1), ("2ssw+w", 1), ("3sw+w", 1)]


def scale(ctx, want):
    """Real threads: many tasks, many workers, many batches, many clients, tasks that submit others."""
    objs = compile_objs(ctx, repo_sources(), "pool_big", ["-DFTWIN_TEST_BUILD", "-O1"])
    objs += compile_objs(ctx, xxhash_source(), "pool_big", ["-O2"]) + compile_objs(ctx, [os.path.join(HARNESS, "pool_big.c")], "pool_big_h", [])
    exe = link(ctx, objs, "pool_big", [])
    runs = [(1, 1, 1, 70000, 0, 1), (2, 1, 3, 30000, 0, 0), (3, 4, 1, 33000, 0, 1), (8, 2, 400, 20, 0, 0), (300, 1, 3, 1000, 0, 0), (40, 4, 10, 300, 3, 1), (3, 8, 1500, 1, 0, 0), (16, 1, 70, 100, 1, 0),
            (5, 2, 2, 0, 0, 0)]
    if ctx.thorough:
        runs += [(w, c, b, t, n, g) for w in (1, 2, 7, 64, 600) for c in (1, 6) for b, t in ((1, 40000), (3000, 3), (20, 900)) for n in (0, 2) for g in (0, 1)]
    recs = []
    for r in runs:
        for attempt in (0, 1):          # a run cut off by the clock is repeated before it is believed
            try:
                out = subprocess.run([exe] + [str(x) for x in r], capture_output=True, text=True, timeout=ctx.n(60, 240)).stdout
                break
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b"").decode()
        lines = [[int(x) for x in y.split()[1:]] for y in out.splitlines() if y[:1] == "B"]
        gone = [int(y.split()[1]) for y in out.splitlines() if y[:1] == "G"]
        w, c, b, t, n, _ = r
        recs.append(dict(b=[dict(acc=x[0], done=x[1], most=x[2] or 1) for x in lines if len(x) == 3], batches=b, all=c * b * (t + (len(range(0, t, n)) if n else 0)),
                         gone=gone[0] if gone else -1, want=want, run=list(r)))
        ctx.add("runs_at_scale")
        if not gone:
            break
    bad = check_records(ctx, "ThreadPoolTrace", recs)
    if bad:
        x = recs[bad[0]]
        raise Violation("the pool at scale: " + bad[1][:300], dict(command="pool_big %s" % " ".join(map(str, x["run"])), returned=len(x["b"]), last=x["b"][-1:], gone=x["gone"]))


def explore(ctx, want):
    cfg = ("SPECIFICATION Spec\nINVARIANT Sound\nINVARIANT NoDeadlock\nINVARIANT WaitedAllDone\nPROPERTY Terminates\n"
           "CONSTANTS NW = %d MaxSpur = %d Refusals = {%s} Care = {%s}\nCONSTANT Script <- Script%s\nCHECK_DEADLOCK FALSE\n")
    care = ["loop", "done", "reset", "all", "undo"]
    quoted = lambda l: ", ".join('"%s"' % x for x in l)
    jobs = [(2, 2, "A"), (2, 2, "B"), (2, 1, "C"), (1, 1, "B")]
    if ctx.thorough:
        jobs += [(3, 1, "B"), (2, 2, "D"), (3, 2, "A"), (2, 1, "E"), (3, 1, "D")]
    for nw, sp, s in jobs:
        model_check(ctx, "MCPool", cfg % (nw, sp, ", ".join(map(str, range(nw + 1))), quoted(care), s))
    # the model is sensitive: without any one of its precautions TLC finds a counterexample
    def without(x):
        sc = "C" if x == "done" else "A"
        return x, tlc(ctx, "MCPool", cfg % (2, 1, "0, 1, 2", quoted([c for c in care if c != x]), sc), workers=2, timeout=300)
    for x, r in pmap(without, care):
        if r.ok or not re.search(r"is violated|were violated", r.out):
            raise CheckError("PoolImpl holds without the precaution %s" % x)
        ctx.add("design_variants_refuted")
    exe = sched_build(ctx, ["pool_run.c"], "pool_run", ["napr_threadpool.c"])
    runs = []
    base = ctx.seed * 1000003 + 17
    for si, (sc, strict) in enumerate(SCRIPTS):
        for nw in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4, 8):
            if sc[0].isdigit() and int(sc[0]) > nw:
                continue
            k = ctx.n(1200, 20000)
            for st, mem, spur, pre, est in (("dfs", 0, 1, 2, 0), ("rand", 0, 2, 0, 0), ("rand", 1, 2, 6, 0), ("pct", 0, 1, 2, 60), ("pct", 1, 2, 3, 400)):
                runs.append((sc, strict, nw, st, base + si * 100000, k * (6 if st == "dfs" else 1), mem, spur, pre, est))

    # long queues and many workers: random schedules only
    for sc, strict in (("s" * 30 + "w+w", 1), ("s" * 12 + "w+w," + "s" * 12 + "w", 1), ("fsfsfsfsfsfsw+w,ffffsw", 1), ("s" * 20 + "w" + "s" * 20 + "w+w", 1), ("nnnnnnw+w,w", 1)):
        for nw in (1, 2, 5, 16):
            runs.append((sc, strict, nw, "rand", base, ctx.n(120, 3000), 0, 2, 0, 0))
            runs.append((sc, strict, nw, "pct", base, ctx.n(120, 3000), 0, 2, 4, 400))

    def one(r):
        sc, strict, nw, st, seed, k, mem, spur, pre, est = r
        cmd = [exe] + [str(x) for x in (nw, sc, st, seed, k, mem, spur, pre, est)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=ctx.n(100, 600))
        except subprocess.TimeoutExpired:
            HUNG.append(1)
            return r, [("crash0 (timeout: a loop without any scheduling point)", 1)], 0, False
        out, n, full = [], 0, False
        for line in p.stdout.splitlines():
            if line.startswith("H "):
                _, c, t = line.split(" ", 2)
                out.append((t, int(c)))
            elif line.startswith("N "):
                n, full = int(line.split()[1]), line.split()[2] == "1"
        if p.returncode or not n:
            out.append(("crash0", 1))
        return r, out, n, full
    res = list(filter(None, pmap(one, runs)))
    recs, meta, seen = [], [], set()
    for r, out, n, full in res:
        ctx.add("schedules_executed", n)
        if full:
            ctx.add("schedule_spaces_exhausted")
        for t, c in out:
            h = events(t)
            key = (json.dumps(h), r[1])
            if key in seen:
                continue
            seen.add(key)
            recs.append(dict(h=h, strict=bool(r[1]), want=want))
            meta.append((r, t))
    # all distinct histories, shortest first, up to a limit
    order = sorted(range(len(recs)), key=lambda i: (not any(x["e"] not in NAMES.values() for x in recs[i]["h"]), len(recs[i]["h"])))
    lim = ctx.n(150000, 600000)
    ctx.add("distinct_histories", len(recs))
    order = order[:200] + ctx.rnd.sample(order[200:], min(len(order) - 200, lim)) if len(order) > 200 else order
    recs, meta = [recs[i] for i in order], [meta[i] for i in order]
    bad = check_records(ctx, "ThreadPoolTrace", recs)
    if bad:
        r, t = meta[bad[0]]
        raise Violation("history of the thread pool rejected: " + bad[1], dict(
            command="pool_run %s" % " ".join(str(x) for x in (r[2], r[0], *r[3:])), history=t, legend=NAMES))
    for r, t in meta[:3]:
        ctx.sample(dict(workers=r[2], script=r[0], history=t))
    ctx.assumptions.append("sequential consistency; scheduling points: all pthread calls, and all memory accesses of napr_threadpool.c in the runs marked mem=1")


def t01(ctx):
    scale(ctx, "tasks")
    explore(ctx, "tasks")


def t02(ctx):
    scale(ctx, "waits")
    explore(ctx, "waits")
