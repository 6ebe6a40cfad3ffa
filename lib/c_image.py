"""F10: image mode."""
from twin import *
from c_twin import cli, cli_strict, PERT, sched_cli, sched_outcomes, judge_sched


ROUND = ["-Wl,--wrap=puzzle_vector_normalized_distance"]


def tool(ctx, name="imgtool", extra=(), flags=()):
    exe = ctx.path("bin", name)
    r = subprocess.run(["gcc", "-O2", "-w", *[os.path.join(HARNESS, x) for x in ("imgtool.c",) + extra], "-o", exe, *flags, "-lgd", "-lpuzzle", "-lm"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError(r.stderr)
    return exe


EXTS = [".png", ".jpg", ".jpeg", ".gif", ".PNG", ".Jpg", ".JPEG", ".GiF"]
NONEXT = ["", ".txt", ".bmp", ".pngx", ".jpeg.bak", "png", ".jp", ".jpge"]
WRE = [dict(k="suffix", l=list(x)) for x in (".gif", ".png", ".jpg", ".jpeg")]


def f10(ctx):
    rnd = ctx.rnd
    cfg = ("SPECIFICATION Spec\nINVARIANT Exact\nINVARIANT SoundAlways\n%sCONSTANTS NFiles = %d NWorkers = 2 Dists = {1, 2} Threshold = 2 Emit = FALSE\n"
           "CHECK_DEADLOCK FALSE\n")
    model_check(ctx, "Image", cfg % ("PROPERTY Ends\n", 3))
    model_check(ctx, "Image", cfg % ("", ctx.n(3, 4)))
    exe = [cli(ctx), build_cli(ctx, "ftwin_pert", extra=["perturb.c"], ldflags=PERT + ["-Wl,--wrap=puzzle_fill_cvec_from_file"]),
           build_cli(ctx, "ftwin_round", extra=["rounddist.c"], ldflags=ROUND), cli_strict(ctx)]
    it = tool(ctx)
    itr = tool(ctx, "imgtool_round", ("rounddist.c",), ROUND)
    its = [it, it, itr]
    cases = []
    for i in range(ctx.n(220, 2500)):
        cases.append(dict(seed=rnd.randrange(1 << 30), n=rnd.choice([1, 2, 3, 5, 8, 12, 16]), level=rnd.choice([0, 1, 2, 3, 4, 5, 5, 4, 3]), r=rnd.randrange(1 << 30)))
    for n in ctx.n([40, 110], [40, 70, 110, 150, 200]):       # as many as a directory of photographs holds
        cases.insert(rnd.randrange(len(cases)), dict(seed=rnd.randrange(1 << 30), n=n, level=rnd.choice([2, 3, 4]), r=rnd.randrange(1 << 20) * 3 + n % 3))

    def go(c, d, sched=False):
        r = random.Random(c["r"])
        root = os.path.join(d, "t")
        gen = os.path.join(d, "g")
        os.makedirs(gen)
        subprocess.run([it, "gen", gen, str(c["seed"]), str(c["n"])], check=True)
        w = World()
        w.opts["wre"] = WRE
        w.opts["icase"] = True
        dirs = [("a",), ("b",), ("a", "deep"), ("a", "deep", "er"), ("B.png",)]
        if r.random() < .3:
            dirs.append((".hid",))
        for i in range(c["n"]):
            data = open(os.path.join(gen, str(i)), "rb").read()
            for _ in range(1 if r.random() < .8 else 2):
                q = r.random()
                ext = r.choice(EXTS) if q < .85 else r.choice(NONEXT)
                x = data
                z = r.random()
                if z < .06:
                    # cut where no decoder makes an image of it (a cut GIF body decodes to whatever is in memory)
                    x = data[:r.randrange(9)] if data[:4] != b"\x89PNG" else data[:r.randrange(len(data) // 2)]
                elif z < .12:
                    x = r.randbytes(r.choice([0, 1, 100, 3000]))
                nm = ("." if r.random() < .05 else "") + r.choice(["i", "I m", "x,y", "p"]) + str(len(w.nodes)) + ext
                w.f(r.choice(dirs) + (nm,), x)
        for dd in dirs[:5]:
            w.d(*dd)
        if r.random() < .2:
            w.opts["rec"] = False
        if r.random() < .2:
            w.opts["hidden"] = True
        if r.random() < .2:
            w.opts["min"] = r.choice([1, 300, 900])
        if r.random() < .1:
            w.opts["max"] = r.choice([800, 2000])
        if r.random() < .2:
            fs = [p for p in w.nodes if w.nodes[p]["k"] == "f"]
            for k in range(3):
                w.ln(("b", "ln%d.png" % k), r.choice(fs))
            w.opts["follow"] = r.random() < .5
        w.opts["sep"] = r.choice(["\n", "\n", "\n", "|", "\t"])
        fs = [p for p in w.nodes if w.nodes[p]["k"] == "f"]
        w.args = r.choice([[(("a",), None), (("b",), None), (("B.png",), None)], [((), None)], [(("a",), None), (("a",), None)],
                           [(("a",), None), ((r.choice(fs)), None), ((r.choice(fs)), None)]])
        w.extra = (["-j", r.choice("1223")] if sched else []) + ["-I"] + (["-T", str(c["level"])] if c["level"] else []) + (["-v"] if r.random() < .2 else [])
        if r.random() < .5:
            w.extra = [x for x in w.extra if x != "-I"] + ["-I"]
        w.materialise(root)
        save = w.opts["wre"], w.opts["icase"]
        w.opts["wre"], w.opts["icase"] = [], False
        argv = w.argv(root)
        w.opts["wre"], w.opts["icase"] = save
        runs = sched_outcomes(ctx, se, root, argv, c["r"], ctx.n(150, 1500)) if sched else [run_cli(exe[3 if c["r"] % 6 == 0 else c["r"] % 3], argv, root, env={"FT_JITTER": str(c["r"] % 1000)})]
        paths = sorted(p for p in w.nodes if w.nodes[p]["k"] != "d")
        o = subprocess.run([it if sched else its[c["r"] % 3], "dist"], input="".join(os.path.join(root, *p) + "\n" for p in paths), capture_output=True, text=True)
        if o.returncode:
            raise CheckError("imgtool dist " + o.stderr)
        imgs = [dict(p=list(p), ok=False) for p in paths]
        dist = []
        for line in o.stdout.splitlines():
            f = line.split()
            if f[0] == "V":
                imgs[int(f[1])]["ok"] = f[2] == "1"
            else:
                dist.append(dict(a=int(f[1]) + 1, b=int(f[2]) + 1, d=int(f[3]), near=f[4] == "1", rank=int(f[5])))
                if f[6] == "1":
                    ctx.add("pairs_exactly_at_a_limit")
        tw = w.tla(root)
        res = []
        for run in runs:
            out = [[comps_of(root, m) for m in g] for g in parse_text(run.out, w.opts["sep"], False)]
            rec = dict(w=tw, imgs=imgs, dist=dist, level=c["level"], out=out, rc=run.rc)
            ds = describe(w, root, run, dict(schedule=getattr(run, "sched", None)))
            ds["pairs_below"] = [(paths[e["a"] - 1], paths[e["b"] - 1], e["d"]) for e in dist if e["d"] < 700000]
            res.append((rec, ds))
        return res if sched else res[0]
    judge(ctx, cases, go, module="ImageTrace", what="image pairs differ from the specification")
    se = sched_cli(ctx)

    def sgo(ic):
        d = ctx.path("s", "c%d" % ic[0])
        os.makedirs(d)
        try:
            return go(ic[1], d, True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    few = [dict(c, n=rnd.choice([2, 3, 5]), r=rnd.randrange(1 << 30)) for c in rnd.sample(cases, ctx.n(40, 250))]
    judge_sched(ctx, pmap(sgo, list(enumerate(few))), "a schedule of the worker threads changes the image pairs", "ImageTrace")
    ctx.assumptions.append("libpuzzle itself (signatures and distances) is the measure, called outside ftwin with the documented parameters")
