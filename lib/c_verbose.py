"""F13: what -v tells."""
from twin import *
from c_twin import cli, cli_weak, fault_so, fill, exec_opts, judge, BOUND, PERT, sched_cli, sched_outcomes, judge_sched
from c_image import tool
import vlib

EV = re.compile(rb"\rProgress \[(\d+)/(\d+)\] (-?\d+)% |\rCompare progress \[ *(\d+)/ *(\d+)\] (-?[\d.]+)% |\nskipping ([^\n]*) and ([^\n]*) comparison because: ([^\n]*)\n|"
                rb"\nskipping ([^\n]*?) because: ([^\n]*)\n|Skipping : \[([^\n]*?)\] \(broken link\)\n|(Referencing files and sizes:\n)|(Reporting duplicate files:\n)|(Warning: Verbose mode disabled)")


def parse(err, root):
    """The events on standard error, in order; other messages are passed over."""
    def rel(b):
        s = b.decode("utf-8", "backslashreplace")
        return s[len(root) + 1:] if s.startswith(root + "/") else s
    out = []
    for m in EV.finditer(err):
        g = m.groups()
        e = dict(k="", n=0, of=0, pct=0, a="", b="", why="")
        if g[0] is not None:
            e.update(k="p", n=int(g[0]), of=int(g[1]), pct=int(g[2]))
        elif g[3] is not None:
            e.update(k="c", n=int(g[3]), of=int(g[4]), pct=int(float(g[5])))
        elif g[6] is not None:
            e.update(k="cmp", a=rel(g[6]), b=rel(g[7]), why=g[8].decode("utf-8", "replace"))
        elif g[9] is not None:
            e.update(k="skip", a=rel(g[9]), why=g[10].decode("utf-8", "replace"))
        elif g[11] is not None:
            e.update(k="link", a=rel(g[11]))
        else:
            e["k"] = "ref" if g[12] is not None else "rep" if g[13] is not None else "off"
        if any(abs(e[x]) > 2000000 for x in ("n", "of", "pct")):
            e.update(n=2000000, of=0, pct=0)
        out.append(e)
    return out


def blocks(out):
    """Groups and their members without their order (the tree is built anew for the second run)."""
    return sorted(sorted(b.split(b"\n")) for b in out.split(b"\n\n"))


def design(ctx):
    cfg = "SPECIFICATION Spec\nINVARIANT AllTold\nPROPERTY Refines\nPROPERTY Ends\nCONSTANTS Files = {f1, f2, f3, f4} Bad = {%s} Workers = {%s} Locked = %s\nCHECK_DEADLOCK FALSE\n"
    for bad, workers in (("", "u, v"), ("f1", "u, v, w"), ("f1, f2", "u, v")):
        vlib.model_check(ctx, "ProgressImpl", cfg % (bad, workers, "TRUE"))
    res = vlib.tlc(ctx, "ProgressImpl", cfg % ("", "u, v", "FALSE"))
    if res.ok:
        raise CheckError("ProgressImpl holds without its lock: the model is not sensitive")
    ctx.add("design_variants_refuted")


def f13(ctx):
    rnd = ctx.rnd
    design(ctx)
    exe = dict(plain=cli(ctx), weak=cli_weak(ctx), pert=build_cli(ctx, "ftwin_pert", extra=["perturb.c"], ldflags=PERT))
    so = fault_so(ctx)
    E = {"EACCES": 13, "ENOENT": 2, "EIO": 5, "ELOOP": 40, "ENXIO": 6}
    cases = []
    for i in range(ctx.n(260, 4000)):
        w = World()
        dirs = [("d",), ("d", "s"), ("d", "s", "t"), ("d", "u")]
        for d in dirs:
            w.d(*d)
        big = i % 4 == 0
        fill(rnd, w, dirs, rnd.randint(1, 3), rnd.choice([2, 3, 5, 9, 30]), [z for z in BOUND if z and (big or z < 5000)])
        w.f(("d", "zz1"), b"remaining")
        w.f(("d", "zz2"), b"remaining")
        files = [p for p in w.nodes if w.nodes[p]["k"] == "f"]
        w.args = [(("d",), rnd.choice([None, "d"]))]
        faults = {}
        kind = ["none", "open", "read", "vanish", "dangling", "short", "json"][i % 7]
        for p in rnd.sample(files[:-2], min(len(files) - 2, rnd.choice([1, 1, 2, 3, 6]))):
            sz = len(w.nodes[p]["data"])
            if kind in ("open", "json"):
                faults[p] = ("open", rnd.choice(list(E.values())))
            elif kind == "read":
                faults[p] = ("read", rnd.choice([0, sz - 1, sz // 2]))
            elif kind == "vanish":
                faults[p] = ("vanish", 0)
            elif kind == "short":
                faults[p] = ("short", rnd.choice([7, 100, 4096]))
            elif kind == "dangling":
                w.ln(rnd.choice(dirs) + ("ln%d" % rnd.randrange(99),), ("gone", "x"))
                w.opts["follow"] = True
        w.extra = exec_opts(rnd, [])
        cases.append((w, rnd.choice(["plain", "weak", "pert"]), kind, faults))

    def go(case, d):
        w, key, kind, faults = case
        root = os.path.join(d, "t")
        runs = []
        hits = os.path.join(d, "hits")
        for v in (True, False):
            w.materialise(root)
            open(hits, "w").close()
            env = {"FT_JITTER": str(len(w.nodes))}
            if faults:
                env.update({"LD_PRELOAD": so, "FT_HITS": hits, "FT_FAULTS": "\n".join("%s|%s|%d" % (os.path.join(root, *p), k, a) for p, (k, a) in faults.items())})
            runs.append(run_cli(exe[key], (["-J"] if kind == "json" else []) + (["-v"] if v else []) + w.argv(root), root, env=env))
            if v:
                struck = {int(x) for x in open(hits).read().split()}
            shutil.rmtree(root)
        r, q = runs
        cls = {}
        for p in w.nodes:
            if w.nodes[p]["k"] == "f":
                cls.setdefault(len(w.nodes[p]["data"]), []).append(p)
        bad = [(p, k, a) for j, (p, (k, a)) in enumerate(faults.items()) if k != "short" and j in struck]
        rec = dict(mode="json" if kind == "json" else "files", same=r.rc == q.rc and (kind == "json" or blocks(r.out) == blocks(q.out)), ev=parse(r.err, root),
                   bad=[dict(p="/".join(p), why=os.strerror(a) if k == "open" else "") for p, k, a in bad],
                   must=["/".join(p) for p, k, a in bad if len(cls[len(w.nodes[p]["data"])]) > 1],
                   links=["/".join(p) for p in w.nodes if w.nodes[p]["k"] == "l"] if w.opts.get("follow") else [], n=0, r=0)
        return rec, describe(w, root, r, dict(faults=[("/".join(p), k, a) for p, (k, a) in faults.items()], build=key, stderr=r.err[-3000:].decode("utf-8", "backslashreplace"), without_v=dict(rc=q.rc, out=q.out[:2000].decode("utf-8", "backslashreplace"))))
    judge(ctx, cases, go, module="ProgressTrace", what="-v does not account for the files examined")

    # many files: the counts go on beyond any small counter
    def many(n, d):
        root = os.path.join(d, "t")
        w = World()
        w.args = [(("d",), None)]
        for k in range(n):
            if k % 256 == 0:
                os.makedirs(os.path.join(root, "d", str(k // 256)))
            with open(os.path.join(root, "d", str(k // 256), str(k)), "wb") as f:
                f.write(b"%d" % (k // 16 % 4) * (1 + k // 256))
        argv = ["-j", "8", os.path.join(root, "d")]
        r, q = run_cli(exe["plain"], ["-v"] + argv, root, timeout=120), run_cli(exe["plain"], argv, root, timeout=120)
        ev = parse(r.err, root)
        p = [e for e in ev if e["k"] == "p"]
        rec = dict(mode="files", same=r.rc == 0 and r.rc == q.rc and blocks(r.out) == blocks(q.out), ev=ev, bad=[], must=[], links=[], n=0, r=0)
        return rec, dict(rc=r.rc, argv=argv, files=n, progress_lines=len(p), first=p[:1], last=p[-3:], stderr=r.err[-500:].decode("utf-8", "backslashreplace"))
    judge(ctx, ctx.n([300, 2000, 66000], [255, 256, 257, 4096, 65535, 65536, 65537, 150000]), many, module="ProgressTrace", what="-v does not account for the files examined")

    it = tool(ctx)
    imgs = [dict(seed=rnd.randrange(1 << 30), n=rnd.choice([1, 2, 3, 5, 9, 14]), r=rnd.randrange(1 << 30)) for _ in range(ctx.n(60, 600))]

    def igo(c, d):
        r0 = random.Random(c["r"])
        root, gen = os.path.join(d, "t"), os.path.join(d, "g")
        os.makedirs(gen)
        subprocess.run([it, "gen", gen, str(c["seed"]), str(c["n"])], check=True)
        w = World()
        n = ok = 0
        for i in range(c["n"]):
            data = open(os.path.join(gen, str(i)), "rb").read()
            spoilt = r0.random() < .2
            w.f(("a", "i%d.png" % i), r0.randbytes(r0.choice([1, 100])) if spoilt else data)
            n += 1
        if r0.random() < .3:
            w.f(("a", "readme"), b"no image")
        w.args = [(("a",), None)]
        w.materialise(root)
        o = subprocess.run([it, "dist"], input="".join(os.path.join(root, *p) + "\n" for p in w.nodes if p[-1].endswith(".png")), capture_output=True, text=True)
        ok = sum(line.split()[0] == "V" and line.split()[2] == "1" for line in o.stdout.splitlines())
        argv = ["-I"] + w.argv(root)
        r = run_cli(exe[r0.choice(["plain", "pert"])], ["-v"] + argv, root, env={"FT_JITTER": str(c["r"] % 1000)})
        q = run_cli(exe["plain"], argv, root)
        rec = dict(mode="images", same=r.rc == q.rc and r.out == q.out, ev=parse(r.err, root), bad=[], must=[], links=[], n=n, r=ok)
        return rec, describe(w, root, r, dict(stderr=r.err[-3000:].decode("utf-8", "backslashreplace")))
    judge(ctx, imgs, igo, module="ProgressTrace", what="-v in image mode does not account for the images")

    se = sched_cli(ctx)
    sw = []
    for i in range(ctx.n(40, 250)):
        w = World()
        fill(rnd, w, [("d",), ("d", "s")], rnd.randint(1, 2), rnd.choice([3, 4]), [z for z in BOUND if z and z < 5000])
        for j in range(3):
            w.f(("d", "z%d" % j), b"remaining")
        w.args = [(("d",), None)]
        w.extra = ["-j", str(rnd.choice([2, 2, 3, 4])), "-v"] + rnd.choice([[], ["-x", "1"]])
        sw.append((i, w))

    def sgo(c):
        i, w = c
        root = ctx.path("s", "c%d" % i)
        w.materialise(root)
        out = []
        for r in sched_outcomes(ctx, se, root, w.argv(root), i, ctx.n(400, 4000), err=True):
            rec = dict(mode="files", same=r.rc == 0, ev=parse(r.out, root), bad=[], must=[], links=[], n=0, r=0)
            out.append((rec, describe(w, root, r, dict(schedule=r.sched))))
        shutil.rmtree(root, ignore_errors=True)
        return out
    judge_sched(ctx, pmap(sgo, sw), "a schedule of the worker threads spoils the progress told by -v", "ProgressTrace")
    ctx.assumptions.append("the wording of the messages on standard error is that of the current tree; messages of other kinds are passed over")
