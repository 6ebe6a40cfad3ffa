"""Checks of the duplicate finder (F01-F09)."""
from twin import *

WEAK = ["-Wl,--wrap=" + f for f in ("XXH3_128bits", "XXH3_128bits_withSeed", "XXH128", "XXH3_128bits_digest")]


def cli(ctx):
    return build_cli(ctx, "ftwin")


def cli_weak(ctx):
    """The command with a one-bit checksum: every pair of same-size files collides half of the time."""
    return build_cli(ctx, "ftwin_weak", extra=["weakhash.c"], ldflags=WEAK)


def cli_strict(ctx):
    """The command under AddressSanitizer with the bounds of every pool allocation: reading beyond them or using what nobody
    wrote shows in the report or ends the run."""
    return build_cli(ctx, "ftwin_strict", extra=["strictmem.c"], flags=STRICT_C, ldflags=STRICT_L)


def chosen(exe, key, w):
    """Every third of the ordinary runs is made with the strict build."""
    if key != "plain" or "strict" not in exe or w.huge or getattr(w, "nofile", None) or zlib.crc32(repr(sorted(w.nodes)).encode("utf-8", "surrogatepass")) % 3:
        return exe[key]
    return exe["strict"]


def xxh(ctx, blobs):
    exe = ctx.path("bin", "xxh_oracle")
    if not os.path.exists(exe):
        r = subprocess.run(["gcc", "-O2", "-w", "-I" + HARNESS, os.path.join(HARNESS, "xxh_oracle.c"),
                            os.path.join(HARNESS, "oracle", "xxhash.c"), "-o", exe], capture_output=True, text=True)
        if r.returncode:
            raise CheckError(r.stderr)
    r = subprocess.run([exe], input=b"".join(b"%d %s" % (len(b), b) for b in blobs), capture_output=True)
    out = r.stdout.decode().split()
    if len(out) != len(blobs):
        raise CheckError("xxh oracle")
    return out


def huge_worlds(ctx, n, small=True):
    """Files of 2 and 4 GiB and more (sparse), next to files whose size is the same modulo 2^31 or 2^32."""
    G = 1 << 30
    out = []
    for i in range(n):
        w = World()
        z = [4 * G + 3, 2 * G + 3, 4 * G + 8192, 6 * G + 1][i % 4]
        mk = ((z - 2, 7),)
        w.f(("d", "h1"), Sparse(z, mk))
        w.f(("d", "s", "h2"), Sparse(z, mk))
        if i % 2 == 0:
            w.f(("d", "h3"), Sparse(z + 1 if i % 4 else z, ((z - 1, 7),)))
        for k, q in enumerate((z % (4 * G), z % (2 * G), 3)):
            w.f(("d", "t%d" % k), b"\0" * q if q < 1 << 20 else Sparse(q))
        w.args = [(("d",), None)]
        w.huge = True
        out.append(w)
    return out


BOUND = [0, 1, 2, 3, 7, 8, 16, 17, 128, 129, 240, 241, 1023, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, 131073, 200001]


def rbytes(rnd, n):
    return rnd.randbytes(n)


def variant(rnd, base, pos=None):
    if not base:
        return base
    n = len(base)
    if pos is None:
        c = [0, n - 1, n // 2, 65535, 65536, 65537, 131071, 131072, 4095, 4096, rnd.randrange(n)]
        pos = rnd.choice([p for p in c if p < n])
    b = bytearray(base)
    b[pos] ^= rnd.choice([1, 0x80, 0xff])
    return bytes(b)


NAMES = ["a", "b", "c", "d.txt", "e e", "f-f", "G", "h,h", "i:i", "j'j", "k\"k", "l\\l", "m\u00e9", "n\u20ac", "o\U0001F600", "p#", "q%s", "r[1]", "s*", "t?", "u\x01", "v\ttab"]


def fill(rnd, w, dirs, nsizes, maxper, sizes, names=None, mt=False):
    """Files of few sizes in equal-content classes and near misses."""
    k = 0
    for sz in rnd.sample(sizes, min(nsizes, len(sizes))):
        base = rbytes(rnd, sz)
        classes = [base]
        for _ in range(rnd.randint(0, 3)):
            classes.append(variant(rnd, rnd.choice(classes)))
        for _ in range(rnd.randint(2, maxper)):
            d = rnd.choice(dirs)
            nm = (rnd.choice(names) if names else "f") + str(k)
            k += 1
            kw = dict(mt=rnd.randrange(0, 2_000_000_000), frac=rnd.choice([0, 1, 499999999, 999999999])) if mt else {}
            w.f(d + (nm,), rnd.choice(classes), **kw)
    return w


def exec_opts(rnd, sizes):
    x = []
    if rnd.random() < .6:
        s = rnd.choice([1, 1, 100, 65536] + [z for z in sizes if z] + [z + 1 for z in sizes])
        x += ["-x", str(s)]
    if rnd.random() < .5:
        x += ["-j", str(rnd.choice([1, 2, 3, 8]))]
    if rnd.random() < .2:
        x += ["-o"]
    return x


def run_world(exe, want, user=None, so=None):
    """execute() for judge(): case = (World, exe key, json?)"""
    def go(case, d):
        w, key, js = case[:3]
        root = os.path.join(d, "t")
        w.materialise(root)
        argv = (["-J"] if js else []) + w.argv(root)
        rules = ["%s|alias|%d" % (os.path.join(root, *p), os.stat(os.path.join(root, *q)).st_ino) for p, q in w.alias] + ["/|dtype|0"] * w.dtype
        env = {"LD_PRELOAD": so, "FT_FAULTS": "\n".join(rules)} if rules else {}
        r = run_cli(chosen(exe, key, w), argv, root, user=user, env=env, timeout=150 if w.huge else 20)
        rec = json_record(w, root, r, want) if js else record(w, root, r, want)
        if js and not rec["valid"] and r.rc == 0:
            rec["out"] = [[]]
        return rec, describe(w, root, r, dict(build=key, same_inode_on_another_device=w.alias, entry_types_withheld=w.dtype))
    return go


def worlds_sound(ctx, n):
    rnd = ctx.rnd
    cases = []
    for i in range(n):
        w = World()
        dirs = [("d%d" % k,) for k in range(rnd.randint(1, 3))] + [("d0", "s")]
        sizes = BOUND if i % 3 else [z for z in BOUND if z < 5000]
        fill(rnd, w, dirs, rnd.randint(1, 4), rnd.choice([2, 3, 6, 9]), sizes)
        w.args = [((x,), None) for x in sorted({p[0] for p in w.nodes})]
        w.extra = exec_opts(rnd, sorted({len(v["data"]) for v in w.nodes.values() if v["k"] == "f"}))
        cases.append((w, rnd.choice(["plain", "weak", "weak"]), i % 4 == 3))
    return cases


def pair_worlds(ctx):
    """Exactly two or three files of one size, one differing byte, at every boundary position, both read strategies."""
    rnd = ctx.rnd
    cases = []
    for sz in [1, 2, 16, 17, 4096, 4097, 65535, 65536, 65537, 131072, 131073]:
        base = rbytes(rnd, sz)
        poss = sorted({p for p in (0, 1, sz // 2, 4095, 4096, 65534, 65535, 65536, 131071, 131072, sz - 2, sz - 1) if 0 <= p < sz})
        for pos in poss:
            b = bytearray(base)
            b[pos] ^= 0x40
            for x in ([], ["-x", "1"]):
                w = World()
                w.f(("d", "a"), base)
                w.f(("d", "b"), bytes(b))
                if (pos + sz) % 2:
                    w.f(("d", "c"), base)
                w.args = [(("d",), None)]
                w.extra = x
                cases.append((w, "weak" if pos % 2 else "plain", (pos + len(x)) % 3 == 0))
    return cases


def design(ctx, emit):
    """Model-check the design exhaustively and return the worlds it printed."""
    c = ("SPECIFICATION Spec\nINVARIANT SoundInv\nINVARIANT DisjointInv\nINVARIANT CompleteInv\n%s"
         "CONSTANTS N = %d NSizes = %d NContents = %d NHashes = 2 MaxBad = 1 Emit = %s\nCHECK_DEADLOCK FALSE\n")
    big = ctx.thorough
    res = model_check(ctx, "Twin", c % ("INVARIANT EmitInv\n" if emit else "", 4, 2, 2, "TRUE" if emit else "FALSE"), workers=4)
    worlds = []
    seen = set()
    for m in re.findall(r'"WORLD (\{.*?\})"', res.out):
        s = m.replace('\\"', '"')
        if s not in seen:
            seen.add(s)
            worlds.append(json.loads(s))
    if big:
        model_check(ctx, "Twin", c % ("PROPERTY Termination\n", 3, 2, 3, "FALSE"))
        model_check(ctx, "Twin", c % ("", 5, 1, 3, "FALSE"))
    return worlds


def design_cases(ctx, worlds, limit):
    """Concrete files with the sizes, contents and checksum collisions of the model's worlds."""
    rnd = ctx.rnd
    pool = {}
    for s in (1, 2):
        sz = {1: 37, 2: 501}[s]
        blobs = [rbytes(rnd, sz) for _ in range(64)]
        hs = xxh(ctx, blobs)
        pool[s] = {0: [], 1: []}
        for b, h in zip(blobs, hs):
            pool[s][int(h[-1], 16) & 1].append(b)
    if len(worlds) > limit:
        worlds = rnd.sample(worlds, limit)
    cases = []
    for wd in worlds:
        w = World()
        w.d("d")
        order = list(range(len(wd["w"])))
        rnd.shuffle(order)
        for k in order:
            s, c = wd["w"][k]
            data = b"" if s == 0 else pool[s][wd["h"][c - 1]][c]
            w.f(("d", "f%d" % k), data)
        w.args = [(("d",), None)]
        w.extra = rnd.choice([[], ["-x", "1"], ["-j", "1"]])
        cases.append((w, "weak", wd["j"]))
    return cases


def sparse_case(ctx, size, diffs, key="plain"):
    """Huge files, sparse on disk."""
    return (size, diffs, key)


def run_sparse(exe, want):
    def go(case, d):
        size, diffs, key, x = case
        root = os.path.join(d, "t")
        os.makedirs(os.path.join(root, "d"))
        w = World()
        w.d("d")
        for i, pos in enumerate(diffs):
            p = os.path.join(root, "d", "f%d" % i)
            with open(p, "wb") as f:
                f.truncate(size)
                if pos is not None:
                    f.seek(pos)
                    f.write(b"x")
            w.nodes[("d", "f%d" % i)] = dict(k="f", data=b"%d" % (-1 if pos is None else pos))
        w.args = [(("d",), None)]
        w.extra = x
        r = run_cli(exe[key], w.argv(root), root, timeout=240)
        rec = record(w, root, r, want)
        for n in rec["w"]["nodes"]:
            n["sz"] = 0 if n["k"] == "d" else 2000000000
        return rec, dict(describe(w, root, r), size=size, differing_positions=diffs)
    return go


def f01(ctx):
    worlds = design(ctx, True)
    exe = dict(plain=cli(ctx), strict=cli_strict(ctx), weak=cli_weak(ctx))
    cases = design_cases(ctx, worlds, ctx.n(200, 5000)) + pair_worlds(ctx) + worlds_sound(ctx, ctx.n(160, 3000))
    judge(ctx, cases, run_world(exe, ["sound"]), what="files that differ were reported as duplicates, or the run failed")
    G = 1 << 30
    huge = [(60 * 1024 * 1024, [None, 60 * 1024 * 1024 - 1, None], "plain", []), (4 * G + 4096, [None, 4 * G + 100], "plain", []),
            (40 * 1024 * 1024, [None, 40 * 1024 * 1024 - 1], "plain", [])]
    if ctx.thorough:
        huge += [(2 * G + 4096, [None, 2 * G + 100, 2 * G + 4095], "plain", []), (4 * G, [None, 4 * G - 1, 0], "weak", []),
                 (6 * G + 1, [None, 6 * G, 5 * G], "weak", ["-j", "2"])]
    judge(ctx, huge, run_sparse(exe, ["sound"]), what="files that differ were reported as duplicates")
    ctx.cov["exhaustive"] = False
    ctx.assumptions += ["The file system returns the bytes written by the driver.", "Weak-checksum build: only the XXH3 functions are replaced."]


# ---------------------------------------------------------------- F02
def overlap_worlds(ctx, n):
    """Several arguments, some inside others, files named directly, repeated, reached by different spellings."""
    rnd = ctx.rnd
    cases = []
    for i in range(n):
        w = World()
        dirs = [("d0",), ("d0", "s"), ("d0", "s", "t"), ("d1",), ("d1", "u")]
        for d in dirs:
            w.d(*d)
        fill(rnd, w, dirs, rnd.randint(1, 3), rnd.choice([2, 3, 5]), [0, 1, 5, 300, 4096, 65537])
        ents = [p for p in w.nodes]
        for _ in range(rnd.randint(1, 4)):
            p = rnd.choice(ents)
            rel = "/".join(p)
            sp = [None, rel, "./" + rel]
            if w.nodes[p]["k"] == "d":
                sp += [rel + "/", "d1/../" + rel, "./" + rel + "/"]
            w.args.append((p, rnd.choice(sp)))
        w.extra = exec_opts(rnd, [])
        cases.append((w, rnd.choice(["plain", "weak"]), rnd.random() < .3))
    return cases


def many_worlds(ctx):
    """Many sizes (table growth) and many files of one size (heap depth)."""
    rnd = ctx.rnd
    out = []
    for k, (nsz, per) in enumerate(ctx.n([(150, 2), (3, 60)], [(150, 2), (3, 60), (700, 2), (2, 250), (300, 3)])):
        w = World()
        w.d("d")
        c = 0
        for s in range(nsz):
            sz = 1 + s * 3
            base = rbytes(rnd, sz)
            cl = [base, variant(rnd, base), variant(rnd, base)]
            for _ in range(per):
                w.f(("d", "x%d" % (c % 7), "f%d" % c), rnd.choice(cl))
                c += 1
        w.args = [(("d",), None)]
        w.extra = ["-j", str(rnd.choice([1, 4]))]
        out.append((w, "plain", k % 2 == 1))
    return out


def scale_worlds(ctx, n):
    """Long names, deep trees, many arguments, wide directories: nothing but size is special."""
    rnd, out = ctx.rnd, []
    for k in range(n):
        w = World()
        kind = k % 4
        if kind == 0:           # deep, short names
            depth = rnd.choice([33, 50, 65, 100, 129]) if k else 130
            at = sorted({depth, depth - 1, rnd.randrange(1, depth), rnd.randrange(1, depth), 31 if depth > 31 else 1})
            for d in at:
                for c in "pq":
                    w.f(("r",) + ("d",) * d + ("f" + c,), b"deep" if c == "p" else b"%04d" % (d % 3))
        elif kind == 1:         # long names, paths of thousands of bytes
            name = lambda z: "".join(rnd.choice("abcxyz_-.1") for _ in range(z - 1)).lstrip(".-") + "n"
            p = ("r",)
            for _ in range(rnd.choice([3, 8, 13])):
                p += (name(rnd.choice([200, 250, 255])),)
                w.f(p + (name(rnd.choice([1, 100, 255])),), rnd.choice([b"one", b"two"]))
                w.f(p + ("f" + name(254),), b"one")
        elif kind == 2:         # many arguments, files and directories, some twice
            for i in range(rnd.choice([40, 70])):
                w.f(("r", "a%d" % i, "f"), b"%d" % (i % 6))
                w.f(("r", "a%d" % i, "g"), b"%d" % (i % 4))
        else:                   # one wide directory, files of many sizes
            m = rnd.choice([130, 260])
            for i in range(m):
                w.f(("r", "n%d" % i), b"x" * (i // 2 if i % 9 else 7))
        w.args = [(("r",), rnd.choice(["r", None, "./r/"]))]
        if kind == 2:
            ps = [p for p in w.nodes if len(p) > 1]
            rnd.shuffle(ps)
            w.args = [(p, None) for p in ps[:rnd.choice([35, 60, 90])]]
            w.args += rnd.sample(w.args, 3)
        w.extra = exec_opts(rnd, [])
        out.append((w, rnd.choice(["plain", "plain", "weak"]), k % 8 >= 4))
    return out


def run_bulk(exe):
    """expect: list of numbers of files per content; all contents have the same size."""
    def go(case, d):
        expect, x, js = case
        root = os.path.join(d, "t")
        os.makedirs(root)
        files = [c for c, n in enumerate(expect) for _ in range(n)]
        random.Random(len(files)).shuffle(files)
        for i, c in enumerate(files):
            if i % 2000 == 0:
                os.mkdir(os.path.join(root, "d%d" % (i // 2000)))
            with open(os.path.join(root, "d%d" % (i // 2000), "f%d" % i), "wb") as f:
                f.write(b"%04d" % c)
        r = run_cli(exe["plain"], (["-J"] if js else []) + x + [root], root, timeout=120)
        if js:
            try:
                gs = [[e["path"] for e in g["duplicates"]] for g in json.loads(r.out)]
            except Exception:
                gs = [["?"]]
        else:
            gs = parse_text(r.out, "\n", False)
        groups = []
        for g in gs:
            cs = set()
            for m in g:
                k = m.rsplit("/f", 1)[-1]
                cs.add(files[int(k)] + 1 if k.isdigit() and int(k) < len(files) else 0)
            groups.append(dict(members=len(g), distinct=len(set(g)), contents=sorted(cs)))
        return (dict(want=["success", "bulk"], rc=r.rc, groups=groups, expect=expect),
                dict(files_per_content=expect, argv=r.argv, rc=r.rc, groups=groups[:20], stderr=r.err.decode("utf-8", "replace")[-300:]))
    return go


def f02(ctx):
    worlds = design(ctx, True)
    exe = dict(plain=cli(ctx), strict=cli_strict(ctx), weak=cli_weak(ctx))
    cases = (many_worlds(ctx) + design_cases(ctx, worlds, ctx.n(260, 5000)) + overlap_worlds(ctx, ctx.n(160, 2500)) +
             worlds_sound(ctx, ctx.n(140, 2500)))
    cases = [cases[0]] + sorted(cases[1:], key=lambda c: ctx.rnd.random())
    judge(ctx, cases, run_world(exe, ["partition", "exit"]), what="the report is not the partition into equal-content groups")
    bulk = [([200, 150, 1, 2, 700, 1], [], False), ([300, 40, 1, 2], ["-x", "1"], True), ([65540, 1, 3], ["-j", "8"], False)]
    if ctx.thorough:
        bulk += [([40000, 30000, 1, 3], [], True), ([1] * 3000 + [2] * 3000, [], False)]
    judge(ctx, [(w, "plain", i % 2 == 1) for i, w in enumerate(huge_worlds(ctx, ctx.n(2, 4)))], run_world(exe, ["partition", "exit"]),
          what="the report is not the partition into equal-content groups")
    judge(ctx, scale_worlds(ctx, ctx.n(16, 80)), run_world(exe, ["partition", "exit"]), what="the report is not the partition into equal-content groups")
    judge(ctx, bulk, run_bulk(exe), what="the report is not the partition into equal-content groups")
    ctx.assumptions += ["Weak-checksum build: only the XXH3 functions are replaced."]


# ---------------------------------------------------------------- F03
FNAMES = ["a.txt", "B.TXT", "b.txt", "c.jpg", "C.JPG", ".hid", ".a.txt", "skip", "skipme", "keep", "x", "Sub.txt", "dat(1)", "p+q", "e f"]
DNAMES = ["sub", "Sub", "deep", ".hd", "skip", "data.txt", "x y", "l1"]


def alt(rnd, w):
    """One regex alternative cut out of a path of the world."""
    ps = ["/".join(p) for p in w.nodes]
    s = rnd.choice(ps)
    if rnd.random() < .35:
        s = s.swapcase() if rnd.random() < .5 else s.lower()
    k = rnd.choice(["infix", "suffix", "infix", "suffix", "prefix", "exact"])
    if k == "suffix":
        s = s[-rnd.randint(1, min(6, len(s))):]
    elif k == "infix":
        i = rnd.randrange(len(s))
        s = s[i:i + rnd.randint(1, 6)]
    elif k == "prefix":
        s = s[:rnd.randint(1, len(s))]
    return dict(k=k, l=list(s))


def filter_world(rnd, links, odd=False):
    w = World()
    FN, DN = FNAMES, DNAMES
    if odd:
        FN = rnd.sample(FNAMES, 6) + ["a.txt\n", "n\nl.txt", "caf\u00e9.TXT", "caf\u00c9.txt", "\udcff\udc80.txt", "x" * 200, "y" * 254, "\u65e5", "tab\tq", "-q", "\\n"]
        DN = rnd.sample(DNAMES, 3) + ["d\nd", "\u00e9", "\udcc3(", "z" * 150, "q\n"]
        w.opts["sep"] = "|"
    dirs = [("r",)]
    for _ in range(rnd.choice([3, 8, 15]) if odd else rnd.randint(1, 5)):
        d = rnd.choice(dirs) + (rnd.choice(DN),)
        if len(d) < (9 if odd else 5) and d not in dirs:
            dirs.append(d)
            w.d(*d)
    w.d("r")
    sizes = rnd.sample([0, 1, 2, 9, 10, 11, 1023, 1024, 1025], rnd.randint(1, 3))
    conts = {z: rbytes(rnd, z) for z in sizes}
    for d in dirs:
        for nm in rnd.sample(FN, rnd.randint(0, 4)):
            if d + (nm,) not in w.nodes:
                w.f(d + (nm,), conts[rnd.choice(sizes)])
    if links:
        ents = list(w.nodes)
        for k in range(rnd.randint(1, 4)):
            t = rnd.choice(ents + [("nowhere",), ("r", "gone")])
            w.ln(rnd.choice(dirs) + ("ln%d" % k,), t)
            ents.append(None)
            ents.pop()
        if rnd.random() < .5:
            # a link to a link
            ls = [p for p in w.nodes if w.nodes[p]["k"] == "l"]
            w.ln(rnd.choice(dirs) + ("lnln",), rnd.choice(ls))
    for k, z in enumerate(sizes):
        w.f(("anchor%d" % k,), conts[z])
    o = w.opts = dict(DEFOPTS, sep=w.opts["sep"])
    if rnd.random() < .4:
        o["min"] = rnd.choice(sizes + [z + 1 for z in sizes])
    if rnd.random() < .4:
        o["max"] = max(1, rnd.choice(sizes + [z - 1 for z in sizes if z]))
    o["hidden"] = rnd.random() < .5
    if rnd.random() < .4:
        o["ilist"] = [rnd.choice(FN + DN) for _ in range(rnd.randint(1, 3))]
        if rnd.random() < .3:
            o["ilist"].append(o["ilist"][0])
        if rnd.random() < .25:      # long lists
            o["ilist"] = ["no%d" % k for k in range(rnd.choice([30, 90, 400]))] + o["ilist"] + ["nix%d" % k for k in range(rnd.choice([0, 60]))]
        o["ilist"] = [x for x in o["ilist"] if "," not in x]
    o["icase"] = rnd.random() < .35
    if rnd.random() < .4:
        o["ere"] = [alt(rnd, w) for _ in range(rnd.randint(1, 2))]
    if rnd.random() < .4:
        o["wre"] = [alt(rnd, w) for _ in range(rnd.randint(1, 3))]
    o["rec"] = rnd.random() < .8
    o["follow"] = links and rnd.random() < .7
    w.args = [(("r",), rnd.choice(["r", "r", "./r", "r/", None]))] + [(("anchor%d" % k,), "anchor%d" % k) for k in range(len(sizes))]
    return w


def long_filter_worlds(rnd, n):
    """Expressions that decide at one place of a long path: near the end, in the middle, across hundreds of characters."""
    out = []
    for k in range(n):
        w = World()
        p, dirs = ("r",), [("r",)]
        for _ in range(rnd.choice([3, 7, 12, 40])):
            p += (rnd.choice("abcd") * rnd.choice([1, 3, 30, 90, 200]) if len(p) < 14 else rnd.choice("ab"),)
            dirs.append(p)
        for d in dirs[-4:] + rnd.sample(dirs, 2):
            for nm in ("keep.txt", "drop.bak", "e" * 120 + ".txt", "m" * 250):
                if rnd.random() < .7:
                    w.f(d + (nm,), b"z")
        fs = [q for q in w.nodes if w.nodes[q]["k"] == "f"] or [("r", "x")]
        o = w.opts
        disp = rnd.choice(["r", "./r", None])
        for key in rnd.choice((("ere",), ("wre",), ("ere", "wre"))):
            alts = []
            for _ in range(rnd.choice([1, 1, 2])):
                t = "/".join(rnd.choice(fs))
                if rnd.random() < .3:
                    t = rnd.choice(["keep.txt", ".bak", "eee.txt", "mmm", "e" * 120, "a/b"])
                    alts.append(dict(k=rnd.choice(["suffix", "infix"]), l=list(t)))
                else:
                    z = rnd.choice([1, 10, 100, len(t) // 2 + 1, len(t)])
                    c = rnd.random()
                    alts.append(dict(k="suffix", l=list(t[-z:])) if c < .5 else dict(k="exact", l=list(t)) if c < .6 and disp == "r" else dict(k="infix", l=list(t[len(t) // 2:][:z])))
            o[key] = alts
        o["icase"] = rnd.random() < .2
        w.f(("anchor",), b"z")
        w.args = [(("r",), disp), (("anchor",), "anchor")]
        out.append((w, "plain", k % 3 == 2))
    return out


def f03(ctx):
    rnd = ctx.rnd
    exe = dict(plain=cli(ctx), strict=cli_strict(ctx))
    cases = [(filter_world(rnd, i % 2 == 1, i % 5 == 4), "plain", False) for i in range(ctx.n(560, 8000))]
    cases += long_filter_worlds(rnd, ctx.n(60, 800))
    # size bounds, exactly
    for z in (0, 1, 2, 1023, 1024, 1025):
        for lo, hi in ((z, 0), (z + 1, 0), (max(z - 1, 0), 0), (0, z), (0, z + 1), (0, max(z - 1, 0)), (z, z)):
            w = World()
            for nm in ("a", "b"):
                w.f(("r", nm), b"q" * z)
            w.f(("r", "c"), b"q" * 700)
            w.f(("r", "d"), b"q" * 700)
            w.opts["min"], w.opts["max"] = lo, hi
            w.args = [(("r",), "r")]
            cases.append((w, "plain", False))
    # file systems that do not tell entry types, and inode numbers that occur on two devices
    for w, _, _ in cases:
        w.dtype = rnd.random() < .15
        ds = [p for p in w.nodes if w.nodes[p]["k"] == "d" and len(p) > 1]
        if ds and not w.opts["follow"] and rnd.random() < .5:
            p = rnd.choice(ds)
            w.alias = [(p, p[:rnd.randint(1, len(p) - 1)])]
    G = 1 << 30
    for k, (lo, hi) in enumerate([(0, 3 * G), (0, 4 * G - 1), (5 * G, 0), (2 * G, 0), (1, 4 * G + 2), (4 * G + 4, 0), (4 * G + 3, 4 * G + 3)]):
        w = huge_worlds(ctx, 1)[0]
        w.f(("d", "x1"), b"abc")
        w.f(("d", "x2"), b"abc")
        w.nodes.pop(("d", "h3"))
        w.opts["min"], w.opts["max"] = lo, hi
        if k not in (3, 6) or ctx.thorough or k == 6:
            cases.append((w, "plain", False))
    judge(ctx, cases, run_world(exe, ["partition", "exit"], so=fault_so(ctx)), what="the files considered are not those the options select")
    ctx.assumptions += ["Regular expressions are drawn from alternatives of literal prefix, suffix, infix and whole-string tests."]


# ---------------------------------------------------------------- F04
GN = ["a", "b", "c", "ab", "abc", "a.o", "b.c", "x.o", "a b", "a+b", "(a)", "a$", "{b}", "a|b", "^a", "A", "a-b", "z9", "foo", "foo.c", "bar", "build", "out",
      "main.pyc", "a~", "target", "n.swp", "dist", "binx", "#a", "!a", "a*", "a?b", "[a]", "s ", "\\a", "a{2}", "aa", "b{1,}", "B", "Foo", "a]", "]", "-", "a.", "aXo", "a+", "x^", "x|y", "(", "a-c", "_", "a**b", "a=b", "a,b"]
GD = ["a", "b", "c", "foo", "bar", "build", "lib", "a.o", "sub", "x", "out", "vendor", "b.c", "a b", "a{2}", "Sub", "a]", "aa"]


def glob_of(rnd, name):
    r = rnd.random()
    if r < .35:
        return "".join("\\" + c if c in "*?[\\" or (rnd.random() < .06 and c not in "/") else c for c in name)
    s = list(name)
    k = rnd.random()
    i = rnd.randrange(len(s))
    if k < .3:
        s[i:i + rnd.randint(1, len(s))] = ["*"]
    elif k < .5:
        s[i] = "?"
    elif k < .75:
        c = s[i]
        s[i] = rnd.choice(["[%s]" % c if c.isalnum() else "[ab]", "[a-c]", "[!x]", "[^a]", "[b-z]", "[0-9]", "[abc]", "[A-Z]", "[!A-Z]", "[]%s]" % (c if c.isalnum() else "a"), "[!]a]", "[^]]", "[\\]ab]", "[a\\-c]", "[a-c-e]", "[-a]", "[a-]",
                           "[.+{}()|^$]", "[ab", "[]", "[%-.]", "[*]", "[?]", "[a-zA-Z0-9_]"])
    elif k < .85:
        s = ["*"] + s[i:]
    elif k < .92:
        s = ["*", "*"] + s[i:]
    else:
        s = s[:i] + ["*"]
    return "".join(s)


def git_pattern(rnd, paths):
    """A pattern cut out of a path below the ignore file's directory, generalised; sometimes unrelated."""
    if rnd.random() < .07:
        return rnd.choice(["", "#a", "  ", "# comment", "*", "**", "/", "!", "!/", "**/", "/**", "\\#a", "\\!a", "!*", "*/"])
    p = rnd.choice(paths) if paths and rnd.random() < .93 else (rnd.choice(GD), rnd.choice(GN))
    p = list(p)
    r = rnd.random()
    if r < .45:
        p = [p[-1]]
    elif r < .6 and len(p) > 1:
        p = p[-2:]
    elif r < .75:
        p = p[:rnd.randint(1, len(p))]
    comps = [glob_of(rnd, c) if rnd.random() < .6 else "".join("\\" + x if x in "*?[\\" else x for x in c) for c in p]
    if rnd.random() < .15:
        comps.insert(rnd.randrange(len(comps) + 1), "**")
    s = "/".join(comps)
    if len(comps) > 1 and rnd.random() < .2:  # a wildcard where the path has a slash
        i = rnd.choice([k for k, x in enumerate(s) if x == "/"])
        s = s[:i] + rnd.choice(["?", "*", "[!x]", "**", "[^ab]", "[.-9]"]) + s[i + 1:]
    if rnd.random() < .25:
        s = "/" + s
    if rnd.random() < .25:
        s += "/"
    if rnd.random() < .25:
        s = "!" + s
    elif s[:1] in "#!":
        s = "\\" + s
    if rnd.random() < .06:
        s += rnd.choice([" ", "  ", "\t"])
    if rnd.random() < .03:
        s = " " + s
    return s


def sane(pat):
    """Patterns whose meaning gitignore leaves unclear are left out: a trailing backslash, a slash in a class, named classes, '***',
    a blank the shell-like trimming treats specially."""
    b = pat.strip(" \t")
    if b.endswith("\\") or "***" in b or "//" in b or "\\ " in b or "\\\t" in b or "\\/" in b:
        return False
    i = 0
    while i < len(b):
        if b[i] == "\\":
            i += 2
            continue
        if b[i] == "[":
            j = i + 1
            if b[j:j + 1] in ("!", "^"):
                j += 1
            st = j
            if b[j:j + 1] == "]":
                j += 1
            while j < len(b) and b[j] != "]":
                j += 2 if b[j] == "\\" else 1
            inner = b[st:j]
            if j > len(b) or "/" in inner or any(x in inner for x in ("[:", "[.", "[=")):
                return False
            for k in range(1, len(inner) - 1):
                if inner[k] == "-" and inner[k + 1] < inner[k - 1]:
                    return False
            if j == len(b):   # never closed: the rest is no pattern at all
                return "/" not in b[i:]
            i = j + 1
            continue
        i += 1
    return True


NLN = ["a\n", "x.o\n", "a\nb", "\na", "ab\n", "x\n.o", "\n"]


def ignore_world(rnd, nl=False):
    w = World()
    dirs = [("r",)]
    w.d("r")
    for _ in range(rnd.randint(1, 6)):
        d = rnd.choice(dirs) + (rnd.choice(GD),)
        if len(d) <= 5 and d not in dirs:
            dirs.append(d)
            w.d(*d)
    data = b"same"
    names = GN + NLN if nl else GN
    for d in dirs:
        for nm in rnd.sample(names, rnd.randint(0, 6 if nl else 4)):
            if d + (nm,) not in w.nodes and nm not in [x[-1] for x in dirs if x[:-1] == d]:
                w.f(d + (nm,), data)
    if rnd.random() < .3:
        for nm in rnd.sample([".git", ".svn", ".venv", ".idea", "node_modules"], 2):
            d = rnd.choice(dirs)
            w.f(d + (nm, "in"), data)
    allp = [p for p in w.nodes]
    for d in rnd.sample(dirs, min(len(dirs), rnd.choice([1, 1, 2, 3]))):
        below = [p[len(d):] for p in allp if len(p) > len(d) and p[:len(d)] == d]
        lines = []
        for _ in range(rnd.randint(1, 5)):
            s = git_pattern(rnd, below)
            while "\n" in s:  # not expressible in an ignore file
                s = s.replace("\n", rnd.choice(["?", "*", "", "[!b]"]), 1)
            if sane(s):
                lines.append(s)
        if rnd.random() < .04:  # lines longer than any buffer
            n = rnd.choice([4094, 4095, 4096, 4097, 8190, 8191, 10000])
            lines.insert(rnd.randrange(len(lines) + 1), rnd.choice(["#" + "x" * (n - 1) + rnd.choice(["*", "a", ""]), " " * n + (lines[0] if lines else "a"), "a" * n + "*"]))
        if rnd.random() < .1:
            lines = [x + "\r" for x in lines]
        w.f(d + (".gitignore",), ("\n".join(lines) + ("\n" if rnd.random() < .8 else "")).encode())
    w.f(("anchor",), data)
    w.opts["hidden"] = rnd.random() < .5
    w.args = [(("r",), rnd.choice(["r", "./r", "r/", None, None])), (("anchor",), "anchor")]
    if rnd.random() < .15 and len(dirs) > 1:
        w.args[0] = (dirs[1], rnd.choice([None, "/".join(dirs[1])]))
    return w


def fixed_ignore_worlds():
    """Hand-picked shapes: precedence between levels, re-inclusion, anchoring, directories only, built-ins."""
    T = {
        "r/x/keep.o": 1, "r/x/a": 1, "r/a": 1, "r/b/a": 1, "r/b/x/a": 1, "r/build/a": 1, "r/b/build/a": 1, "r/sub/build": 1, "r/foo/bar/a": 1, "r/bar": 1,
        "r/foo/b/bar": 1, "r/ab": 1, "r/b/ab": 1, "r/abc": 1, "r/x.o": 1}
    S = [
        {"r": ["*.o"], "r/x": ["!keep.o"]}, {"r": ["!*.o"]}, {"r": ["!x.o"], "r/x": ["keep.o"]}, {"r": ["a", "!a"]}, {"r": ["!a", "a"]},
        {"r": ["/a"]}, {"r": ["b/a"]}, {"r": ["**/a"]}, {"r": ["b/**"]}, {"r": ["b/**/a"]}, {"r": ["foo/**/bar"]}, {"r": ["foo/*"]}, {"r": ["foo/*/a"]},
        {"r": ["bar/"]}, {"r": ["!build/"]}, {"r": ["build"]}, {"r": ["x/"], "r/x": ["!a"]}, {"r": ["x"], "r/b": ["!x"]}, {"r": ["*", "!b/", "!b/a"]},
        {"r": ["*", "!*/", "!a"]}, {"r": ["a?"]}, {"r": ["a[bc]"]}, {"r": ["[!a]b"]}, {"r": ["a*c"]}, {"r/b": ["a"]}, {"r/b": ["/a"]}, {"r/b": ["x/a"]},
        {"r/b": ["../a"]}, {"r": ["r/a"]}, {"r": ["anchor"]}, {"r": ["a", ""]}, {"r": ["a  "]}, {"r": ["#a", "\\#a"]}, {"r": ["a\r"]}, {"r": ["b/"], "r/b": ["!a"]},
        {"r": ["foo/bar"], "r/foo": ["!bar"]}, {"r": ["foo/bar"], "r/foo/bar": ["!a"]}]
    out = []
    for s in S:
        for hid in (False, True):
            for disp in ("r", None, "./r"):
                w = World()
                for p in T:
                    w.f(tuple(p.split("/")), b"same")
                for d, lines in s.items():
                    w.f(tuple(d.split("/")) + (".gitignore",), ("\n".join(lines) + "\n").encode())
                w.f(("anchor",), b"same")
                w.opts["hidden"] = hid
                w.args = [(("r",), disp), (("anchor",), "anchor")]
                out.append((w, "plain", False))
    return out


def reinclusion_worlds(rnd, n):
    """Pairs (what is ignored, what is re-included) over one deep tree: which of the levels each pattern reaches decides the outcome."""
    T = ["r/foo/bar/a", "r/foo/a", "r/foo/b/bar", "r/foo/bar/deep/a", "r/foo/bar/deep/er/a", "r/x/foo/bar/a", "r/x/a", "r/a", "r/bar/foo/a", "r/bar/bar/a"]
    ign = ["*", "**", "/*", "/**", "foo/*", "foo/**", "/foo/**", "**/foo/**", "**/foo/*", "foo/**/a", "**/bar/*", "foo/*/**", "**/a", "a", "foo/bar/**", "*/**", "*/*", "**/", "*/", "foo/**/", "*/*/"]
    inc = ["!foo/", "!foo/bar/", "!foo/bar", "!*/", "!**/", "!/foo", "!**/bar/", "!foo/*/", "!foo/*", "!foo/**", "!bar", "!**/deep/", "!foo/**/deep", "!x/", "!/*/", "!foo/bar/deep/", "!/foo/**/"]
    out = []
    for _ in range(n):
        w = World()
        for p in T:
            w.f(tuple(p.split("/")), b"same")
        k = rnd.random()
        one = [rnd.choice(ign)] + rnd.sample(inc, rnd.choice([1, 1, 2, 3]))
        if k < .25:
            one.insert(rnd.randrange(len(one) + 1), rnd.choice(ign))
        if k < .6:
            files = {"r": one}
        else:
            files = {"r": one[:-1], rnd.choice(["r/foo", "r/foo", "r/x", "r/foo/bar"]): [rnd.choice(["!a", "!bar/", "!bar", "!*", "!*/", "!**", "a", "*/", "**/a", "!**/deep/"])] if k < .8 else one[-1:]}
        for d, lines in files.items():
            w.f(tuple(d.split("/")) + (".gitignore",), ("\n".join(lines) + "\n").encode())
        w.f(("anchor",), b"same")
        w.opts["hidden"] = rnd.random() < .5
        w.args = [(("r",), rnd.choice(["r", None, "./r"])), (("anchor",), "anchor")]
        out.append((w, "plain", False))
    return out


def large_ignore_worlds(rnd, n):
    """Ignore files with hundreds of lines of which few decide, ignore files on every level of a deep tree, long patterns."""
    out = []
    for k in range(n):
        w = World()
        depth = rnd.choice([1, 3, 7, 9, 12, 20])
        p, dirs = ("r",), [("r",)]
        for i in range(depth):
            p += ("d%d" % (i % 3),)
            dirs.append(p)
        names = ["a", "b", "c", "a.x", "b.x", "L" * 200 + "a"]
        for d in dirs if k % 2 else [dirs[0], dirs[-1], dirs[len(dirs) // 2]]:
            for nm in rnd.sample(names, 3):
                w.f(d + (nm,), b"same")
        tail = lambda d: [q[len(d):] for q in w.nodes if w.nodes[q]["k"] == "f" and len(q) > len(d) and q[:len(d)] == d]

        def deciding(d):
            q = rnd.choice(tail(d) or [("a",)])
            c = rnd.random()
            return rnd.choice(["", "", "!"]) + (q[-1] if c < .3 else "/".join(q) if c < .6 else "/" + "/".join(q) if c < .7 else "*" + q[-1][-2:] if c < .8 else "**/" + "/".join(q[-2:]) if c < .9 else "L*a")
        every = k % 2 == 1
        for d in (dirs if every and rnd.random() < .6 else rnd.sample(dirs, min(len(dirs), 3))):
            lines = [deciding(d) for _ in range(rnd.randint(1, 3))]
            if not every:
                m = rnd.choice([20, 70, 130, 200])
                lines = ["no%d%s" % (i, rnd.choice(["", "*", ".q", "/"])) for i in range(m)] + lines + ["nix%d" % i for i in range(rnd.choice([0, 0, 5, 70]))]
                if rnd.random() < .3:
                    lines.insert(0, deciding(d))
            w.f(d + (".gitignore",), ("\n".join(lines) + "\n").encode())
        w.f(("anchor",), b"same")
        w.args = [(("r",), rnd.choice(["r", None, "./r"])), (("anchor",), "anchor")]
        out.append((w, "plain", False))
    return out


def f04(ctx):
    rnd = ctx.rnd
    exe = dict(plain=cli(ctx), strict=cli_strict(ctx))
    fx = fixed_ignore_worlds()
    if not ctx.thorough:
        fx = [c for i, c in enumerate(fx) if i % 2 == ctx.seed % 2]
    fx += reinclusion_worlds(rnd, ctx.n(500, 6000))
    fx += large_ignore_worlds(rnd, ctx.n(50, 600))
    cases = fx + [(ignore_world(rnd), "plain", False) for _ in range(ctx.n(800, 14000))]
    cases += [(ignore_world(rnd, True), "plain", True) for _ in range(ctx.n(240, 4000))]
    for w, _, _ in cases[len(fx):]:
        w.dtype = rnd.random() < .1
    judge(ctx, cases, run_world(exe, ["partition", "exit"], so=fault_so(ctx)), what="the files considered are not those the ignore rules leave")


# ---------------------------------------------------------------- F05
SCHEDW = ["-Wl,--wrap=" + f for f in ("apr_file_open", "apr_file_close", "apr_file_read", "apr_mmap_delete", "puzzle_fill_cvec_from_file")]
STRATS = [("dfs", 0, 0, 2, 0, 1), ("rand", 0, 2, 0, 0, 1), ("rand", 1, 0, 0, 0, .5), ("pct", 0, 0, 3, 400, 1), ("pct", 1, 1, 4, 6000, .5)]


def sched_cli(ctx):
    from c_pool import sched_build
    return sched_build(ctx, ["cli_sched.c"], "cli_sched", ["ft_process.c", "ft_image.c", "napr_threadpool.c"], ldflags=SCHEDW)


def sched_outcomes(ctx, exe, root, argv, i, count, err=False):
    """Every distinct outcome of the command over many schedules of its threads: list of Run."""
    st, mem, spur, pre, est, f = STRATS[i % len(STRATS)]
    cmd = [exe, st, str(ctx.seed * 7919 + i * 100003), str(int(count * f)), str(mem), str(spur), str(pre), str(est)] + argv
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent"}
    if err:
        e["FT_SCHED_ERR"] = "1"
    outs = []

    def run(rc, out, err=b""):
        r = Run()
        r.rc, r.out, r.err, r.argv = rc, out, err, argv
        r.sched = " ".join(cmd[1:8])
        return r
    try:
        p = subprocess.run(cmd, cwd=root, env=e, capture_output=True, timeout=ctx.n(120, 900))
        txt, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired:
        HUNG.append(1)
        return [run(1003, b"", b"does not end")]
    for line in txt.split(b"\n"):
        f = line.split(b" ")
        if f[0] == b"O":
            o = bytes.fromhex(f[3].decode())
            outs.append(run(int(f[2]), b"", b"threads stuck: " + o) if f[2] in (b"1001", b"1002") else run(int(f[2]) & 255, o))
        elif f[0] == b"N":
            ctx.add("schedules_executed", int(f[1]))
            ctx.add("schedule_spaces_exhausted", int(f[2]))
    if rc or not outs:
        outs.append(run(1000 - rc if rc < 0 else 1004, b"", b"crashed"))
    return outs


def judge_sched(ctx, outcomes, what, module="TwinTrace"):
    """outcomes: (record, description) of every distinct outcome; an outcome is an output of the real command under some schedule."""
    outcomes = [x for l in outcomes if l is not None for x in l]
    bad = check_records(ctx, module, [x[0] for x in outcomes])
    if bad is not None:
        raise Violation("%s (%s)" % (what, bad[1]), outcomes[bad[0]][1])
    ctx.add("distinct_outcomes_over_schedules", len(outcomes))


PERT = ["-Wl,--wrap=" + f for f in ("apr_file_open", "apr_file_close", "apr_thread_mutex_lock", "apr_thread_mutex_unlock")]


def f05(ctx):
    rnd = ctx.rnd
    exe = dict(plain=cli(ctx), pert=build_cli(ctx, "ftwin_pert", extra=["perturb.c"], ldflags=PERT), weak=cli_weak(ctx))
    cases = []
    for i in range(ctx.n(50, 700)):
        w = World()
        dirs = [("d%d" % k,) for k in range(3)] + [("d0", "s"), ("d1", "s")]
        for d in dirs:
            w.d(*d)
        sizes = BOUND if i % 2 else [z for z in BOUND if z < 5000]
        fill(rnd, w, dirs, rnd.randint(2, 4), rnd.choice([3, 6, 12]), sizes)
        if rnd.random() < .3:
            w.opts["min"] = 2
        w.args = [(("d%d" % k,), None) for k in range(3)]
        cases.append(w)

    def go(w, d):
        root = os.path.join(d, "t")
        w.materialise(root)
        runs, desc = [], []
        szs = sorted({len(n["data"]) for n in w.nodes.values() if n["k"] == "f"})
        variants = [("plain", [], False), ("plain", ["-j", "1"], False), ("pert", ["-j", "8"], False), ("pert", ["-j", "3"], True),
                    ("plain", ["-x", "1"], False), ("plain", ["-x", str(max(szs[-1], 1))], False), ("plain", ["-x", str(szs[len(szs) // 2] + 1)], True),
                    ("plain", ["-o", "-v"], False), ("plain", ["-n"], False), ("plain", ["-d"], False), ("plain", ["-s", ","], False),
                    ("plain", [], True), ("plain", [], False), ("weak", ["-j", "2"], False), ("plain", ["-j", "256", "-x", "1"], True)]
        r0 = random.Random(len(w.nodes) * 7919 + szs[-1])
        for key, x, js in variants:
            args = list(w.args)
            r0.shuffle(args)
            w2 = World()
            w2.nodes, w2.args, w2.opts = w.nodes, args, dict(w.opts)
            w2.extra = list(x)
            if "-s" in x:
                w2.opts["sep"] = ","
                w2.extra = []
            if "-d" in x:
                w2.opts["sized"] = True
                w2.extra = []
            argv = (["-J"] if js else []) + w2.argv(root)
            r = run_cli(exe[key], argv, root, env={"FT_JITTER": str(r0.randrange(1, 100000))})
            rec = json_record(w2, root, r, []) if js else record(w2, root, r, [])
            gs = sorted(sorted("/".join(m["p"]) for m in g) for g in rec["out"])
            runs.append(dict(ok=r.rc == 0 and rec.get("valid", True), groups=gs))
            desc.append(dict(argv=[a.replace(root, "$ROOT") for a in argv], build=key, rc=r.rc, groups=gs))
        return dict(want=["agree"], runs=runs), dict(tree={"/".join(p): len(n.get("data", b"")) for p, n in w.nodes.items()}, runs=desc)
    judge(ctx, cases, go, what="executions of one scan disagree")
    se = sched_cli(ctx)
    sw = []
    for i in range(ctx.n(60, 300)):
        w = World()
        dirs = [("d",), ("d", "s")]
        fill(rnd, w, dirs, rnd.randint(1, 3), rnd.choice([2, 3, 4]), [z for z in BOUND if z and (z < 5000 or i % 3 == 0)])
        w.f(("d", "zz1"), b"remaining")
        w.f(("d", "zz2"), b"remaining")
        w.args = [(("d",), None)]
        w.extra = ["-j", str(rnd.choice([1, 2, 2, 3, 4]))] + rnd.choice([[], ["-x", "1"], ["-v"], ["-n"]])
        sw.append((i, w, i % 5 == 4))

    def sgo(c):
        i, w, js = c
        root = ctx.path("s", "c%d" % i)
        w.materialise(root)
        out = []
        for r in sched_outcomes(ctx, se, root, (["-J"] if js else []) + w.argv(root), i, ctx.n(600, 6000)):
            rec = json_record(w, root, r, []) if js else record(w, root, r, [])
            if js and not rec["valid"] and r.rc == 0:
                rec["rc"] = 998
            rec["want"] = ["success", "partition"]
            out.append((rec, describe(w, root, r, dict(schedule=r.sched))))
        shutil.rmtree(root, ignore_errors=True)
        return out
    judge_sched(ctx, pmap(sgo, sw), "a schedule of the worker threads changes the report")
    ctx.assumptions.append("sequential consistency in the controlled runs; scheduling points: pthread calls, file opening, reading, closing, unmapping, and in some runs the memory accesses of the hashing and image code and of the thread pool")
    ctx.cov["executions_compared"] = len(cases) * 15


# ---------------------------------------------------------------- F06
def f06(ctx):
    rnd = ctx.rnd
    exe = dict(plain=cli(ctx), strict=cli_strict(ctx))
    cases = []
    for i in range(ctx.n(260, 4000)):
        w = World()
        dirs = [("d",), ("d", rnd.choice(NAMES)), ("d", "s", rnd.choice(NAMES))]
        fill(rnd, w, dirs, rnd.randint(1, 4), rnd.choice([2, 4]), BOUND if i % 4 == 0 else [z for z in BOUND if z < 5000], names=NAMES, mt=True)
        if rnd.random() < .4:
            fs = [p for p in w.nodes if w.nodes[p]["k"] == "f"]
            w.nodes[rnd.choice(fs)]["mt"] = rnd.choice([0, 1, 951782399, 951782400, 1078012800, 1583020799, 2147483647, 1767225599, 2147483648, 4107542399, 4107542400, 4294967295,
                                                        4294967296, 4951497600, 13569465599, rnd.randrange(2 ** 31, 2 ** 33)])
            e = w.nodes[rnd.choice(fs)]
            e["mt"], e["frac"] = rnd.choice([-1, -86400, -86401, -2147483648, -1203893511, rnd.randrange(-2 ** 31, 0)]), 0      # whole seconds: before 1970 a fraction may be cut either way
        w.args = [(("d",), rnd.choice([None, "d", "./d", "d/", "d/../d", "d/."]))]
        w.extra = exec_opts(rnd, []) + (["-v"] if rnd.random() < .2 else []) + (["-n"] if rnd.random() < .1 else []) + (["-d"] if rnd.random() < .1 else [])
        if rnd.random() < .15:
            w.opts["untar"] = True
        cases.append(w)
    cases += huge_worlds(ctx, ctx.n(2, 4))
    blobs = {}
    for w in cases:
        if w.huge:
            continue
        for n in w.nodes.values():
            if n["k"] == "f":
                blobs.setdefault(n["data"], None)
    keys = list(blobs)
    for b, h in zip(keys, xxh(ctx, keys)):
        blobs[b] = h
    for w in cases:
        for n in w.nodes.values():
            if n["k"] == "f" and not w.huge:
                n["h"] = blobs[n["data"]]

    def go(w, d):
        root = os.path.join(d, "t")
        w.materialise(root)
        r0 = random.Random(len(w.nodes))
        if w.huge:
            fs = [p for p in w.nodes if w.nodes[p]["k"] == "f"]
            o = subprocess.run([ctx.path("bin", "xxh_oracle")] + [os.path.join(root, *p) for p in fs], capture_output=True, text=True)
            if o.returncode:
                raise CheckError("xxh oracle")
            for p, h in zip(fs, o.stdout.split()):
                w.nodes[p]["h"] = h
                w.nodes[p]["mt"] = int(os.stat(os.path.join(root, *p)).st_mtime)
        elif len(w.nodes) % 3 == 0:
            w.opts["prio"] = list(os.path.join(root, r0.choice(["d", "d/s", "d/f", "x"])))
        argv = w.argv(root)
        argv = argv[:-1] + ["-J"] + argv[-1:]
        r = run_cli(chosen(exe, "plain", w), argv, root, timeout=150 if w.huge else 20, env={"TZ": r0.choice(["UTC", "America/New_York", "Asia/Kolkata"])})
        rec = json_record(w, root, r, ["json", "partition", "success"])
        return rec, describe(w, root, r, dict(why=rec.get("why")))
    judge(ctx, cases, go, what="the JSON document is not a faithful description of the groups")
    bulk = [([2] * 450 + [1] * 20, ["-j", "3"], True), ([3] * 130 + [700, 1, 2], [], True)]
    if ctx.thorough:
        bulk += [([2] * 5000, [], True), ([66000, 2, 2], [], True)]
    judge(ctx, bulk, run_bulk(exe), what="the JSON document is not a faithful description of the groups")


# ---------------------------------------------------------------- F07
def f07(ctx):
    rnd = ctx.rnd
    exe = dict(plain=cli(ctx), strict=cli_strict(ctx))
    cases = []
    simple = ["a", "b c", "G", "z-1", "m\u00e9", "q%s", "r[1]"]
    for i in range(ctx.n(330, 5000)):
        w = World()
        dirs = [("d",), ("d", "p"), ("d", "q"), ("e",), ("e", "P")]
        if i % 6 == 0:                  # long displayed paths, and long priority paths
            z = ("d",) + tuple(c * 120 for c in "kKl"[:rnd.randint(1, 3)])
            dirs += [z, z[:-1] + (z[-1][:-1] + "m",)]
        for d in dirs:
            w.d(*d)
        szs = [0, 1, 2, 10, 999, 1000, 1023, 1024, 1025, 1075, 1076, 1100, 1126, 1127, 1535, 1536, 10188, 10189, 10240, 102400, 1047000, 1048575, 1048576, 1048577, 1100000]
        if i % 5:
            szs = szs[:-7]
        fill(rnd, w, dirs, rnd.randint(2, 7), rnd.choice([2, 3, 5]), szs, names=simple)
        o = w.opts
        o["sized"] = rnd.random() < .5
        o["sep"] = rnd.choice(["\n", "\n", ",", " ", "|", ":", "\t", ";", "\x01", "\x7f", "\udca7", "\udcff"])
        o["icase"] = rnd.random() < .3
        if rnd.random() < .7:
            fs = ["/".join(p) for p in w.nodes]
            p = rnd.choice(fs + ["d/p", "e/P", "d/q", "e", "d/"])
            if i % 6 == 0:
                p = rnd.choice([f for f in fs if len(f) > 100])
            p = p[:rnd.randint(1 if len(p) < 100 else len(p) - 9, len(p))]
            if rnd.random() < .3:
                p = p.swapcase()
            o["prio"] = list(p)
        w.args = [(("d",), "d"), (("e",), "e")]
        rnd.shuffle(w.args)
        w.extra = exec_opts(rnd, [])
        w.tty = i % 4 == 1
        cases.append(w)

    def go(w, d):
        root = os.path.join(d, "t")
        w.materialise(root)
        r = run_cli(chosen(exe, "plain", w), w.argv(root), root, tty=w.tty)
        # members are recovered by content of the separators only where the names cannot contain them
        if w.opts["sep"] in (" ",):
            known = sorted(("/".join(p) for p in w.nodes), key=len, reverse=True)
            rec = record(w, root, r, [], keep_raw=True)
            rec["out"] = [regroup(g, known, root) for g in rec["out"]]
        else:
            rec = record(w, root, r, [], keep_raw=True)
        rec["want"] = ["descending", "priority", "layout", "success"]
        return rec, describe(w, root, r)
    judge(ctx, cases, go, what="order or layout of the report")
    ctx.add("runs_on_a_terminal", sum(w.tty for w in cases))
    import c_size
    c_size.rendering(ctx, ctx.n(2000, 30000))


def regroup(g, known, root):
    """Re-join members split at blanks that belong to file names."""
    txt = " ".join("".join(m["d"]) for m in g)
    out = []
    ks = set(known)
    words = txt.split(" ")
    i = 0
    while i < len(words):
        for j in range(len(words), i, -1):
            s = " ".join(words[i:j])
            if s in ks:
                out.append(dict(p=comps_of(root, s), d=list(s)))
                i = j
                break
        else:
            out.append(dict(p=["?", words[i]], d=list(words[i])))
            i += 1
    return out


# ---------------------------------------------------------------- F08
def fault_so(ctx):
    so = ctx.path("bin", "faultlib.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(HARNESS, "faultlib.c"), "-ldl"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError(r.stderr)
    return so


def f08(ctx):
    rnd = ctx.rnd
    model_check(ctx, "Twin", "SPECIFICATION Spec\nINVARIANT SoundInv\nINVARIANT DisjointInv\nINVARIANT CompleteInv\n"
                "CONSTANTS N = 4 NSizes = 1 NContents = 2 NHashes = 2 MaxBad = 2 Emit = FALSE\nCHECK_DEADLOCK FALSE\n", workers=4)
    exe = dict(plain=cli(ctx), strict=cli_strict(ctx), weak=cli_weak(ctx))
    so = fault_so(ctx)
    ctx.level = "fault_enumeration" if False else ctx.level
    cases = []
    kinds = ["open", "stat", "read", "vanish", "shrink", "opendir", "mmap", "short", "dtype", "perm", "dangling"]
    E = {"EACCES": 13, "ENOENT": 2, "EIO": 5, "ELOOP": 40, "ENXIO": 6}
    for i in range(ctx.n(360, 6000)):
        w = World()
        dirs = [("d",), ("d", "s"), ("d", "s", "t"), ("d", "u")]
        for d in dirs:
            w.d(*d)
        big = i % 3 == 0
        fill(rnd, w, dirs, rnd.randint(1, 3), rnd.choice([2, 3, 5]), [z for z in BOUND if z and (big or z < 5000)])
        files = [p for p in w.nodes if w.nodes[p]["k"] == "f"]
        w.args = [(("d",), rnd.choice([None, "d"]))]
        # two files that always remain, so the run has something to report
        w.f(("d", "zz1"), b"remaining")
        w.f(("d", "zz2"), b"remaining")
        faults = []
        kind = kinds[i % len(kinds)]
        perm = kind == "perm"
        for _ in range(rnd.choice([1, 1, 2, 3])):
            p = rnd.choice(files)
            n = w.nodes[p]
            if n.get("x") is False or n.get("flt"):
                continue
            n["flt"] = True
            sz = len(n["data"])
            if kind == "open":
                faults.append((p, "open", rnd.choice(list(E.values())), True)); n["x"] = False
            elif kind == "stat":
                faults.append((p, "stat", rnd.choice(list(E.values())), True)); n["x"] = False
            elif kind == "read":
                faults.append((p, "read", rnd.choice([0, sz - 1, sz // 2, min(sz - 1, 65536)]), True)); n["x"] = False
            elif kind == "vanish":
                faults.append((p, "vanish", 0, True)); n["x"] = False
            elif kind == "shrink":
                faults.append((p, "shrink", rnd.choice([0, sz - 1, sz // 2, min(sz - 1, 65536), min(sz - 1, 4096)]), True)); n["x"] = False
            elif kind == "opendir":
                q = rnd.choice(dirs[1:])
                faults.append((q, "opendir", rnd.choice(list(E.values())), True)); w.nodes[q]["x"] = False
            elif kind == "mmap":
                faults.append((p, "mmap", 0, False))
            elif kind == "short":
                faults.append((p, "short", rnd.choice([1, 7, 4096, 65535]) if sz > 100000 else rnd.choice([7, 100]), False))
            elif kind == "dtype":
                faults.append((p, "dtype", 0, False))
            elif kind == "dangling":
                w.ln(rnd.choice(dirs) + ("ln%d" % rnd.randrange(99),), ("gone", "x")); w.opts["follow"] = True
            elif perm:
                q = rnd.choice([p, p, rnd.choice(dirs[1:])])
                m = w.nodes[q]
                m["mode"] = rnd.choice([0, 0o600, 0o700, 0o755, 0o644, 0o400, 0o500, 0o640, 0o750, 0o311, 0o744, 0o111, 0o004, 0o005, 0o040, 0o050])
                m["owner"] = rnd.choice([0, NOBODY])
                m["group"] = rnd.choice([0, NOBODY])
                m["x"] = w.access(q)
        if kind == "vanish" and len(faults) > 1 and rnd.random() < .5:
            faults = faults[:1]
            for p in files:
                if p != faults[0][0]:
                    w.nodes[p].pop("x", None)
        w.extra = exec_opts(rnd, [])
        cases.append((w, rnd.choice(["plain", "weak"]), (not perm) and rnd.random() < .3, faults, perm))
    # every permission class: owner, own group, supplementary group, others; files and directories; the others' bits are decoys
    for i in range(ctx.n(240, 4000)):
        w = World()
        w.groups = [[], [1777], [1777, 1778, 5]][i % 3]
        dirs = [("d",), ("d", "s"), ("d", "s", "t"), ("d", "u")]
        for d in dirs:
            w.d(*d)
        for k, d in enumerate(dirs):
            for j in range(3):
                w.f(d + ("p%d" % j,), b"same%d" % (rnd.randrange(2)))
        w.f(("d", "zz1"), b"remaining")
        w.f(("d", "zz2"), b"remaining")
        w.args = [(("d",), rnd.choice([None, "d"]))]
        for q in rnd.sample([q for q in w.nodes if len(q) > 1 and not q[-1].startswith("zz")], rnd.choice([1, 2, 4, 6])):
            m = w.nodes[q]
            m["mode"] = rnd.choice([0o700, 0o500, 0o400, 0o100, 0o070, 0o050, 0o040, 0o010, 0o007, 0o005, 0o004, 0o001, 0o077, 0o707, 0o770, 0o055, 0o505, 0o550, 0o044, 0o404, 0o440, rnd.randrange(0o1000)])
            m["owner"] = rnd.choice([0, NOBODY, 1])
            m["group"] = rnd.choice([0, NOBODY, 1777, 1778, 1])
            m["x"] = w.access(q)
        w.extra = exec_opts(rnd, [])
        cases.append((w, rnd.choice(["plain", "weak"]), rnd.random() < .3, [], True))

    # very many failing entries with few file descriptors: skipping one must not use anything up for the others
    for i in range(ctx.n(48, 400)):
        w = World()
        w.d("d")
        w.d("d", "s")
        kind = ["open", "read", "mmap", "opendir", "none", "openlate"][i % 6]
        n = rnd.choice([60, 90])
        size = rnd.choice([10, 3000, 70000])
        for j in range(n):
            if kind in ("opendir", "none"):
                w.d("d", "b%d" % j)
                w.f(("d", "b%d" % j, "f"), bytes([65 + j % 3]) * size)
                if kind == "opendir":
                    w.nodes[("d", "b%d" % j)]["x"] = False
            else:
                w.f(("d", "b%03d" % j), bytes([65 + j % 3]) * size)
                if kind in ("open", "read", "openlate"):
                    w.nodes[("d", "b%03d" % j)]["x"] = False
        for j in range(6):
            w.f(("d", "s", "g%d" % j), bytes([65 + j % 3]) * size)
        w.args = [(("d",), rnd.choice([None, "d"]))]
        j = rnd.choice([1, 2, 4, 8])
        w.extra = [x for x in exec_opts(rnd, []) if x == "-o"] + ["-j", str(j)] + rnd.choice([[], ["-x", "1"], ["-x", "5000"]])
        f = {"open": [(("d", "b*"), "open", 13, True)], "openlate": [(("d", "b*"), "open", 5, True)], "read": [(("d", "b*"), "read", rnd.choice([0, size - 1]), True)],
             "mmap": [(("d", "b*"), "mmap", 0, False)], "opendir": [(("d", "b*"), "opendir", 13, True)], "none": []}[kind]
        w.nofile = 20 + j
        cases.append((w, rnd.choice(["plain", "weak"]), rnd.random() < .4, f, False))

    def go(case, d):
        w, key, js, faults, perm = case
        os.chmod(d, 0o755)
        root = os.path.join(d, "t")
        w.materialise(root)
        hits = os.path.join(d, "hits")
        open(hits, "w").close()
        os.chmod(hits, 0o666)
        env = {}
        if faults:
            env = {"LD_PRELOAD": so, "FT_HITS": hits,
                   "FT_FAULTS": "\n".join("%s|%s|%d" % (os.path.join(root, *p), k, a) for p, k, a, _ in faults)}
        argv = (["-J"] if js else []) + w.argv(root)
        r = run_cli(chosen(exe, key, w), argv, root, user=NOBODY if perm else None, env=env, groups=w.groups, nofile=getattr(w, "nofile", None))
        rec = json_record(w, root, r, []) if js else record(w, root, r, [])
        if js and not rec["valid"]:
            rec["rc"] = 998
        rec["want"] = ["success", "partition"]
        got = {int(x) for x in open(hits).read().split()}
        if any(need and i not in got for i, (_, _, _, need) in enumerate(faults)):
            # a fault that never struck (a file nobody needed to read): the entry counts as sound or not, either way;
            # such a run only has to be sound
            rec["want"] = ["success", "sound"]
            for n in rec["w"]["nodes"]:
                n["x"] = True
        return rec, describe(w, root, r, dict(faults=[("/".join(p), k, a) for p, k, a, _ in faults], as_nobody=perm, build=key))
    judge(ctx, cases, go, what="an unreadable or failing entry made the run fail or changed the report of the others")
    ctx.cov["fault_kinds"] = len(kinds)


# ---------------------------------------------------------------- F09
def snapshot(root):
    out = []
    for dp, dn, fn in os.walk(root):
        for nm in sorted(dn) + sorted(fn):
            p = os.path.join(dp, nm)
            st = os.lstat(p)
            ent = [os.path.relpath(p, root), oct(st.st_mode), str(st.st_size), str(st.st_mtime_ns), str(st.st_uid), str(st.st_gid), str(st.st_ino), str(st.st_nlink)]
            if os.path.islink(p):
                ent.append(os.readlink(p))
            elif os.path.isfile(p):
                ent.append(hashlib.sha1(open(p, "rb").read()).hexdigest())
            out.append(ent)
    out.append([".", oct(os.lstat(root).st_mode), str(os.lstat(root).st_mtime_ns)])
    return sorted(out)


def f09(ctx):
    rnd = ctx.rnd
    exe = dict(plain=cli(ctx), weak=cli_weak(ctx))
    so = fault_so(ctx)
    img = sorted(glob.glob(REPO + "/check/tests/*.png") + glob.glob(REPO + "/check/tests/*.jpg") + glob.glob(REPO + "/check/tests/*.gif"))[:3]
    import io, tarfile
    bio = io.BytesIO()
    with tarfile.open(fileobj=bio, mode="w:gz") as tf:
        ti = tarfile.TarInfo("m")
        ti.size = 4
        tf.addfile(ti, io.BytesIO(b"abcd"))
    tar = bio.getvalue()
    cases = []
    for i in range(ctx.n(240, 3000)):
        w = filter_world(rnd, True) if i % 2 else World()
        if not i % 2:
            dirs = [("r",), ("r", "s"), ("r", "s", "t")]
            for d in dirs:
                w.d(*d)
            fill(rnd, w, dirs, 3, 5, BOUND, names=NAMES)
            w.args = [(("r",), "r")]
        w.f(("r", "arc.tar.gz"), tar)
        w.f(("r", "arc2.tar.gz"), tar)
        w.f(("r", "bad.png"), b"not an image")
        for k, p in enumerate(img):
            w.f(("r", "i%d%s" % (k, p[-4:])), open(p, "rb").read())
        if rnd.random() < .3:
            w.f(("r", ".gitignore"), b"*.o\n!x\n")
        w.opts["follow"] = rnd.random() < .5
        w.opts["sized"] = rnd.random() < .3
        x = exec_opts(rnd, []) + rnd.choice([[], ["-t"], ["-I"], ["-I", "-T", "1"], ["-J"], ["-J", "-t"], ["-n"], ["-v"], ["-n", "-v", "-t"], ["-o"]])
        w.extra = x
        faults = []
        files = [p for p in w.nodes if w.nodes[p]["k"] == "f"]
        if rnd.random() < .4:
            p = rnd.choice(files)
            faults.append((p, rnd.choice(["open", "stat", "read", "mmap"]), 5 if rnd.random() < .7 else 0))
        if rnd.random() < .2:
            w.args.append((("missing",), "missing"))
        cases.append((w, rnd.choice(["plain", "weak"]), faults))

    def go(case, d):
        w, key, faults = case
        os.chmod(d, 0o755)
        root = os.path.join(d, "t")
        tmp = os.path.join(d, "tmp")
        os.makedirs(tmp)
        os.chmod(tmp, 0o777)
        w.materialise(root)
        # the run belongs to an unprivileged user who owns the tree and nothing else
        subprocess.run(["chown", "-hR", "%d:%d" % (NOBODY, NOBODY), root], check=True)
        calls = os.path.join(d, "calls")
        open(calls, "w").close()
        os.chmod(calls, 0o666)
        before = snapshot(root)
        env = {"LD_PRELOAD": so, "FT_CALLS": calls, "TMPDIR": tmp,
               "FT_FAULTS": "\n".join("%s|%s|%d" % (os.path.join(root, *p), k, a) for p, k, a in faults)}
        argv = w.argv(root)
        r = run_cli(exe[key], argv, root, user=NOBODY, env=env, timeout=30)
        after = snapshot(root)
        log = open(calls).read().splitlines()
        intree = [x for x in log if x.split(" ", 1)[1].startswith(root + "/") or x.split(" ", 1)[1] == root]
        made = {x.split(" ", 1)[1] for x in log if x.startswith(("open-for-writing", "mkdir", "link", "symlink", "rename"))}
        left = sorted(p for p in made if os.path.lexists(p) and not p.startswith(("/dev/", "/proc/")) and p != calls) + os.listdir(tmp)
        rec = dict(want=["unchanged"], before=before, after=after, calls=intree, leftover=left)
        for p in left:
            if p.startswith("/tmp/ftwin"):
                os.unlink(p)
        ch = [x for x in after if x not in before] + [x for x in before if x not in after]
        return rec, describe(w, root, r, dict(changed=ch[:10], calls=intree[:10], leftover=left[:10], faults=[("/".join(p), k, a) for p, k, a in faults]))
    judge(ctx, cases, go, what="the scan changed the tree or left a file behind")
