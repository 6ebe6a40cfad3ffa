"""F12: size texts, rendered sizes, option values."""
import itertools
from fractions import Fraction
from twin import *
from c_twin import cli


def limbs(n):
    r = []
    while n:
        r.append(n % 1024)
        n //= 1024
    return r


U = {"": 0, "B": 0, "K": 1, "M": 2, "G": 3, "T": 4}


def exact(s):
    """Inside the range in which double precision can not matter (the code is free to compute in doubles)."""
    m = re.fullmatch(r"(\d*)(?:\.(\d*))?[ \t\f\r]*([kmgtKMGT]?)(?:[iI]?[bB])?", s)
    if not m or not (m.group(1) or m.group(2)):
        return True
    a, f, u = m.group(1) or "", m.group(2) or "", m.group(3).upper()
    v = Fraction(int((a + f) or "0"), 10 ** len(f)) * 1024 ** U[u]
    if len(a + f) > 300:
        return False
    if v >= 2 ** 63:
        return v >= 2 ** 63 * Fraction(1001, 1000) or v == 2 ** 63
    if int((a + f) or "0") >= 2 ** 53:
        return False
    if v.denominator == 1 and (v.denominator, Fraction(int(a + f or "0"), 10 ** len(f)).denominator & (Fraction(int(a + f or "0"), 10 ** len(f)).denominator - 1)) == (1, 0):
        return True
    return len(f) <= 6 and v < 8 * 10 ** 9 or len(f) <= 12 and v < 1024


def render_sizes(ctx, n):
    rnd = ctx.rnd
    sizes = {0, 1, 9, 1023, 1024, 1025, 1536, 2 ** 63 - 1024 * 1024 * 1024}
    for k in range(1, 7):
        for f in (0, 1, 51, 52, 102, 256, 512, 768, 972, 973, 1022, 1023):
            for t in (1, 2, 9, 10, 512, 999, 1000, 1023):
                for lo in (0, 1, 1023):
                    v = t * 1024 ** k + f * 1024 ** (k - 1) + (lo * 1024 ** (k - 2) if k > 1 else 0)
                    sizes.add(v)
    for _ in range(n):
        sizes.add(rnd.getrandbits(rnd.randint(1, 53)) << rnd.randint(0, 10))
        # ties at one decimal: quarters of a unit
        k = rnd.randint(1, 5)
        sizes.add(rnd.randrange(1, 1024) * 1024 ** k + rnd.choice([256, 768]) * 1024 ** (k - 1) + rnd.choice([0, 0, 1, -1]))
    sizes = sorted(v for v in sizes if 0 <= v < 2 ** 63 and v.bit_length() - (v & -v).bit_length() < 53)
    return sizes


def rendering(ctx, n):
    """The size line of the report for sizes no test tree can have (F07)."""
    exe = build_lib(ctx, ["size_run.c"], "sizerender")
    sizes = render_sizes(ctx, n)
    try:
        p = subprocess.run([exe], input="".join("F %d\n" % v for v in sizes).encode(), capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise Violation("rendering sizes does not end", dict(sizes=len(sizes)))
    out = p.stdout.decode("utf-8", "replace").split("\n")
    if p.returncode or len(out) < len(sizes):
        raise Violation("rendering a size crashed", dict(size=sizes[min(len(out), len(sizes)) - 1], rc=p.returncode))
    recs = [dict(op="format", v=limbs(v), got=list(o)) for v, o in zip(sizes, out)]
    ctx.add("sizes_rendered", len(recs))
    bad = check_records(ctx, "SizeTrace", recs)
    if bad:
        raise Violation("size rendered differently: " + bad[1], dict(size=sizes[bad[0]], got=out[bad[0]]))


def f12(ctx):
    rnd = ctx.rnd
    exe = build_lib(ctx, ["size_run.c"], "size_run")
    texts = set()
    alpha = ["0", "1", "9", ".", "K", "i", "B", " ", "-", "e", "M", "x"]
    for n in range(0, ctx.n(4, 5)):
        texts.update("".join(t) for t in itertools.product(alpha, repeat=n))
    for n in range(1, 5):
        texts.update("1" + "".join(u) for u in itertools.product("KiBT ", repeat=n))
        texts.update("3" + "".join(u) for u in itertools.product("gmIb", repeat=n))
    units = ["", "B", "b", "K", "k", "KB", "kb", "KiB", "kIb", "Ki", "M", "MB", "MiB", "m", "G", "GB", "gib", "g", "T", "TB", "TiB", "t", "P", "E", "Bi", "BB", "KK", "KBi",
             "KiBx", "iB", "%", "K ", "MiB ", "TT", "B1", ",", "K5"]
    nums = ["0", "1", "7", "10", "00012", "1.5", ".5", "5.", "0.1", "0.3", "0.999999", "1023", "1024", "1025", "1.000001", "2.25", "99.99", "1e3", "1e", "1E-2", "0x10", "inf", "nan",
            "INF", "infinity", "nan(1)", "-1", "-0", "-0.5", "+3", " 3", "\t3", "1,5", "1 2", "1..2", "", ".", "-", "1_0", "\u0663", "123456789", "2147483647", "2147483648", "4294967295",
            "4294967296", "4294967297", "9007199254740991", "8388607", "8388608", "8388609", "9223372036854775807", "9223372036854775808", "99999999999999999999", "8589934591",
            "8589934592", "7.5", "3.1415", "0.5", "0.25", "0.0009765625", "1048575.999", "123.456", "abc", "k", "B", "M5", "1 K", "1\tMiB", "1 \r\fG", "1e400", "1e-400"]
    for a in nums:
        for u in units:
            for sp in ("", " ", "  "):
                texts.add(a + sp + u)
    allu = sorted({"".join(t) for u in ("b", "k", "m", "g", "t", "kb", "mb", "gb", "tb", "kib", "mib", "gib", "tib", "ki", "kbi", "bk")
                   for t in itertools.product(*[(c, c.upper()) for c in u])})
    for a in ("0", "1", "3", "1.5", ".25", "1023", "7.125"):
        for u in allu:
            texts.update((a + u, a + " " + u))
    for _ in range(ctx.n(4000, 60000)):
        d = rnd.choice([1, 2, 3, 5, 8, 10, 13, 15])
        s = str(rnd.randrange(10 ** d))
        if rnd.random() < .6:
            s += "." + "".join(rnd.choice("0123456789") for _ in range(rnd.randint(0, 6)))
        s += rnd.choice(["", "", " ", "\t "]) + rnd.choice(units[:21] + allu)
        if rnd.random() < .15:
            k = rnd.randrange(len(s) + 1)
            s = s[:k] + rnd.choice(list("0.KiBx-+ ,TeE%")) + s[k:]
        texts.add(s)
    texts = sorted(t for t in texts if exact(t) and "\n" not in t)
    sizes = render_sizes(ctx, ctx.n(6000, 60000))
    inp = "".join("P %s\n" % t for t in texts) + "".join("F %d\n" % v for v in sizes)
    try:
        p = subprocess.run([exe], input=inp.encode(), capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        raise Violation("parsing or rendering sizes does not end", dict(texts=len(texts), sizes=len(sizes)))
    out = p.stdout.decode("utf-8", "replace").split("\n")
    if p.returncode or len(out) < len(texts) + len(sizes):
        k = len(out) - 1
        raise Violation("parsing or rendering crashed", dict(text=texts[k] if k < len(texts) else sizes[k - len(texts)], rc=p.returncode))
    recs = []
    for t, o in zip(texts, out):
        v = int(o)
        recs.append(dict(op="parse", s=list(t), ok=v >= 0, got=limbs(v) if v >= 0 else []))
    for v, o in zip(sizes, out[len(texts):]):
        recs.append(dict(op="format", v=limbs(v), got=list(o)))
    ctx.add("texts_parsed", len(texts))
    ctx.add("sizes_rendered", len(sizes))
    bad = check_records(ctx, "SizeTrace", recs)
    if bad:
        r = recs[bad[0]]
        raise Violation("size meaning differs: " + bad[1], dict(op=r["op"], text="".join(r.get("s", [])), value=r.get("v"), got=r["got"]))
    ctx.sample(recs[len(recs) // 3])
    # the command itself
    cexe = cli(ctx)
    have = [1, 2, 511, 512, 1023, 1024, 1025, 1536, 2047, 2048, 3000, 5000]
    cases = []
    good = [t for t in texts if "\0" not in t]
    for opt in "mMx":
        for t in ["0", "1", "1K", "1.5K", "1.5k", "1.5KiB", "1.5 kb", "2KB", "1024", "1024B", "1025", "0.5K", ".5K", "0.002M", "0.0015M", "1T", "1X", "", "-1", "1K5", "K", "nan", "inf",
                  "5000", "5001", "4.8828125K", "2.9K", "abc", "1.9999", "8388608T", "1KK", "10 M", "0.9999K"] + rnd.sample(good, ctx.n(25, 400)):
            cases.append((opt, t))
    for t in ["1", "2", "4", "256", "257", "0", "-1", "", "x", "3x", "1.5", "99999999999999999999", "4294967297", "256 ", "0x2", "007", "18446744073709551617", "255", "1e2"]:
        cases.append(("j", t))
    for t in ["1", "5", "0", "6", "", "x", "9", "-1", "3", "12", "1x", "55"]:
        cases.append(("T", t))

    def go(c, d):
        opt, t = c
        root = os.path.join(d, "t")
        w = World()
        for s in have:
            for q in "ab":
                w.f(("d", "%s%d" % (q, s)), b"z" * s)
        w.materialise(root)
        run = run_cli(cexe, ["-" + opt, t, os.path.join(root, "d")], root)
        shown = set()
        for g in parse_text(run.out, "\n", False):
            for m in g:
                k = re.fullmatch(r".*/d/[ab](\d+)", m)
                if k:
                    shown.add(int(k.group(1)))
        usage = b"sage" in run.out + run.err or b"nvalid" in run.out + run.err
        return (dict(op="cli", opt=opt, s=list(t), rc=run.rc, usage=usage, sizes=[limbs(s) for s in have], shown=[limbs(s) for s in sorted(shown)]),
                dict(option="-" + opt, text=t, rc=run.rc, shown=sorted(shown), stderr=run.err.decode("utf-8", "replace")[:300]))
    judge(ctx, cases, go, module="SizeTrace", what="option value misunderstood")
    # whole command lines: every spelling of harmless options, and every kind of mistake
    names = {"a": "hidden", "c": "case-unsensitive", "d": "display-size", "n": "dry-run", "e": "regex-ignore-file", "f": "follow-symlink", "h": "help", "i": "ignore-list", "J": "json",
             "m": "minimal-length", "M": "max-size", "o": "optimize-memory", "p": "priority-path", "r": "recurse-subdir", "R": "no-recurse", "s": "separator", "t": "tar-cmp",
             "j": "threads", "v": "verbose", "V": "version", "w": "whitelist-regex-file", "x": "excessive-size", "T": "image-threshold"}
    vals = {"e": ["zzz", "-q"], "i": ["zzz", "q,r"], "m": ["0", "1"], "M": ["0", "9M"], "p": ["/q", "-"], "s": [",", ";"], "j": ["1", "3"], "w": ["d/", "[ab]"], "x": ["1", "9K"], "T": ["1", "3"]}

    def lex(w):
        if w == "--":
            return dict(k="end", name="", eq=False, cs=[])
        if w.startswith("--"):
            return dict(k="long", name=w[2:].split("=")[0], eq="=" in w, cs=[])
        if w.startswith("-") and len(w) > 1:
            return dict(k="short", name="", eq=False, cs=list(w[1:]))
        return dict(k="plain", name="", eq=False, cs=[])
    lines = [[]]
    flags = [o for o in names if o not in vals and o not in "hV"]
    for o in flags:
        lines += [["-" + o], ["--" + names[o]], ["--" + names[o] + "=1"], ["--" + names[o][:-1]], ["-" + o + "Z"], ["-" + o + "-"]]
    for o in vals:
        for v in vals[o]:
            lines += [["-" + o, v], ["-" + o + v], ["--" + names[o], v], ["--" + names[o] + "=" + v], ["-" + o], ["--" + names[o]], ["-r" + o + v], ["--" + names[o][:-1] + "=" + v]]
    for o in "hV":
        lines += [["-" + o], ["--" + names[o]], ["-Z" + o], ["-" + o + "Z"], ["-a" + o], ["-Z", "-" + o], ["-m", "1", "-" + o]]
    for w in ("-Z", "--bogus", "--", "--=", "--x", "-1", "-?", "-:", "--hidden-", "--hid", "--JSON", "-\u00e9"):
        lines += [[w], ["-a", w], [w, "-a"], ["-j", "2", w], [w, "-h"]]
    for _ in range(ctx.n(150, 3000)):
        ws = []
        for _ in range(rnd.randint(1, 5)):
            if rnd.random() < .5:
                o = rnd.choice(list(vals))
                v = rnd.choice(vals[o])
                ws.append(rnd.choice([["-" + o, v], ["-" + o + v], ["--" + names[o], v], ["--" + names[o] + "=" + v], ["-" + rnd.choice("acdo") + o, v]]))
            else:
                ws.append(rnd.choice([["-" + "".join(rnd.choice(flags) for _ in range(rnd.randint(1, 4)))], ["--" + names[rnd.choice(flags)]]]))
        if rnd.random() < .4:
            ws.insert(rnd.randrange(len(ws) + 1), [rnd.choice(["-Z", "--bogus", "--hidden=x", "-aZ", "-h", "--version"])])
        lines.append(sum(ws, []))

    # words after "--" are names, whatever they look like: those lines must end in names that exist
    lines = [x for x in lines if "--" not in x or x[-1] == "--"]
    lines = [x + (["d"] if rnd.random() < .9 or len(x) == 1 else []) for x in lines]

    def goline(full, d):
        root = os.path.join(d, "t")
        w = World()
        for s in have[:4]:
            for q in "ab":
                w.f(("d", "%s%d" % (q, s)), b"z" * s)
        w.materialise(root)
        run = run_cli(cexe, full, root, spelled=True)
        shown = {int(k) for k in re.findall(rb"\bd/[ab](\d+)", run.out)}
        return (dict(op="line", ws=[lex(x) for x in full], rc=run.rc, usage=b"sage" in run.out + run.err, sizes=[limbs(s) for s in have[:4]], shown=[limbs(s) for s in sorted(shown)]),
                dict(words=full, rc=run.rc, shown=sorted(shown), stderr=run.err.decode("utf-8", "replace")[:300]))
    judge(ctx, lines, goline, module="SizeTrace", what="command line misunderstood")
    ctx.assumptions.append("texts whose value double precision cannot represent exactly near a whole byte, exponents, hexadecimal, leading blanks or plus signs and minus zero are not judged")
