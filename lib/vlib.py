"""Shared machinery of the checks: building /repo's sources, running TLC, reporting.

Exit discipline: 0 = held, 1 = VIOLATION line printed, 2 = the check itself failed.
"""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery (not the code under test) failed."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rnd = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf%s_" % pid, dir="/tmp")
        os.chmod(self.scratch, 0o755)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.thorough = tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *p):
        q = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def sample(self, s, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def add(self, key, k=1):
        self.cov[key] = self.cov.get(key, 0) + k

    def evidence(self, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        tmp = os.path.join(d, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))

    def save_replay(self, obj):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(json.dumps(obj, default=str).encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1, default=str)
        return p

    def cleanup(self):
        subprocess.run(["chmod", "-R", "u+rwX", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(pid, tier, fn, level="model_checking"):
    ctx = Ctx(pid, tier, level)
    rc = 2
    try:
        fn(ctx)
        ctx.evidence(0)
        print("OK property=%s tier=%s wall=%.1fs %s" % (pid, tier, time.time() - ctx.t0, json.dumps(
            {k: v for k, v in ctx.cov.items() if isinstance(v, (int, bool))})))
        rc = 0
    except Violation as v:
        p = ctx.save_replay({"property": pid, "what": v.what, "case": v.replay})
        ctx.evidence(1)
        print("what: %s" % v.what)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        rc = 1
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.scratch)
        else:
            ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)


# ---------------------------------------------------------------- building
BASEFLAGS = ["-g", "-O1", "-w", "-std=gnu11", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-I" + os.path.join(HARNESS, "include")]
_pc = None


def pkgflags():
    global _pc
    if _pc is None:
        def q(*a):
            r = subprocess.run(["pkg-config", *a], capture_output=True, text=True)
            return r.stdout.split()
        mods = ["apr-1", "apr-util-1", "libpcre", "jansson"]
        _pc = (q("--cflags", *mods), q("--libs", *mods))
    return _pc


def repo_sources():
    """All C sources of the repository's own code (test and bench code lives elsewhere)."""
    return sorted(glob.glob(REPO + "/src/*.c"))


def xxhash_source():
    return glob.glob(REPO + "/src/vendor/xxhash/xxhash.c")


def compile_objs(ctx, sources, tag, flags):
    cflags, _ = pkgflags()
    out = []
    jobs = []
    for s in sources:
        o = ctx.path("obj", tag, os.path.basename(s)[:-2] + ".o")
        out.append(o)
        jobs.append(["gcc", *BASEFLAGS, *flags, "-I" + REPO + "/src", "-I" + REPO + "/src/vendor/xxhash", *cflags, "-c", s, "-o", o])

    def one(j):
        r = subprocess.run(j, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compilation failed: %s\n%s" % (" ".join(j), r.stderr[-3000:]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    return out


def link(ctx, objs, name, flags=()):
    _, libs = pkgflags()
    exe = ctx.path("bin", name)
    r = subprocess.run(["gcc", *objs, "-o", exe, *flags, *libs, "-lgd", "-lpuzzle", "-larchive", "-lpthread", "-ldl", "-lm"],
                       capture_output=True, text=True)
    if r.returncode:
        raise CheckError("link failed: " + r.stderr[-3000:])
    return exe


CLI_EXCLUDE = ("napr_db", "napr_cache")


def cli_sources():
    return [s for s in repo_sources() if not os.path.basename(s).startswith(CLI_EXCLUDE)]


def build_cli(ctx, name="ftwin", extra=(), flags=(), ldflags=(), xxhash=True):
    """The ftwin command from /repo's sources, plus harness sources `extra` (stand-ins, recorders)."""
    objs = compile_objs(ctx, cli_sources(), name, list(flags))
    ex = [os.path.join(HARNESS, e) for e in extra]
    if xxhash:
        objs += compile_objs(ctx, xxhash_source(), name, ["-O2"])
    if ex:
        objs += compile_objs(ctx, ex, name + "_h", ["-O2"])
    return link(ctx, objs, name, ldflags)


# memory strictly bounded (harness/strictmem.c)
STRICT_C = ["-fsanitize=address", "-g", "-fno-omit-frame-pointer"]
STRICT_L = ["-fsanitize=address"] + ["-Wl,--wrap=apr_" + f for f in ("palloc", "pcalloc", "pstrdup", "pmemdup", "pstrndup", "pstrmemdup")]


MEMERR = re.compile(r"ERROR: AddressSanitizer: ([a-z]+-)+(overflow|underflow|free|return|scope)")


def build_lib(ctx, harness, name, flags=(), ldflags=()):
    """A harness program linked with all of /repo's sources (main() of the command left out)."""
    objs = compile_objs(ctx, repo_sources(), name, ["-DFTWIN_TEST_BUILD", *flags])
    objs += compile_objs(ctx, xxhash_source(), name, ["-O2"])
    objs += compile_objs(ctx, [os.path.join(HARNESS, h) for h in harness], name + "_h", ["-DFTWIN_TEST_BUILD", *flags])
    return link(ctx, objs, name, ldflags)


def build_both(ctx, harness, name, flags=(), ldflags=()):
    """The same, and beside it NAME_strict, with memory strictly bounded."""
    build_lib(ctx, [*harness, "strictmem.c"], name + "_strict", flags=[*flags, *STRICT_C], ldflags=[*ldflags, *STRICT_L])
    return build_lib(ctx, harness, name, flags=flags, ldflags=ldflags)


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(ctx, module, cfg_text=None, files=None, workers=1, timeout=600, extra=(), heap="6g", simulate=None, dfs=False, tag=None):
    """Runs TLC on spec/<module>.tla in a scratch copy of spec/ with the given data files."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=ctx.scratch)
    for f in glob.glob(SPEC + "/*.tla") + glob.glob(SPEC + "/*.cfg"):
        shutil.copy(f, d)
    for name, content in (files or {}).items():
        with open(os.path.join(d, name), "w") as f:
            if isinstance(content, str):
                f.write(content)
            else:
                for rec in content:
                    f.write(json.dumps(rec, separators=(",", ":")) + "\n")
    cfg = module + ".cfg"
    if cfg_text is not None:
        cfg = "_run.cfg"
        with open(os.path.join(d, cfg), "w") as f:
            f.write(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.impl.Tool.cdot=true", "-Djava.io.tmpdir=" + d]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-nowarning", "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", cfg]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(ctx.seed)]
    cmd += [*extra, module + ".tla"]
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    res = TlcResult()
    res.out, res.rc, res.dir, res.wall = r.stdout + r.stderr, r.returncode, d, time.time() - t
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", res.out)
    if m:
        res.generated, res.distinct = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", res.out)
        res.generated = res.distinct = int(m[-1].replace(",", "")) if m else 0
    m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
    res.depth = int(m.group(1)) if m else 0
    res.ok = r.returncode == 0
    return res


def require_tlc_ok(res, what):
    if not res.ok:
        raise CheckError("TLC failed on %s (rc=%d):\n%s" % (what, res.rc, res.out[-4000:]))


def model_check(ctx, module, cfg_text=None, workers=8, timeout=800, heap="6g", files=None, extra=()):
    """Exhaustive check of a design model: must pass on any tree (it does not read the code)."""
    res = tlc(ctx, module, cfg_text, files=files, workers=workers, timeout=timeout, heap=heap, extra=extra)
    require_tlc_ok(res, module)
    ctx.cov["states"] += res.distinct
    ctx.cov["transitions"] += res.generated
    return res


def check_records(ctx, module, records, cfg_text=None, timeout=600, files=None, chunk=None, workers=8):
    """Validates recorded executions with a trace specification.

    The trace specification consumes the records in order and stops at the first one it rejects; the number
    of records consumed is printed by its postcondition.  Large sets are split and checked in parallel.
    Returns the index of a rejected record and TLC's output, or None.
    """
    if not records:
        return None
    chunk = chunk or max(1, (len(records) + workers - 1) // workers)
    parts = [(i, records[i:i + chunk]) for i in range(0, len(records), chunk)]

    def one(part):
        base, recs = part
        fl = {"trace.ndjson": recs}
        fl.update(files or {})
        res = tlc(ctx, module, cfg_text, files=fl, workers=1, timeout=timeout, heap="3g")
        m = re.search(r"\"CONSUMED\", (\d+), (\d+)", res.out)
        if not m:
            raise CheckError("trace specification %s failed:\n%s" % (module, res.out[-4000:]))
        done, total = int(m.group(1)), int(m.group(2))
        if total != len(recs):
            raise CheckError("trace specification saw %d of %d records" % (total, len(recs)))
        shutil.rmtree(res.dir, ignore_errors=True)
        return base, done, total, res
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(one, parts))
    bad = None
    for base, done, total, res in rs:
        ctx.cov["states"] += res.distinct
        ctx.cov["transitions"] += res.generated
        ctx.cov["traces_validated_against_impl"] += done
        if done < total and bad is None:
            why = re.findall(r"\"WHY\".*?>>\s*$", res.out, re.S | re.M)
            bad = (base + done, "; ".join(why[:3]))
    return bad


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    return open(p).read().splitlines() if os.path.exists(p) else []


HUNG = []


def pmap(fn, items, workers=8):
    """Results in order; None for the items left out because too many executions before them hung (HUNG): the ones that
    did are judged, there is no time to wait for all the others."""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda x: fn(x) if len(HUNG) < 8 else None, items))
