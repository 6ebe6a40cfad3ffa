"""Worlds for the duplicate finder: generate, put on disk, run the real command, record for TwinTrace.tla."""
import zlib
import json, os, pty, re, shutil, signal, subprocess, tempfile, threading
import tty as ttymod
from vlib import *

NOBODY = 65534
DEFOPTS = dict(min=0, max=0, hidden=False, ilist=[], ere=[], wre=[], icase=False, rec=True, follow=False,
               prio=[], sized=False, sep="\n", untar=False)


def esc(s):
    return re.sub(r"([^A-Za-z0-9_/])", r"\\\1", s)


def pcre_of(alts):
    """One of many equivalent expressions, chosen by the alternatives themselves."""
    f = {"prefix": "^%s", "suffix": "%s$", "infix": "%s", "exact": "^%s$"}
    v = zlib.crc32(repr(alts).encode("utf-8", "surrogatepass"))
    g = [f, {"prefix": "\\A%s", "suffix": "^.*%s$", "infix": "^.*%s.*$", "exact": "\\A%s\\z"}, dict(f, infix="(%s)")][v % 3]
    lit = [esc, esc, lambda s: "".join("[%s]" % c if c.isalnum() and ord(c) < 128 else esc(c) for c in s),
           lambda s: "\\Q%s\\E" % s if "\\" not in s else esc(s)][v // 3 % 4]
    parts = ["(?:%s)" % (g[a["k"]] % lit("".join(a["l"]))) for a in alts]
    if v // 12 % 5 == 1:
        parts.insert(0, "@" * 400)
    r = "|".join(parts)
    if v // 12 % 5 == 2:        # more groups than any fixed number
        r = "(" * 90 + r + ")" * 90
    return r


class Sparse:
    """Content of a huge file: zeroes but for a few marked bytes."""

    def __init__(self, size, marks=()):
        self.size, self.marks = size, tuple(sorted(marks))

    def __len__(self):
        return self.size

    def __hash__(self):
        return hash((self.size, self.marks))

    def __eq__(self, o):
        return isinstance(o, Sparse) and (self.size, self.marks) == (o.size, o.marks)

    def write(self, path):
        with open(path, "wb") as f:
            f.truncate(self.size)
            for off, b in self.marks:
                os.pwrite(f.fileno(), bytes([b]), off)


class World:
    """nodes: path tuple -> dict(k, data|t, mode, mt)"""

    def __init__(self):
        self.nodes = {}
        self.opts = dict(DEFOPTS)
        self.args = []          # (path tuple, display) ; display None -> absolute, else relative text
        self.huge = False
        self.alias = []         # (directory, ancestor): the same inode number, on another device
        self.dtype = False      # directory entries without type
        self.groups = []        # supplementary groups of the unprivileged user
        self.extra = []         # options without meaning for the selection (-j 3, -x 1, -v ...)

    def d(self, *p, **kw):
        for i in range(1, len(p)):
            self.nodes.setdefault(tuple(p[:i]), dict(k="d"))
        self.nodes[tuple(p)] = dict(k="d", **kw)

    def f(self, path, data, **kw):
        for i in range(1, len(path)):
            self.nodes.setdefault(tuple(path[:i]), dict(k="d"))
        self.nodes[tuple(path)] = dict(k="f", data=data, **kw)

    def ln(self, path, target, **kw):
        for i in range(1, len(path)):
            self.nodes.setdefault(tuple(path[:i]), dict(k="d"))
        self.nodes[tuple(path)] = dict(k="l", t=tuple(target), **kw)

    def materialise(self, root):
        os.makedirs(root, exist_ok=True)
        for p in sorted(self.nodes, key=len):
            n = self.nodes[p]
            fp = os.path.join(root, *p)
            if n["k"] == "d":
                os.makedirs(fp, exist_ok=True)
            elif n["k"] == "f":
                if isinstance(n["data"], Sparse):
                    n["data"].write(fp)
                    continue
                with open(fp, "wb") as f:
                    f.write(n["data"])
            else:
                rel = os.path.relpath(os.path.join(root, *n["t"]), os.path.dirname(fp))
                os.symlink(rel, fp)
        for p in sorted(self.nodes, key=len, reverse=True):
            n = self.nodes[p]
            fp = os.path.join(root, *p)
            if "owner" in n and n["k"] != "l":
                os.chown(fp, n["owner"], n.get("group", n["owner"]))
            if "mode" in n and n["k"] != "l":
                os.chmod(fp, n["mode"])
            if "mt" in n and n["k"] == "f":
                os.utime(fp, ns=(n["mt"] * 10**9 + n.get("frac", 0),) * 2)
                n["mt"] = os.stat(fp).st_mtime_ns // 10**9      # what the file system made of it

    def argv(self, root):
        o, a = self.opts, []
        if o["min"]: a += ["-m", str(o["min"])]
        if o["max"]: a += ["-M", str(o["max"])]
        if o["hidden"]: a += ["-a"]
        if o["ilist"]: a += ["-i", ",".join(o["ilist"])]
        if o["icase"]: a += ["-c"]
        if o["ere"]: a += ["-e", pcre_of(o["ere"])]
        if o["wre"]: a += ["-w", pcre_of(o["wre"])]
        if not o["rec"]: a += ["-R"]
        if o["follow"]: a += ["-f"]
        if o["prio"]: a += ["-p", "".join(o["prio"])]
        if o["sized"]: a += ["-d"]
        if o["sep"] != "\n": a += ["-s", o["sep"]]
        if o["untar"]: a += ["-t"]
        a += list(self.extra)
        return a + [self.display(root, i) for i in range(len(self.args))]

    def display(self, root, i):
        p, disp = self.args[i]
        return os.path.join(root, *p) if disp is None else disp

    def access(self, p):
        """Can uid nobody get at this entry?"""
        n = self.nodes[p]
        m = n.get("mode")
        if m is None or n["k"] == "l":
            return True
        o = n.get("owner", 0)
        sh = 6 if o == NOBODY else (3 if n.get("group", o) in [NOBODY] + self.groups else 0)
        if n["k"] == "d":
            return (m >> sh) & 5 == 5
        return (m >> sh) & 4 == 4

    def ranks(self):
        v = sorted({len(n.get("data", b"")) for n in self.nodes.values()} | {0, self.opts["min"], self.opts["max"]})
        return {z: k for k, z in enumerate(v)} if v[-1] >= 1 << 30 else None

    def tla(self, root):
        cid = {}
        chars = {}

        def ch(s):
            chars[s] = list(s)
            return s
        nodes = []
        ign = []
        for p in sorted(self.nodes):
            n = self.nodes[p]
            for c in p:
                ch(c)
            data = n.get("data", b"")
            key = data
            c = cid.setdefault(key, len(cid) + 1)
            nodes.append(dict(p=list(p), k=n["k"], sz=len(data), c=c, t=list(n.get("t", ())), x=n.get("x", True),
                              mt=list(divmod(n.get("mt", 0), 86400)), h=n.get("h", "")))
            if n["k"] == "f" and p[-1] == ".gitignore":
                lines = data.decode("utf-8", "surrogateescape").split("\n")
                if lines and lines[-1] == "":
                    lines.pop()
                ign.append(dict(p=list(p[:-1]), lines=[ch(x) for x in lines]))
        if any(not a[0] for a in self.args):
            nodes.append(dict(p=[], k="d", sz=0, c=0, t=[], x=True, mt=[0, 0], h=""))
        o = dict(self.opts)
        if self.ranks():        # sizes beyond the integers of the checker: by rank
            rk = self.ranks()
            for n in nodes:
                n["sz"] = rk[n["sz"]]
            o["min"], o["max"] = rk[o["min"]], rk[o["max"]]
        for i in o["ilist"]:
            ch(i)
        return dict(nodes=nodes, chars=chars, ign=ign, opts=o,
                    args=[dict(p=list(self.args[i][0]), d=list(self.display(root, i))) for i in range(len(self.args))])


class Run:
    pass


LONG = dict(a="hidden", c="case-unsensitive", d="display-size", n="dry-run", e="regex-ignore-file", f="follow-symlink", I="image-cmp", T="image-threshold", i="ignore-list",
            J="json", m="minimal-length", M="max-size", o="optimize-memory", p="priority-path", r="recurse-subdir", R="no-recurse", s="separator", t="tar-cmp", j="threads",
            v="verbose", w="whitelist-regex-file", x="excessive-size")
ARG = set("eTimMpsjwx")
OTHER = dict(T="12345", m=("0", "1", "3", "70K"), M=("0", "1", "4096", "2M"), j=("1", "2", "7"), x=("1", "65536", "3K"), s=("%", "x"), p=("/", "nowhere"), e=("a", "^$"), w=("a", "zz"))


def spell(argv):
    """The same options written in another way: long names, values attached, flags in one word, another order,
    values given before that a later one replaces.  Which way depends on the options alone."""
    opts, i = [], 0
    while i < len(argv) and len(argv[i]) > 1 and argv[i][0] == "-" and argv[i] != "--":
        if len(argv[i]) != 2 or argv[i][1] not in LONG or (argv[i][1] in ARG and i + 1 >= len(argv)):
            return argv
        if argv[i][1] in ARG:
            opts.append((argv[i][1], argv[i + 1]))
            i += 1
        else:
            opts.append((argv[i][1], None))
        i += 1
    rnd = random.Random(zlib.crc32(repr(opts).encode("utf-8", "surrogatepass")))
    if rnd.random() < .3:
        return argv
    new = []
    for o, v in opts:
        if o in OTHER and rnd.random() < .1 and not any(x == "I" for x, _ in opts):
            new.append((o, rnd.choice(OTHER[o])))
        if o == "R" and rnd.random() < .3:
            new.append(("r", None))
        if o == "i" and "," in v.strip(",") and ",," not in v and rnd.random() < .5:
            k = v.index(",", 1)
            if v[k + 1:]:
                new.append((o, v[:k]))
                v = v[k + 1:]
        if v is None and o not in "rR" and rnd.random() < .1:
            new.append((o, v))
        new.append((o, v))
    if rnd.random() < .5:               # what follows one another of the same kind stays in order
        group = lambda o: "R" if o in "rR" else "w" if o in "wIc" else o
        keys = [group(o) for o, _ in new]
        queue = {}
        for k, x in zip(keys, new):
            queue.setdefault(k, []).append(x)
        rnd.shuffle(keys)
        new = [queue[k].pop(0) for k in keys]
    out, word = [], ""                  # word: flags not yet written
    for o, v in new:
        w = rnd.random()
        if v is None and w < .5:
            word += o
            continue
        if w < .3 or (v is not None and not v):
            out += ["-" + word + o] + ([] if v is None else [v])
        elif w < .5 and v is not None:
            out += ["-" + word + o + v]
        else:
            out += ["-" + word] if word else []
            out += ["--" + LONG[o]] if v is None else ["--" + LONG[o], v] if w < .75 else ["--%s=%s" % (LONG[o], v)]
        word = ""
    return out + (["-" + word] if word else []) + argv[i:]


def run_cli(exe, argv, cwd, **kw):
    r = run_once(exe, argv, cwd, **kw)
    if os.path.basename(exe) == "ftwin_strict" and r.rc not in (0, 255) and not re.search(rb"ERROR: AddressSanitizer: ([a-z]+-)+(overflow|underflow|free|return|scope)", r.err):
        return run_once(os.path.join(os.path.dirname(exe), "ftwin"), argv, cwd, **kw)       # the sanitizer itself could not work here
    return r


def run_once(exe, argv, cwd, timeout=20, env=None, user=None, stdin=None, groups=(), tty=False, nofile=None, spelled=False):
    argv = list(argv) if spelled else spell(argv)
    cmd = [exe] + argv
    if nofile:
        cmd = ["prlimit", "--nofile=%d" % nofile] + cmd
    if user is not None:
        cmd = ["setpriv", "--reuid=%d" % user, "--regid=%d" % user, "--groups=" + ",".join(map(str, groups)) if groups else "--clear-groups"] + cmd
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent", "TMPDIR": "/tmp"}
    e.update(env or {})
    r = Run()
    if tty:
        return run_tty(cmd, cwd, e, timeout, argv)
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, stdin=subprocess.DEVNULL)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        r.rc, r.out, r.err = 1000, b"", b"timeout"
        HUNG.append(1)
    if r.rc < 0:
        r.rc = 1000 - r.rc
    r.argv = argv
    return r


def run_tty(cmd, cwd, env, timeout, argv):
    """The same with standard output on a terminal (raw, so that bytes arrive as written); colour codes are taken out."""
    r = Run()
    m, s = pty.openpty()
    ttymod.setraw(s)
    p = subprocess.Popen(cmd, cwd=cwd, stdout=s, stderr=subprocess.PIPE, env=env, stdin=subprocess.DEVNULL)
    os.close(s)
    got = []

    def rd():
        while True:
            try:
                b = os.read(m, 65536)
            except OSError:
                break
            if not b:
                break
            got.append(b)
    t = threading.Thread(target=rd)
    t.start()
    try:
        _, r.err = p.communicate(timeout=timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        r.rc, r.err = 1000, b"timeout"
        HUNG.append(1)
    t.join(20)
    os.close(m)
    if r.rc < 0:
        r.rc = 1000 - r.rc
    r.out = re.sub(rb"\x1b\[[0-9;]*m", b"", b"".join(got))
    r.argv = argv
    return r


def comps_of(root, disp):
    q = os.path.normpath(os.path.join(root, disp))
    rr = os.path.normpath(root)
    if q == rr:
        return []
    if not q.startswith(rr + "/"):
        return ["?", disp]
    return q[len(rr) + 1:].split("/")


def parse_text(raw, sep, sized):
    """Groups of displayed paths; tolerant (the layout has a clause of its own)."""
    txt = raw.decode("utf-8", "surrogateescape")
    groups = []
    for blk in txt.split("\n\n") if sep == "\n" else re.split("\n\n(?!\n)", txt):      # a name may end with a newline
        if not blk.strip("\n"):
            continue
        if sized and blk.startswith("Size: "):
            blk = blk.split("\n", 1)[1] if "\n" in blk else ""
        mem = [m for m in blk.split(sep)]
        groups.append(mem)
    return groups


def record(w, root, run, want, keep_raw=False):
    gs = parse_text(run.out, w.opts["sep"], w.opts["sized"])
    need_d = bool(w.opts["prio"]) or keep_raw
    out = [[dict(p=comps_of(root, m), d=list(m) if need_d else []) for m in g] for g in gs]
    r = dict(w=w.tla(root), out=out, rc=run.rc, want=want)
    if keep_raw:
        r["raw"] = list(run.out.decode("utf-8", "surrogateescape"))
    return r


def json_record(w, root, run, want):
    r = dict(w=w.tla(root), out=[], doc=[], valid=True, rc=run.rc, want=want)
    try:
        doc = json.loads(run.out.decode("utf-8"))
        for g in doc:
            dups = []
            mem = []
            for e in g["duplicates"]:
                m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z", e["mtime_utc"])
                dups.append(dict(keys=sorted(e), time=[int(x) for x in m.groups()] if m else [],
                                 prio=e["prioritized"] is True, abs=e["path"].startswith("/")))
                if type(e["prioritized"]) is not bool:
                    r["valid"] = False
                pth = e["path"]
                mem.append(dict(p=comps_of(root, pth), d=list(pth)))
            if type(g["size_bytes"]) is not int:
                r["valid"] = False
            sz = g["size_bytes"]
            if w.ranks():
                sz = w.ranks().get(sz, 999999)
            elif abs(sz) >= 1 << 31:
                sz = 1 << 30
            r["doc"].append(dict(keys=sorted(g), sz=sz, hash=g["hash_xxh128"], dups=dups))
            r["out"].append(mem)
    except Exception as ex:
        r["valid"] = False
        r["why"] = repr(ex)
    return r


def describe(w, root, run, extra=None):
    d = dict(argv=[a.replace(root, "$ROOT") for a in run.argv], rc=run.rc, stdout=run.out.decode("utf-8", "replace")[:4000],
             stderr=run.err.decode("utf-8", "replace")[-1500:], tree={
                 "/".join(p): (dict(kind=n["k"], size=len(n["data"]), sha1="marks %s" % (n["data"].marks,) if isinstance(n["data"], Sparse) else hashlib.sha1(n["data"]).hexdigest()[:12],
                                    text=n["data"][:200].decode("utf-8", "replace") if p[-1] == ".gitignore" else None)
                               if n["k"] == "f" else dict(kind=n["k"], target="/".join(n.get("t", ())))) for p, n in w.nodes.items()})
    d.update(extra or {})
    return d


def judge(ctx, cases, execute, module="TwinTrace", what="run rejected by the specification"):
    """cases: list; execute(case, workdir) -> (record, description).  Runs them all, validates the records, and
    re-executes and re-validates a rejected one before reporting it."""
    def one(ic):
        i, c = ic
        d = ctx.path("w", "c%d" % i)
        os.makedirs(d, exist_ok=True)
        try:
            return execute(c, d)
        finally:
            subprocess.run(["chmod", "-R", "u+rwX", d], stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)
    res = pmap(one, list(enumerate(cases)))
    cases = [c for c, r in zip(cases, res) if r is not None]
    res = [r for r in res if r is not None]
    recs = [r[0] for r in res]
    ctx.add("runs_of_the_real_command", len(recs))
    bad = check_records(ctx, module, recs)
    if bad is not None:
        i, why = bad
        again = one((i, cases[i]))
        c2 = Ctx.__new__(Ctx)
        c2.__dict__.update(ctx.__dict__)
        c2.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        bad2 = check_records(c2, module, [again[0]])
        if bad2 is not None:
            raise Violation("%s (%s)" % (what, why), again[1])
        rc = res[i][1].get("rc") if isinstance(res[i][1], dict) else None
        if rc not in (1000, 124):
            # depends on the schedule: an output of the real command all the same
            raise Violation("%s (%s)" % (what, why), dict(case=res[i][1], repeatable=False))
        ctx.add("unrepeated_rejections")
        # not repeatable alone: try the remaining records
        rest = [r for k, r in enumerate(recs) if k != i]
        bad3 = check_records(ctx, module, rest)
        if bad3 is not None:
            raise Violation("%s (%s)" % (what, bad3[1]), [x for k, x in enumerate(res) if k != i][bad3[0]][1])
    for r in res[:3]:
        ctx.sample(r[1])
