"""F11: extraction of archive members."""
import ctypes, io, stat, struct, tarfile, zipfile
from twin import *
from c_twin import fault_so

_la = None


def la():
    global _la
    if _la is None:
        _la = ctypes.CDLL("libarchive.so.13")
        for f in ("archive_write_new", "archive_entry_new"):
            getattr(_la, f).restype = ctypes.c_void_p
    return _la


def with_libarchive(path, members, fmt, filt=None):
    L = la()
    a = ctypes.c_void_p(L.archive_write_new())
    getattr(L, "archive_write_set_format_" + fmt)(a)
    if filt:
        getattr(L, "archive_write_add_filter_" + filt)(a)
    if L.archive_write_open_filename(a, path.encode()) != 0:
        raise CheckError("libarchive open")
    L.archive_entry_set_size.argtypes = [ctypes.c_void_p, ctypes.c_int64]
    L.archive_write_data.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
    for m in members:
        e = ctypes.c_void_p(L.archive_entry_new())
        L.archive_entry_set_pathname(e, m["n"].encode())
        data = m["data"] if m["k"] == "file" else b""
        L.archive_entry_set_filetype(e, {"file": stat.S_IFREG, "dir": stat.S_IFDIR, "symlink": stat.S_IFLNK}[m["k"]])
        L.archive_entry_set_perm(e, m.get("mode", 0o644))
        L.archive_entry_set_size(e, len(data))
        if m["k"] == "symlink":
            L.archive_entry_set_symlink(e, m["t"].encode())
        if L.archive_write_header(a, e) < -20:
            raise CheckError("libarchive header")
        if data:
            L.archive_write_data(a, data, len(data))
        L.archive_entry_free(e)
    L.archive_write_close(a)
    L.archive_write_free(a)


def make(path, fmt, members):
    """Writes the archive; returns (offset past which the archive is complete for member i) when known: the byte ranges of data."""
    if fmt.startswith("tar") or fmt in ("gnu", "pax", "ustar"):
        mode = {"tar.gz": "w:gz", "tar.bz2": "w:bz2", "tar.xz": "w:xz"}.get(fmt, "w")
        tf = {"gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}.get(fmt, tarfile.USTAR_FORMAT if fmt == "ustar" else tarfile.GNU_FORMAT)
        ranges = []
        with tarfile.open(path, mode, format=tf) as t:
            for m in members:
                ti = tarfile.TarInfo(m["n"])
                ti.mode = m.get("mode", 0o644)
                ti.mtime = 1000000000
                if m["k"] == "file":
                    ti.size = len(m["data"])
                    before = t.offset
                    t.addfile(ti, io.BytesIO(m["data"]))
                    pad = (len(m["data"]) + 511) // 512 * 512
                    ranges.append((t.offset - pad, t.offset - pad + len(m["data"])))
                else:
                    ti.type = {"dir": tarfile.DIRTYPE, "symlink": tarfile.SYMTYPE, "hardlink": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE}[m["k"]]
                    ti.linkname = m.get("t", "")
                    t.addfile(ti)
                    ranges.append((t.offset, t.offset))
        return ranges if mode == "w" else None
    if fmt in ("zip", "zip0"):
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED if fmt == "zip" else zipfile.ZIP_STORED) as z:
            for m in members:
                n = m["n"] + ("/" if m["k"] == "dir" else "")
                zi = zipfile.ZipInfo(n, (2001, 9, 9, 1, 46, 40))
                zi.compress_type = zipfile.ZIP_DEFLATED if fmt == "zip" else zipfile.ZIP_STORED
                if m["k"] == "symlink":
                    zi.external_attr = (stat.S_IFLNK | 0o777) << 16
                    zi.create_system = 3
                    z.writestr(zi, m["t"])
                elif m["k"] == "dir":
                    zi.external_attr = (stat.S_IFDIR | 0o755) << 16
                    z.writestr(zi, b"")
                else:
                    zi.external_attr = (stat.S_IFREG | m.get("mode", 0o644)) << 16
                    z.writestr(zi, m["data"])
        return None
    if fmt == "sparse":
        d = path + ".d"
        os.makedirs(d)
        for m in members:
            with open(os.path.join(d, m["n"]), "wb") as f:
                data = m["data"]
                f.truncate(len(data))
                i = 0
                while i < len(data):
                    blk = data[i:i + 4096]
                    if blk.strip(b"\0"):
                        f.seek(i)
                        f.write(blk)
                    i += 4096
        subprocess.run(["tar", "--sparse", "-C", d, "-cf", path, "--"] + [m["n"] for m in members], check=True)
        shutil.rmtree(d)
        return None
    with_libarchive(path, members, {"7z": "7zip", "cpio": "cpio_newc", "paxr": "pax_restricted", "iso": "iso9660", "xar": "xar"}[fmt],
                    None)
    return None


FORMATS = ["gnu", "pax", "ustar", "tar.gz", "tar.bz2", "tar.xz", "zip", "zip0", "7z", "cpio", "sparse"]


def supports(fmt, members):
    for m in members:
        if m["k"] in ("hardlink", "fifo") and fmt in ("zip", "zip0", "7z", "cpio", "sparse"):
            return False
        if m["k"] != "file" and fmt == "sparse":
            return False
        if any(ord(c) > 127 for c in m["n"]) and fmt in ("ustar", "7z", "cpio"):
            return False
        if len(m["n"]) > 90 and fmt == "ustar":
            return False
        if "/" in m["n"] and fmt == "sparse":
            return False
        if m["k"] == "dir" and fmt in ("gnu", "pax", "ustar", "tar.gz", "tar.bz2", "tar.xz", "zip", "zip0", "7z"):
            pass
    return True


def f11(ctx):
    rnd = ctx.rnd
    cfg = ('SPECIFICATION Spec\nINVARIANT Exact\nPROPERTY Ends\n%s'
           'CONSTANTS MaxMembers = %d Names = {"a", "b", "c"} Kinds = {"file", "dir", "symlink", "hardlink"} MaxBlocks = 2 Emit = %s\nCHECK_DEADLOCK FALSE\n')
    model_check(ctx, "Archive", cfg % ("", 3 if ctx.thorough else 2, "FALSE"))
    res = model_check(ctx, "Archive", cfg.replace("PROPERTY Ends\n", "") % ("INVARIANT EmitInv\n", 2, "TRUE"))
    worlds = {}
    for m in re.findall(r'"WORLD (\{.*?\})"', res.out):
        worlds[m.replace('\\"', '"')] = None
    worlds = [json.loads(x) for x in worlds]
    exe = build_lib(ctx, ["archive_run.c"], "archive_run")
    so = fault_so(ctx)
    cases = []
    # behaviours of the model, in tar form (cuts at block positions)
    for wd in rnd.sample(worlds, min(len(worlds), ctx.n(600, 4000))):
        mem = []
        for i, m in enumerate(wd["a"]):
            mem.append(dict(n=m["n"], k=m["k"], data=rbytes_(rnd, m["b"] * 512 - (rnd.randrange(0, 500) if m["b"] else 0)), t="bystander"))
        cases.append(dict(fmt=rnd.choice(["gnu", "pax", "ustar"]), members=mem, want=wd["n"], cutm=wd["c"]))
    names = ["a", "b", "dir/x", "./y", "c d", "a.txt", "caf\u00e9", "long" + "n" * 120, "\u65e5\u672c", "A", "ab", "x/../y", "-n"]
    for i in range(ctx.n(700, 4000)):
        k = rnd.randint(1, 6)
        mem = []
        for nm in rnd.sample(names, k):
            kind = rnd.choice(["file"] * 6 + ["dir", "symlink", "hardlink", "fifo"])
            sz = rnd.choice([0, 1, 511, 512, 513, 5000, 10239, 10240, 10241, 20480, 65536, 70001])
            data = rbytes_(rnd, sz)
            if rnd.random() < .3:
                data = bytes(sz // 2) + data[sz // 2:]
            mem.append(dict(n=nm, k=kind, data=data, t=rnd.choice(["bystander", "a", "nowhere"]), mode=rnd.choice([0o644, 0o644, 0o600, 0o000, 0o777, 0o4755, 0o400])))
        fmts = [f for f in FORMATS if supports(f, mem)]
        fmt = rnd.choice(fmts)
        if fmt == "7z":     # this libarchive can not skip 64 KiB of a 7z stream: members stay below in total
            for m in mem:
                m["data"] = m["data"][:10241]
        if fmt == "sparse":
            for m in mem:
                m["data"] = bytes(rnd.choice([8192, 40960, 100000])) + m["data"][:4096] + bytes(rnd.choice([0, 4096, 50000]))
        want = rnd.choice([m["n"] for m in mem] + ["missing", "ab", ""]) if rnd.random() < .25 else rnd.choice(mem)["n"]
        dmg = rnd.choice([None, None, None, "cut", "flip"])
        if fmt in ("zip", "zip0") and any(m["n"] == want and m["k"] != "file" for m in mem):
            dmg = None      # the kind of a member stands at the end of a zip file: a cut makes it unknowable
        # names are compared in the locale's terms: the plain C locale can not express these
        loc = rnd.choice(["C", "C.UTF-8"])
        if any(ord(ch) > 127 for ch in want) and fmt in ("zip", "zip0"):
            loc = "C.UTF-8"
        cases.append(dict(fmt=fmt, loc=loc, members=mem, want=want, dmg=dmg, limit=rnd.choice([None] * 5 + [4096, 10240, 12000]) if not dmg else None, r=rnd.random(), r2=rnd.randrange(1 << 30)))
    cases.append(dict(fmt="raw", members=[], want="a", raw=b"this is no archive at all\n" * 50))
    cases.append(dict(fmt="raw", members=[], want="a", raw=b""))
    cases.append(dict(fmt="raw", members=[], want="a", raw=None))
    # large members, long names that differ late, many members
    for i in range(ctx.n(40, 300)):
        kind = i % 4
        if kind == 0:
            mem = [dict(n=nm, k="file", data=rbytes_(rnd, rnd.choice([0, 100, 1 << 20, 3000001, 5 << 20, (9 << 20) + 1]))) for nm in ("big1", "big2")]
            if i % 8 == 0:
                mem[1]["data"] = bytes(4 << 20) + b"end"
            fmts = ["gnu", "pax", "tar.gz", "zip", "zip0", "cpio", "sparse"]
            if i % 8 == 4:      # more blocks than fit in any small counter
                mem[rnd.randrange(2)]["data"] = rbytes_(rnd, (40 << 20) + 5 if i == 4 else 12 << 20)
                fmts = ["gnu", "pax", "cpio", "zip0"]
        elif kind == 1:
            z = rnd.choice([98, 99, 100, 101, 127, 128, 254, 255, 256, 400])
            base = ("p" * 40 + "/") * (z // 41) + "q" * (z % 41)
            mem = [dict(n=base + t, k="file", data=rbytes_(rnd, 600)) for t in rnd.sample(["", "1", "2", "/x", "22", "longer"], 4)]
            mem = [m for m in mem if not any(o["n"].startswith(m["n"] + "/") for o in mem)]
            fmts = ["gnu", "pax", "tar.gz", "tar.xz", "zip", "zip0", "cpio"]
        elif kind == 2:
            mem = [dict(n="m%d" % k, k="file", data=b"%d" % k * rnd.choice([1, 200])) for k in range(rnd.choice([130, 300, 1100]))]
            fmts = ["gnu", "pax", "tar.gz", "zip", "zip0", "cpio"]
        else:
            mem = [dict(n="x" * k, k="file", data=rbytes_(rnd, k)) for k in rnd.sample(range(1, 90), 12)]
            fmts = ["ustar", "gnu", "zip0", "7z", "cpio", "sparse"]
        cases.append(dict(fmt=rnd.choice(fmts), loc="C.UTF-8", members=mem, want=(max(mem, key=lambda m: len(m["data"])) if kind == 0 and rnd.random() < .7 else rnd.choice(mem))["n"]))
    # one process makes many requests: one after the other (failing ones must not use anything up), or at the same time
    for i in range(ctx.n(30, 120)):
        mem = [dict(n=nm, k=rnd.choice(["file"] * 5 + ["dir", "symlink"]), data=rbytes_(rnd, rnd.choice([0, 1, 700, 10240, 10241, 40000])), t="bystander")
               for nm in rnd.sample(names, 6)]
        fmt = rnd.choice([f for f in ("gnu", "pax", "tar.gz", "tar.xz", "zip", "zip0") if supports(f, mem)])
        seq = [rnd.choice([m["n"] for m in mem] + ["missing"]) for _ in range(rnd.choice([8, 20, 40]))]
        cases.append(dict(fmt=fmt, loc="C.UTF-8", members=mem, want=seq[0], seq=seq, threads=rnd.choice([1, 2, 4, 8])))
    for bad in ("missing", "d", "s", "?"):
        mem = [dict(n="d", k="dir", data=b""), dict(n="s", k="symlink", data=b"", t="bystander"), dict(n="f", k="file", data=rbytes_(rnd, 3000))]
        cases.append(dict(fmt=rnd.choice(["gnu", "zip0"]), loc="C.UTF-8", members=mem, want="f", seq=[bad] * 300 + ["f"], threads=1))

    def go(c, d):
        os.chmod(d, 0o755)
        arc = os.path.join(d, "in.arc")
        cwd = os.path.join(d, "cwd")
        os.makedirs(cwd)
        mem = c["members"]
        cut = "none"
        if c["fmt"] == "raw":
            if c["raw"] is not None:
                open(arc, "wb").write(c["raw"])
        else:
            ranges = make(arc, c["fmt"], mem)
            if "cutm" in c:
                cm = c["cutm"]
                if cm["m"] <= len(mem):
                    b, e = ranges[cm["m"] - 1]
                    # before the header when the member has no blocks left to cut, else inside its data
                    pos = min(b + cm["b"] * 512, e) if e > b else b - 512
                    if e > b and pos >= e:
                        pos = e - 1
                    with open(arc, "r+b") as f:
                        f.truncate(max(pos, 0))
                    idx = [i for i, m in enumerate(mem) if m["n"] == c["want"]]
                    cut = "inside" if idx and idx[0] >= cm["m"] - 1 else "elsewhere"
            elif c.get("dmg"):
                size = os.path.getsize(arc)
                if c["dmg"] == "cut":
                    pos = int(size * c["r"])
                    with open(arc, "r+b") as f:
                        f.truncate(pos)
                    cut = "elsewhere"
                    if ranges:
                        idx = [i for i, m in enumerate(mem) if m["n"] == c["want"]]
                        if idx and pos < ranges[idx[0]][1]:
                            cut = "inside"
                elif c["fmt"] in ("zip", "zip0"):
                    # the member's own packed bytes, which a check sum protects: a flipped bit is noticed, or harmless
                    with zipfile.ZipFile(arc) as z:
                        zi = [x for x in z.infolist() if x.filename == c["want"]]
                    if zi and zi[0].compress_size:
                        off = zi[0].header_offset
                        with open(arc, "r+b") as f:
                            f.seek(off + 26)
                            nl, el = struct.unpack("<HH", f.read(4))
                            pos = off + 30 + nl + el + int(c["r"] * zi[0].compress_size)
                            f.seek(pos)
                            x = f.read(1)
                            f.seek(pos)
                            f.write(bytes([x[0] ^ (1 << (c["r2"] % 8))]))
                        cut = "flip"
        by = os.path.join(cwd, "bystander")
        open(by, "wb").write(b"do not touch")
        open(os.path.join(cwd, "a"), "wb").write(b"nor me")
        calls = os.path.join(d, "calls")
        open(calls, "w").close()
        os.chmod(calls, 0o666)
        subprocess.run(["chown", "-hR", "%d:%d" % (NOBODY, NOBODY), cwd], check=True)
        before = snap(cwd)
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": c.get("loc", "C"), "LD_PRELOAD": so, "FT_CALLS": calls, "THREADS": str(c.get("threads", 1))}
        seq = c.get("seq", [c["want"]])
        lim = ["prlimit", "--nofile=200"] if len(seq) > 1 else []
        if c.get("limit"):
            # a disk that fills up: writing beyond the limit fails
            lim = ["sh", "-c", "trap '' XFSZ; exec prlimit --fsize=%d \"$@\"" % c["limit"], "sh"]
            w_ = [m for m in mem if m["n"] == c["want"] and m["k"] == "file"]
            if w_ and len(w_[0]["data"]) > c["limit"]:
                cut = "inside"
        try:
            p = subprocess.run(lim + ["setpriv", "--reuid=%d" % NOBODY, "--regid=%d" % NOBODY, "--clear-groups", exe], cwd=cwd, env=e, timeout=30,
                               input="".join((arc + (".none" if x == "?" else "")) + "\t" + x + "\n" for x in seq).encode(), capture_output=True)
            out, rc, err = p.stdout.decode("utf-8", "replace").strip(), p.returncode, p.stderr.decode("utf-8", "replace")[-400:]
        except subprocess.TimeoutExpired:
            out, rc, err = "", 124, "timeout"
            HUNG.append(1)
        outs = out.split("\n")
        crashed = rc != 0 or len(outs) != len(seq) or not all(outs)
        cid = {}
        for m in mem:
            cid.setdefault(m["data"] if m["k"] == "file" else None, len(cid) + 1)
        made = {x.split(" ", 1)[1] for x in open(calls).read().splitlines()}
        reqs = []
        for nm, o in zip(seq, outs):
            res = dict(ok=o.startswith("/") and not crashed, d=0, private=False, regular=False)
            if res["ok"] and os.path.lexists(o):
                st = os.lstat(o)
                res["regular"] = stat.S_ISREG(st.st_mode) and st.st_nlink == 1
                res["private"] = (st.st_mode & 0o7777) == 0o600
                if stat.S_ISREG(st.st_mode):
                    res["d"] = cid.get(open(o, "rb").read(), 0)
            if dict(n=nm, res=res) not in reqs:
                reqs.append(dict(n=nm, res=res))
        good = [o for o in outs if o.startswith("/")]
        left = []
        for q in sorted(made):
            if q not in good and os.path.lexists(q) and not q.startswith(("/dev", "/proc")) and not q.startswith(cwd):
                left.append(q)
        # the temporary file may be created, replaced and removed under its own name only
        stray = [q for q in sorted(made) if not q.startswith("/tmp/ftwin") and not q.startswith(("/dev", "/proc"))]
        if not made and good:
            stray.append("unseen temporary file")
        for q in left + good:
            if q.startswith("/tmp/ftwin"):
                (os.rmdir if os.path.isdir(q) and not os.path.islink(q) else os.unlink)(q) if os.path.lexists(q) else None
        others = snap(cwd) == before
        if crashed:
            others = False
        if cut == "flip":
            # either the exact bytes or a failure
            cutv = "elsewhere"
        else:
            cutv = cut
        rec = dict(a=[dict(n=m["n"], k=m["k"], d=cid.get(m["data"] if m["k"] == "file" else None, 0)) for m in mem], reqs=reqs, cut=cutv, distinct=len(set(good)) == len(good),
                   calls=stray, left=left, others=others)
        if c["fmt"] == "raw":
            rec["cut"] = "inside"
        return rec, dict(format=c["fmt"], locale=c.get("loc", "C"), members=[(m["n"], m["k"], len(m["data"]), oct(m.get("mode", 0o644))) for m in mem], requests=seq if len(seq) < 50 else [seq[0], "x %d" % len(seq), seq[-1]], threads=c.get("threads", 1), damage=cut, limit=c.get("limit"),
                         answers=reqs, rc=rc, stray_calls=stray, left=left, bystanders_unchanged=others, stderr=err)
    judge(ctx, cases, go, module="ArchiveTrace", what="extraction did not yield the member exactly or nothing")


def rbytes_(rnd, n):
    return rnd.randbytes(n)


def snap(d):
    return sorted((os.path.relpath(os.path.join(dp, f), d), open(os.path.join(dp, f), "rb").read() if os.path.isfile(os.path.join(dp, f)) else b"?",
                   os.lstat(os.path.join(dp, f)).st_mode, os.lstat(os.path.join(dp, f)).st_nlink) for dp, dn, fn in os.walk(d) for f in fn + dn)
