#!/usr/bin/env python3
"""mkseed.py new <spec.py> | verify [ids...] | check [ids...]

new:    spec.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=str, files={name: text}, needs, breaks)]
        Each is applied to /repo, must build and pass the stable tests, its demo must fail with it and pass without.
verify: re-confirms kept seeds.   check: runs the property's quick check with each seed applied.
The working tree of /repo is restored after every step.
"""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)


def restore():
    subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])


def stable_ok():
    sh("bash", "/opt/vp/test.sh", "/tmp/seed_o.json")
    o = json.load(open("/tmp/seed_o.json"))
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return st - set(o["passed"])


def build():
    r = sh("bash", "/opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]


def demo(i):
    try:
        r = subprocess.run(["bash", os.path.join(S, i, "demo.sh")], cwd="/repo", capture_output=True, text=True, errors="replace", timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def confirm(i, verbose=True):
    d = os.path.join(S, i)
    restore()
    ok, out = build()
    assert ok, out
    rc0, o0 = demo(i)
    r = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
    if r.returncode:
        return "patch does not apply: " + r.stderr
    try:
        ok, out = build()
        if not ok:
            return "does not build: " + out
        miss = stable_ok()
        if miss:
            return "breaks stable tests: %s" % sorted(miss)[:5]
        rc1, o1 = demo(i)
    finally:
        restore()
    build()
    if rc0 != 0:
        return "demo fails on the unchanged tree (%d): %s" % (rc0, o0)
    if rc1 == 0:
        return "demo passes with the change: " + o1
    return None


def check(i):
    d = os.path.join(S, i)
    m = json.load(open(os.path.join(d, "meta.json")))
    restore()
    r = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
    if r.returncode:
        return "NOAPPLY"
    try:
        e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run(["python3", "check.py", m["property"], "quick"], cwd=V, capture_output=True, text=True, errors="replace", env=e, timeout=900)
    finally:
        restore()
    last = [l for l in r.stdout.splitlines() if l.startswith(("what:", "VIOLATION"))]
    return "%s rc=%d %s" % ("CAUGHT" if r.returncode == 1 and any("VIOLATION property=" + m["property"] in l for l in last) else "MISSED", r.returncode,
                            (last[0] if last else (r.stdout + r.stderr)[-300:])[:160])


def main():
    cmd = sys.argv[1]
    if cmd == "new":
        for s in runpy.run_path(sys.argv[2])["SEEDS"]:
            if len(sys.argv) > 3 and s["id"] not in sys.argv[3:]:
                continue
            restore()
            for f, a, b in s["edits"]:
                p = "/repo/src/" + f
                t = open(p).read()
                if t.count(a) != 1:
                    print(s["id"], "EDIT", f, "occurrences:", t.count(a)); break
                open(p, "w").write(t.replace(a, b))
            else:
                diff = sh("git", "-C", "/repo", "diff").stdout
                restore()
                d = os.path.join(S, s["id"])
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/demo.sh", "w").write(s["demo"])
                for n, t in s.get("files", {}).items():
                    open(os.path.join(d, n), "w").write(t)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                why = confirm(s["id"])
                print(s["id"], "OK" if why is None else "REJECTED " + why, flush=True)
                if why is None:
                    print("   ", check(s["id"]), flush=True)
                continue
            restore()
    else:
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids:
            if cmd == "verify":
                print(i, confirm(i) or "OK", flush=True)
            elif cmd == "check":
                print(i, check(i), flush=True)


main()
