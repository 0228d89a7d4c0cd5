#!/usr/bin/env python3
"""Planted bugs: create them from a spec and verify them against the live repository.

  seedtool.py make SPEC.py [id...]   write seeded/<id>/ for every spec and verify it
  seedtool.py verify [id...]         re-verify committed ones (patch applies, tests pass, demo, check)

Never run by a check.  Applies each patch to /repo's working tree and undoes it straight afterwards.
"""
import json, os, re, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("LCE_REPO", "/repo")
SD = os.path.join(V, "seeded")

DEMO = """#!/bin/bash
# exit 0 when the property holds in the tree the script is started in, nonzero when it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
%(cxx)s -std=gnu++11 -g -w %(flags)s -Iinclude "$d/demo.cpp" %(srcs)s -o "$t/demo" -lpthread || exit 98
cd "$t" || exit 97
timeout 120 "$t/demo" "$t"
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def restore():
    sh(["git", "-C", R, "checkout", "-q", "--", "."])

def edit(path, edits):
    p = os.path.join(R, path)
    data = open(p, encoding="latin-1", newline="").read()
    crlf = "\r\n" in data
    for e in edits:
        old, new = e[0], e[1]
        if crlf:
            old = re.sub(r"(?<!\r)\n", "\r\n", old); new = re.sub(r"(?<!\r)\n", "\r\n", new)
        n = data.count(old)
        idx = e[2] if len(e) > 2 else None
        if idx is None:
            if n != 1:
                raise SystemExit("%s: %d matches of %r" % (path, n, old))
            data = data.replace(old, new)
        else:
            pos = -1
            for _ in range(idx):
                pos = data.index(old, pos + 1)
            data = data[:pos] + new + data[pos + len(old):]
    open(p, "w", encoding="latin-1", newline="").write(data)

def originals(patch):
    """lines the patch removes that came from our own commits"""
    root = sh(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"]).stdout.decode().strip()
    bad, f, ln = [], None, 0
    for l in patch.decode("latin-1").split("\n"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(["git", "-C", R, "blame", "-l", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f]).stdout.decode("latin-1")
            if not b.lstrip("^").startswith(root[:39]): bad.append((f, ln, b[:60]))
            ln += 1
        elif l.startswith(" "): ln += 1
    return bad

def tests():
    if R != "/repo": return ""  # a scratch clone: the tests are run when it is verified in /repo
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "BUILD FAILED " + b.stdout.decode("latin-1")[-600:]
    out = tempfile.mktemp(prefix="/tmp/seedt.")
    sh(["bash", "/opt/vp/test.sh", out])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    res = open(out).read(); os.unlink(out)
    j = json.loads(res)
    passed = set(j.get("passed") or [k for k, v in j.items() if v in ("pass", "passed", True)])
    miss = [s for s in stable if s not in passed]
    return "" if not miss else "TESTS FAIL " + ",".join(miss)

def demo(d):
    r = sh(["timeout", "300", "bash", os.path.join(d, "demo.sh")], cwd=R)
    return r.returncode, r.stdout.decode("latin-1")[-500:]

def check(prop):
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    r = sh(["timeout", "900", "python3", os.path.join(V, "check.py"), prop], cwd=V, env=env)
    o = r.stdout.decode("latin-1")
    m = re.search(r"VIOLATION property=%s.*" % prop, o)
    why = [l for l in o.split("\n") if "failure, conf" in l or "FAIL" in l]
    return r.returncode, (m.group(0) if m else "no violation"), (why[0][:160] if why else "")

def verify(i, prev=None):
    d = os.path.join(SD, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    patch = open(os.path.join(d, "patch.diff"), "rb").read()
    if not patch.strip(): return i, "EMPTY PATCH"
    bad = originals(patch)
    if bad: return i, "NOT ORIGINAL LINES %s" % bad
    rc, o = demo(d)
    if rc: return i, "demo fails on clean tree rc=%d %s" % (rc, o)
    a = sh(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
    if a.returncode: return i, "does not apply " + a.stdout.decode()
    try:
        t = tests()
        if t: return i, t
        rc, o = demo(d)
        if not rc: return i, "demo passes with the patch"
        if rc in (97, 98, 99): return i, "demo does not build with the patch " + o
        c = check(meta["property"])
        return i, ("caught" if c[0] == 1 and "VIOLATION" in c[1] else "MISSED rc=%d" % c[0]) + " | demo rc=%d %s | %s" % (rc, o.strip().split("\n")[-1][:80], c[2])
    finally:
        restore()

def main():
    if sh(["git", "-C", R, "status", "--porcelain", "--untracked-files=no"]).stdout.strip():
        raise SystemExit("/repo is not clean")
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        ids = args[1:]
        for s in ns["SEEDS"]:
            if ids and s["id"] not in ids: continue
            d = os.path.join(SD, s["id"]); os.makedirs(d, exist_ok=True)
            try:
                for f, es in s["edits"].items(): edit(f, es)
                p = sh(["git", "-C", R, "diff"]).stdout
            finally:
                restore()
            open(os.path.join(d, "patch.diff"), "wb").write(p)
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(cxx=s.get("cxx", "g++"), flags=s.get("flags", ""), srcs=s.get("srcs", "")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("%-28s %s" % verify(s["id"]), flush=True)
    else:
        for i in args or sorted(os.listdir(SD)):
            print("%-28s %s" % verify(i), flush=True)

main()
