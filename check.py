#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--suite NAME] [extra harness args]

Builds /verif/harness/<id>.cpp together with the sources of starjiang/lce it names, from
/repo's current working tree, and runs it.  Exit 0: held; 1: VIOLATION printed; 2: error."""
import glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LCE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SAN = ("-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero "
       "-fno-sanitize-recover=all -fno-omit-frame-pointer").split()
# behaviour under test is built as the project builds it (C++11 dialect, assertions on)
BASE = "-std=gnu++11 -g1 -O1 -w -pthread -D_GNU_SOURCE".split()


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build(cid, cov=False):
    src = os.path.join(VERIF, "harness", cid.lower() + ".cpp")
    text = open(src).read()
    def tag(name, default=""):
        m = re.search(r"^// %s:(.*)$" % name, text, re.M)
        return (m.group(1).strip() if m else default)
    repo_src = [os.path.join(REPO, s) for s in tag("REPO_SRC").split()]
    cxx = tag("CXX", "clang++")
    san = SAN if tag("SAN", "asan") == "asan" else ["-fsanitize=" + tag("SAN"), "-fno-omit-frame-pointer"] if tag("SAN") != "none" else []
    flags = BASE + san + tag("FLAGS").split()
    if cov:
        flags += ["-fprofile-instr-generate", "-fcoverage-mapping"]
    inc = ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(REPO, "include")]
    deps = [src] + glob.glob(VERIF + "/lib/*")
    for top in ("include", "src"):
        for d, _, names in os.walk(os.path.join(REPO, top)):
            deps += [os.path.join(d, n) for n in names if not n.endswith((".o", ".a", ".d"))]
    key = digest(deps, " ".join([cxx] + flags + inc + repo_src + [tag("LIBS")]))
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s-%s" % (cid.lower(), key))
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, cid.lower() + "-*")):
        try:
            os.unlink(old)
        except OSError:
            pass
    tmp = exe + ".d%d" % os.getpid()
    try:
        os.makedirs(tmp, exist_ok=True)
        for c in [cxx] + [x for x in ("clang++", "g++") if x != cxx]:
            if compile_all(c, flags, inc, [src] + repo_src, tag("LIBS").split(), tmp, exe):
                return exe
    finally:
        for o in glob.glob(tmp + "/*"):
            os.unlink(o)
        os.rmdir(tmp)
    sys.exit(2)


def compile_all(cxx, flags, inc, srcs, libs, tmp, exe):
    def objects(names, prefix, loud):
        procs, objs, bad = [], [], False
        for i, s in enumerate(names):
            o = os.path.join(tmp, "%s%d.o" % (prefix, i))
            procs.append((s, o, subprocess.Popen([cxx] + flags + inc + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, o, p in procs:
            out = p.communicate()[0].decode(errors="replace")
            if p.returncode == 0:
                objs.append(o)
            else:
                bad = True
                if loud:
                    sys.stderr.write("compiling %s failed\n%s\n" % (s, out[:8000]))
        return objs, bad

    objs, bad = objects(srcs, "", True)
    if bad:
        return False
    r = subprocess.run([cxx] + flags + objs + ["-o", exe + ".tmp"] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        # a source may have come to need another one of the library: offer all of them
        more, _ = objects([x for x in sorted(glob.glob(REPO + "/src/*.cpp")) if x not in srcs], "m", False)
        ar = os.path.join(tmp, "more.a")
        subprocess.run(["ar", "rcs", ar] + more, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run([cxx] + flags + objs + [ar, "-o", exe + ".tmp"] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[:8000])
        return False
    os.rename(exe + ".tmp", exe)
    return True


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cid, rest = sys.argv[1].upper(), sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in rest:
        tier = rest[rest.index("--tier") + 1]
    exe = build(cid)
    if "--build-only" in rest:
        return 0
    env = dict(os.environ)
    env.setdefault("VERIF_SEED", "1")
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:max_allocation_size_mb=400:hard_rss_limit_mb=3000:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_abort=1:print_legend=0:color=never:symbolize=1:malloc_context_size=8"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    for p in ("/usr/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18"):
        if os.path.exists(p):
            env["ASAN_SYMBOLIZER_PATH"] = p
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    cmd = [exe, "--evidence", os.path.join(VERIF, "evidence", cid + ".json"),
           "--replaydir", os.path.join(VERIF, "replays"),
           "--known", os.path.join(VERIF, "known_findings.txt")]
    if "--tier" not in rest:
        cmd += ["--tier", tier]
    head = open(os.path.join(VERIF, "harness", cid.lower() + ".cpp")).read()
    m = re.search(r"^// ASAN: (\S+)", head, re.M)
    if m:
        env["ASAN_OPTIONS"] += ":" + m.group(1)
    m = re.search(r"^// SCALE: ([\d.]+)", head, re.M)
    if m and "--scale" not in rest:
        cmd += ["--scale", m.group(1)]
    if "--replay" in rest:
        i = rest.index("--replay") + 1
        rest[i] = os.path.abspath(rest[i])
    sys.stdout.flush()
    r = subprocess.run(cmd + rest, env=env, cwd=VERIF).returncode
    return r if r in (0, 1) else 2


sys.exit(main())
