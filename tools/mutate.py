#!/usr/bin/env python3
"""Mutation runs: small random changes of /repo's sources, each run against the checks that should see it.

  mutate.py OUT N SEED JOBS [file substring...]

Works on private copies under /tmp/mut; never touches /repo.  Never run by a check.
Every line of OUT: verdict, file:line, operator, old and new text.  Survivors are for reading."""
import os, random, re, subprocess, sys, threading, shutil

V, R, T = "/verif", "/repo", "/tmp/mut"
MAP = {
 "include/CAnyValue.h": "C05 C01 C04 C03 C02 C06", "include/CPackage.h": "C07", "include/CAnyPackage.h": "C08", "include/CH2T3PackageFilter.h": "C09",
 "include/CH2ShortT3PackageFilter.h": "C09", "include/CRawPackageFilter.h": "C09", "include/CHttpPackageFilter.h": "C10", "src/CHttpReader.cpp": "C11", "include/CHttpReader.h": "C11",
 "src/CHttpWriter.cpp": "C12", "include/CHttpWriter.h": "C12", "src/Utils.cpp": "C13 C14 C26 C29", "include/StringHelper.h": "C15", "include/CSocketBuf.h": "C16 C26", "include/CBufferQueue.h": "C17",
 "include/CCircleQueue.h": "C18", "include/CBlockQueue.h": "C18", "include/CLock.h": "C18", "include/CLruCache.h": "C19", "include/CBitMap.h": "C20", "include/CShmArray.h": "C20", "include/CShm.h": "C20",
 "src/CConfig.cpp": "C21", "include/CConfig.h": "C21", "src/CFileLog.cpp": "C22", "include/CFileLog.h": "C22", "src/CAsyncLog.cpp": "C23", "include/CLogBuffer.h": "C23", "include/CAsyncLog.h": "C23", "include/CLog.h": "C23", "src/CLog.cpp": "C23",
 "src/CEvent.cpp": "C32 C24 C25 C26", "include/CEvent.h": "C24 C32", "src/CCommMgr.cpp": "C26 C29 C28", "include/CCommMgr.h": "C26 C29", "src/CNetWorker.cpp": "C27", "include/CNetWorker.h": "C27", "include/CNetWorkerMgr.h": "C27",
 "src/CTask.cpp": "C28", "include/CTask.h": "C28", "include/CAnyWorkerPool.h": "C28", "include/CRawWorkerPool.h": "C28", "include/CHttpWorkerPool.h": "C28", "include/CAnyWorker.h": "C28", "include/CRawWorker.h": "C28", "include/CHttpWorker.h": "C28",
 "src/CTcpConnector.cpp": "C30", "src/CUdpConnector.cpp": "C30", "src/CMysql.cpp": "C31", "include/CMysql.h": "C31", "include/Define.h": "C26", "src/CThread.cpp": "C28 C23",
}
if os.path.exists(V + "/harness/c33.cpp"): MAP["src/CThread.cpp"] = "C33"; MAP["src/CTask.cpp"] += " C33"; MAP["include/CTask.h"] += " C33"

for k in MAP:
    if any(w in k for w in ("CEvent", "CCommMgr", "CNetWorker", "CTask", "WorkerPool", "Connector", "CLruCache", "CShm.h", "CThread", "Define.h", "CSocketBuf", "CAnyValue")): MAP[k] += " C34"

def candidates(path):
    out, block = [], False
    txt = open(os.path.join(R, path), encoding="latin-1", newline="").read().split("\n")
    for n, l in enumerate(txt):
        c = l.split("//")[0]; s = c.strip()
        if "/*" in s and "*/" not in s: block = True
        if block:
            if "*/" in s: block = False
            continue
        if not s or s.startswith(("#", "*", "/*", "{", "}", "public:", "private:", "protected:")) and len(s) < 14: continue
        if s.startswith("#") or "snprintf(m_szErr" in s or "szErrMsg" in s or "template" in s or s.startswith(("using", "class", "struct", "typedef", "friend", "throw", "virtual", "case")): continue
        def sub(pat, rep, op):
            for m in re.finditer(pat, c):
                if c[:m.start()].count('"') % 2: continue
                new = c[:m.start()] + (m.expand(rep) if not callable(rep) else rep(m)) + c[m.end():]
                if new != c: out.append((path, n, op, l, new + l[len(c):]))
        sub(r"(?<![<\-=>])<(?![<=])(?= )", "<=", "lt"); sub(r"<=", "<", "le"); sub(r"(?<![>\-])>(?![>=])(?= )", ">=", "gt"); sub(r">=", ">", "ge"); sub(r"==", "!=", "eq"); sub(r"!=", "==", "ne")
        sub(r"&&", "||", "and"); sub(r"\|\|", "&&", "or"); sub(r" \+ 1\b", "", "plus1"); sub(r" - 1\b", "", "minus1"); sub(r"\+\+", "--", "inc"); sub(r"(?<!-)--(?!-)", "++", "dec")
        sub(r" \+ ", " - ", "add"); sub(r" - ", " + ", "sub"); sub(r"\+= ", "-= ", "addas"); sub(r"-= ", "+= ", "subas"); sub(r"\btrue\b", "false", "true"); sub(r"\bfalse\b", "true", "false")
        sub(r"!(?=[\w(])", "", "not"); sub(r"(?<![\w.x])(\d{1,6})\b(?![.x])", lambda m: str(int(m.group(1)) + 1), "const")
        sub(r"\bif \((.*)\)$", r"if (false && (\1))", "if0"); sub(r"\bif \((.*)\)$", r"if (true || (\1))", "if1"); sub(r"\bwhile \((.*)\)$", r"while (false && (\1))", "wh0")
        sub(r"\bbreak;", ";", "break"); sub(r"\bcontinue;", ";", "cont"); sub(r"\breturn;", ";", "ret"); sub(r"\s\* ", " + ", "mul"); sub(r" & ", " | ", "band"); sub(r" \| ", " & ", "bor")
        if re.match(r"^[\w:.\->\[\]()*&, +!\"]+(\(.*\)| [-+|&]?= .*|\+\+|--);$", s) and not re.match(r"^(return|int|char|size_t|uint\w+|const|std::string|string|bool|unsigned|struct|for|\w+ \*?\w+ =)\b", s):
            out.append((path, n, "del", l, ";"))
    return out

lock = threading.Lock()
def main():
    out, n, seed, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); want = sys.argv[5:]
    rnd = random.Random(seed); c = []
    for p in MAP:
        if (not want or any(w in p for w in want)) and os.path.exists(os.path.join(R, p)): c += candidates(p)
    rnd.shuffle(c); todo = c[:n]; print(len(c), "candidates", flush=True)
    f = open(out, "a")
    def worker(k):
        repo, ver = "%s/r%d" % (T, k), "%s/v%d" % (T, k)
        subprocess.run(["rm", "-rf", repo, ver]); os.makedirs(repo); os.makedirs(ver)
        for d in ("include", "src"): shutil.copytree(os.path.join(R, d), os.path.join(repo, d))
        for d in ("harness", "lib"): shutil.copytree(os.path.join(V, d), os.path.join(ver, d))
        for d in ("check.py", "known_findings.txt"): shutil.copy(os.path.join(V, d), ver)
        while True:
            with lock:
                if not todo: return
                path, ln, op, old, new = todo.pop()
            p = os.path.join(repo, path); orig = open(p, encoding="latin-1", newline="").read()
            L = orig.split("\n"); L[ln] = new + ("\r" if old.endswith("\r") and not new.endswith("\r") else "")
            open(p, "w", encoding="latin-1", newline="").write("\n".join(L)); verdict = "SURVIVED"; why = ""
            try:
                for cid in MAP[path].split():
                    try: r = subprocess.run(["timeout", "400", "python3", "check.py", cid], cwd=ver, env=dict(os.environ, LCE_REPO=repo, VERIF_SEED=str(1 + seed)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    except Exception as e: verdict = "ERROR %s" % e; break
                    o = r.stdout.decode("latin-1")
                    if r.returncode == 2: verdict = "nobuild" if "failed" in o else "EXIT2"; why = o[-200:]; break
                    if r.returncode == 124: verdict = "TIMEOUT " + cid; break
                    if r.returncode == 1: verdict = "caught " + cid; break
            finally:
                open(p, "w", encoding="latin-1", newline="").write(orig)
            with lock:
                f.write("%-11s %s:%d %s | %s => %s %s\n" % (verdict, path, ln + 1, op, old.strip(), new.strip(), why.replace("\n", " ") if verdict == "EXIT2" else "")); f.flush()
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
