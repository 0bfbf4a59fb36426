#!/usr/bin/env python3
"""Developer tool: automatic mutants of the library's sources against the checks.
automut.py record CNN...            record the accepted traces of the unchanged tree
automut.py run N FILE:CNN[,CNN]...  N random mutants of each file against the named checks
Survivors are appended to $AM_DIR/survivors.txt."""
import hashlib, os, random, re, shutil, subprocess, sys, threading, queue, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
AM = os.environ.get("AM_DIR", "/tmp/am")
J = int(os.environ.get("AM_J", "6"))
R = os.path.join(V, "tools", "am_run.py")

def sh(cmd, t=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)

RULES = [
    (r"(?<![<\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![>\-])>(?![>=])", ">="), (r"(?<!>)>=", ">"),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
    (r"(?<![+\w])\+\+(?=\w)", "--"), (r"(?<=\w)\+\+", "--"), (r"(?<=\w)--", "++"),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" / ", " * "), (r" % ", " / "),
    (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" &= ", " |= "), (r" \|= ", " &= "), (r" \^= ", " |= "),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])", lambda m: str(int(m.group(0)) + 1)),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin", "max"), (r"\bmax", "min"), (r"bfdev_min", "bfdev_max"), (r"bfdev_max", "bfdev_min"),
    (r"->next\b", "->prev"), (r"->prev\b", "->next"), (r"\bleft\b", "right"), (r"\bright\b", "left"),
    (r"!(?=[\w(])", ""), (r"(?<=\()(?=\w+(->\w+)*\))", "!"), (r"~", ""),
    (r"\bnext\b", "prev"), (r"\bhigh\b", "low"), (r"\blow\b", "high"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
    (r"_first_", "_last_"), (r"LOW_MASK", "HIGH_MASK"), (r"HIGH_MASK", "LOW_MASK"),
]
DECL = re.compile(r"^\s*(static|extern|const|struct|union|enum|typedef|unsigned|signed|int|long|char|bool|void|size_t|uint\w+|bfdev_\w+_t|bfdev_\w+ \*|#|return|case|default|goto|/\*|\*|\}|\{|BFDEV_\w+\()")

def mutants(text):
    """[(line number, new line)]"""
    out = []
    incomment = False
    inbody = False
    lines = text.split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if not s or s.startswith("//") or s.startswith("#include") or s.startswith("#if") or s.startswith("#e") or s.startswith("extern"):
            continue
        if s.startswith("#define") and not s.endswith("\\") and len(s.split()) < 3:
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), l)
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                if "\0" in m.group(0) or l.strip().startswith("#define") and m.start() < l.find("(" ) :
                    continue
                new = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
                if new != l:
                    out.append((n, new))
        body = s[:-1].strip() if s.endswith("\\") else s
        if body.endswith(";") and not DECL.match(body) and not body.startswith("}") and (l[:1] in " \t"):
            out.append((n, l.replace(body, ";" )))
    return out

def fresh(k):
    d = "%s/r%d" % (AM, k)
    if not os.path.exists(d):
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "_build", "/repo/", d + "/"] if shutil.which("rsync") else ["cp", "-a", "/repo", d], check=True)
    return d

def record(pids):
    for p in pids:
        t = time.time()
        r = sh([sys.executable, R, p], t=1500, env=dict(os.environ, AM_REC="1", VF_CACHE=AM + "/crec"))
        print(p, "rc", r.returncode, "%.0f s" % (time.time() - t), r.stdout.strip().split("\n")[-1][:200] if r.returncode else "", flush=True)

def asm(repo, f, gen):
    r = sh(["gcc", "-std=gnu11", "-O2", "-w", "-S", "-o", "-", f, "-Iinclude", "-Iarch/generic/include", "-I" + gen], cwd=repo, t=60)
    return r.stdout if r.returncode == 0 else None

def work(k, qu, res, lk):
    d = fresh(k)
    env = dict(os.environ, VF_REPO=d, VF_CACHE="%s/c%d" % (AM, k), AM_TIMEOUT="420", TMPDIR="%s/t%d" % (AM, k))
    os.makedirs(env["TMPDIR"], exist_ok=True)
    while True:
        try:
            f, n, new, pids, old = qu.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(d, f)
        orig = open("/repo/" + f).read()
        lines = orig.split("\n")
        lines[n] = new
        verdict, msg = None, ""
        try:
            if f.endswith(".c"):
                a = asm("/repo", f, "/repo/_build/generated")
                open(p, "w").write("\n".join(lines))
                b = asm(d, f, "/repo/_build/generated")
                if b is None:
                    verdict = "nobuild"
                elif a == b:
                    verdict = "same"
            else:
                open(p, "w").write("\n".join(lines))
            if not verdict:
                for pid in pids:
                    try:
                        r = sh([sys.executable, R, pid], t=450, env=env)
                        rc, o = r.returncode, r.stdout
                    except subprocess.TimeoutExpired:
                        rc, o = 14, ""
                    if rc == 1:
                        verdict = "killed"
                        break
                    if rc == 3 and ("build failed" in o or "does not compile" in o or "cmake failed" in o or "does not link" in o):
                        verdict = "nobuild"
                        break
                    if rc != 0:
                        verdict, msg = "ERROR rc=%d" % rc, o[-400:]
                        break
                else:
                    verdict = "SURVIVED"
        finally:
            open(p, "w").write(orig)
            subprocess.run("rm -rf %s/t%d/vf-*" % (AM, k), shell=True)
        with lk:
            res[verdict.split()[0]] = res.get(verdict.split()[0], 0) + 1
            if verdict == "SURVIVED" or verdict.startswith("ERROR"):
                with open(AM + "/survivors.txt", "a") as fo:
                    fo.write("%s %s:%d %s\n  - %s\n  + %s\n%s" % (verdict, f, n + 1, ",".join(pids), old.strip(), new.strip(), ("  ! " + msg.replace("\n", "\n  ! ") + "\n") if msg else ""))

def main():
    if sys.argv[1] == "record":
        return record(sys.argv[2:])
    N = int(sys.argv[2])
    rng = random.Random(os.environ.get("AM_SEED", "1"))
    qu, lk = queue.Queue(), threading.Lock()
    tot = {}
    for a in sys.argv[3:]:
        f, ps = a.split(":")
        t = open("/repo/" + f).read()
        ms = mutants(t)
        rng.shuffle(ms)
        tot[f] = len(ms)
        for n, new in ms[:N]:
            qu.put((f, n, new, ps.split(","), t.split("\n")[n]))
    res = {}
    print("mutants available", tot, "queued", qu.qsize(), flush=True)
    ts = [threading.Thread(target=work, args=(k, qu, res, lk)) for k in range(J)]
    for t in ts:
        t.start()
    while any(t.is_alive() for t in ts):
        time.sleep(20)
        print(time.strftime("%H:%M:%S"), "left", qu.qsize(), res, flush=True)
    print("done", res)

main()
