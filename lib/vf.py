"""Framework: build the library from /repo, compile drivers, explore TLA+ specs with TLC,
generate scripts, execute them on the real code and validate the recorded traces with TLC."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, fcntl, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", "/tmp/vfcache")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    pass


def q(quick, thorough):
    return thorough if THOROUGH else quick


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


# ---------------------------------------------------------------- build
def repo_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for top in ("src", "include", "arch", "scripts", "cmake", "CMakeLists.txt", "build.cmake"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fd:
                h.update(fd.read())
    return h.hexdigest()[:20]


class Lib:
    """A build of libbfdev.a in a scratch directory keyed by the content of the sources."""
    def __init__(self, cflags=(), defs=(), san=True, tag=""):
        key = repo_hash(" ".join(cflags) + "|" + " ".join(defs) + str(san) + tag)
        self.key = key
        self.dir = os.path.join(CACHE, key)
        self.san = san
        self.cflags = list(cflags)
        os.makedirs(CACHE, exist_ok=True)
        with open(os.path.join(CACHE, key + ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(self.dir, "ok")):
                self._build(defs)
        self.inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "arch/generic/include"),
                    "-I" + os.path.join(self.dir, "generated")]

    def _build(self, defs):
        shutil.rmtree(self.dir, ignore_errors=True)
        # keep the cache small
        old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, d))),
                     key=os.path.getmtime)
        for d in old[:-12]:
            shutil.rmtree(d, ignore_errors=True)
        cmd = ["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
               "-DBFDEV_EXAMPLES=OFF", "-DBFDEV_TESTSUITE=OFF", "-DBFDEV_STRICT=OFF"]
        flags = list(self.cflags)
        if not any("auto-var-init" in x for x in flags):
            flags.append("-ftrivial-auto-var-init=pattern")
        if self.san:
            cmd += ["-DBFDEV_ASAN=ON", "-DBFDEV_UBSAN=ON"]
            flags.append("-fno-sanitize-recover=all")
        cmd += list(defs)
        if flags:
            cmd.append("-DCMAKE_C_FLAGS=" + " ".join(flags))
        r = run(cmd)
        if r.returncode:
            raise CheckError("cmake failed:\n" + r.stdout[-2000:] + r.stderr[-3000:])
        for _ in range(2):     # generated CRC headers appear after the first pass on some ninja versions
            r = run(["ninja", "-C", self.dir, "bfdev_static"], timeout=800)
            if r.returncode == 0:
                break
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout[-6000:])
        open(os.path.join(self.dir, "ok"), "w").close()

    def conc(self, name, srcs=(), opt="-O2"):
        """A driver whose code under test (drivers/NAME_ops.c and the given library sources) is compiled with access hooks."""
        d = os.path.join(VERIF, "drivers")
        h = hashlib.sha256()
        for f in [os.path.join(d, x) for x in (name + ".c", name + "_ops.c", "drv.h", "conc.h", name + "_ops.h") if os.path.exists(os.path.join(d, x))]:
            h.update(open(f, "rb").read())
        exe = os.path.join(self.dir, "conc-%s%s-%s" % (name, opt, h.hexdigest()[:12]))
        if os.path.exists(exe):
            return exe
        inc = self.inc + ["-I" + d]
        objs = []
        for src in [os.path.join(d, name + "_ops.c")] + [os.path.join(REPO, x) for x in srcs]:
            o = exe + "-%d-%s.o" % (os.getpid(), os.path.basename(src)[:-2])
            r = run(["gcc", "-std=gnu11", opt, "-g", "-w", "-fsanitize=thread", "-c", src, "-o", o] + inc)
            if r.returncode:
                raise CheckError("%s does not compile:\n%s" % (src, r.stderr[-4000:]))
            objs.append(o)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run(["gcc", "-std=gnu11", "-O2", "-g", "-w"] + inc + [os.path.join(d, name + ".c")] + objs + [os.path.join(self.dir, "libbfdev.a"), "-lm", "-lpthread", "-o", tmp])
        if r.returncode:
            raise CheckError("driver %s does not link:\n%s" % (name, r.stderr[-4000:]))
        for o in objs:
            os.unlink(o)
        os.rename(tmp, exe)
        return exe

    def driver(self, name, extra=(), out=None, san=None, srcs=()):
        src = os.path.join(VERIF, "drivers", name + ".c")
        h = hashlib.sha256()
        for f in [src] + sorted(glob.glob(os.path.join(VERIF, "drivers", "*.h"))) + list(srcs):
            h.update(open(f, "rb").read())
        h.update((" ".join(extra) + str(san)).encode())
        exe = os.path.join(self.dir, "drv-%s-%s" % (out or name, h.hexdigest()[:12]))
        if os.path.exists(exe):
            return exe
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = ["gcc", "-std=gnu11", "-O1", "-g", "-w"] + (SAN if (self.san if san is None else san) else []) + \
            self.inc + ["-I" + os.path.join(VERIF, "drivers")] + list(extra) + [src] + list(srcs) + \
            ["-Wl,--whole-archive", os.path.join(self.dir, "libbfdev.a"), "-Wl,--no-whole-archive", "-lm", "-lpthread", "-o", tmp]
        r = run(cmd)
        if r.returncode:
            raise CheckError("driver %s does not compile:\n%s" % (name, r.stderr[-4000:]))
        os.rename(tmp, exe)
        return exe


# ---------------------------------------------------------------- TLC
def tlc(workdir, mod, workers=4, timeout=600, extra=(), heap="3g"):
    """Run TLC on workdir/mod.tla. Returns (rc, stdout)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=workdir)
    cmd = ["java", "-Djava.io.tmpdir=" + workdir, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:ParallelGCThreads=4",
           "-cp", TLACP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", mod + ".cfg"] + list(extra) + [mod + ".tla"]
    try:
        with open(os.path.join(workdir, mod + ".out"), "w") as fo:
            r = subprocess.run(cmd, cwd=workdir, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout on %s" % mod)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, os.path.join(workdir, mod + ".out")


def tlcerr(out):
    k = min([out.find(x) for x in ("Semantic errors", "***Parse Error***", "Error:") if x in out] or [max(0, len(out) - 3000)])
    return out[k:k + 2500]


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Work:
    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % name)

    def close(self):
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)


def copy_specs(wd):
    sp = os.path.join(VERIF, "spec")
    for f in os.listdir(sp):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(sp, f), wd)


EXPLORE = """---- MODULE Explore_%(mc)s ----
\\* generated wrapper: exhaustive exploration of %(mc)s (state s, command cmd), every transition printed
EXTENDS %(mc)s, Json, TLCExt
VARIABLES s, cmd
Init == s = Null /\\ cmd = <<"init", <<>>>>
Next == \\E c \\in Cmds(s) : \\E x \\in Step(s, c[1], c[2]) : s' = x.s /\\ cmd' = c
Spec == Init /\\ [][Next]_<<s, cmd>>
View == s
Invariant == Inv(s)%(more)s
Constr == Bound(s)
Emit == PrintT("@E~~" \\o ToString(TLCFP(s)) \\o "~~" \\o ToJson(cmd') \\o "~~" \\o ToString(TLCFP(s')))
====
"""
EXPLORE_CFG = """SPECIFICATION Spec
VIEW View
INVARIANT Invariant
CONSTRAINT Constr
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
VALID = """---- MODULE Valid_%(sp)s_%(k)d ----
\\* generated wrapper: validates recorded sessions (one JSON line each) against %(sp)s
EXTENDS %(sp)s, Json, TLC, Sequences, Naturals, FiniteSets
T == ndJsonDeserialize("%(file)s")
VARIABLES s, i, l
vars == <<s, i, l>>
Init == s = Null /\\ l = 1 /\\ i \\in 1..Len(T)
Ev == T[i].e[l]
Next == /\\ l <= Len(T[i].e)
        /\\ LET X == Step(s, Ev[1], Ev[2])
               Y == {x \\in X : x.r = Ev[3]}
           IN IF Y = {}
              THEN PrintT("@REJ|" \\o ToString(i) \\o "|" \\o ToString(l) \\o "|" \\o ToString({x.r : x \\in X})) /\\ FALSE
              ELSE \\E x \\in Y : s' = x.s /\\ l' = l + 1 /\\ i' = i
                    /\\ (l = Len(T[i].e) => PrintT("@OK|" \\o ToString(i)))
Spec == Init /\\ [][Next]_vars
Invariant == Inv(s)
====
"""
VALID_CFG = "SPECIFICATION Spec\nINVARIANT Invariant\nCHECK_DEADLOCK FALSE\n"


def explore(wd, mc, workers=6, timeout=400, heap="6g", emit=True):
    """Exhaustive TLC run. Returns dict(states, transitions, edges=[(src, cmd, dst)])."""
    mod = "Explore_" + mc
    with open(os.path.join(wd, mod + ".tla"), "w") as f:
        f.write(EXPLORE % dict(mc=mc, more=" /\\ MCInv(s)" if "\nMCInv(s)" in open(os.path.join(VERIF, "spec", mc + ".tla")).read() else ""))
    with open(os.path.join(wd, mod + ".cfg"), "w") as f:
        f.write(EXPLORE_CFG if emit else EXPLORE_CFG.replace("ACTION_CONSTRAINT Emit\n", ""))
        cfg = os.path.join(wd, mc + ".cfg")
        if os.path.exists(cfg):
            f.write(open(cfg).read())
    rc, outf = tlc(wd, mod, workers=workers, timeout=timeout, heap=heap)
    edges, ids, tail = [], {}, []
    gen = dist = 0
    ok = False
    with open(outf) as f:
        for line in f:
            if line.startswith('"@E~~'):
                t = json.loads(unq(line))
                a, c, b = t[4:].split("~~")
                ia = ids.setdefault(a, len(ids))
                ib = ids.setdefault(b, len(ids))
                edges.append((ia, c, ib))
            else:
                tail.append(line)
                m = re.search(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                if "No error has been found" in line:
                    ok = True
    if not ok:
        raise CheckError("TLC exploration of %s failed:\n%s" % (mc, tlcerr("".join(tail))))
    os.unlink(outf)
    edges = list(dict.fromkeys(edges))
    return dict(states=dist, transitions=gen, edges=edges, init=edges[0][0], ids=ids)


def unq(line):
    """TLC prints a string value in quotes with inner quotes escaped; make it a JSON string."""
    return line.strip()


def tour(g, rng, maxlen=60, maxcmds=60000):
    """Sessions (lists of commands) from the initial state covering every edge where possible."""
    out = {}
    for a, c, b in g["edges"]:
        out.setdefault(a, []).append((c, b))
    todo = {a: list(range(len(v))) for a, v in out.items()}
    for v in todo.values():
        rng.shuffle(v)
    init = g["init"]
    left = len(g["edges"])
    # BFS tree from init for shortest prefixes
    par = {init: None}
    order = [init]
    for a in order:
        for k, (c, b) in enumerate(out.get(a, ())):
            if b not in par:
                par[b] = (a, c)
                order.append(b)
    # distance to the nearest state with uncovered edges is approximated by restarting
    sessions, total = [], 0
    pend = list(order)
    while left and total < maxcmds:
        while pend and not todo.get(pend[0]):
            pend.pop(0)
        if not pend:
            break
        st = pend[0]
        path = []
        x = st
        while par[x] is not None:
            path.append(par[x][1])
            x = par[x][0]
        path.reverse()
        while len(path) < maxlen:
            if todo.get(st):
                k = todo[st].pop()
                left -= 1
            else:
                # look for an uncovered edge within a small BFS
                nxt = near(out, todo, st, 400)
                if nxt is None:
                    break
                for c, b in nxt:
                    path.append(c)
                    st = b
                continue
            c, b = out[st][k]
            path.append(c)
            st = b
        sessions.append([tuple(json.loads(c)) for c in path])
        total += len(path)
    return sessions, len(g["edges"]) - left


def near(out, todo, st, limit):
    seen = {st: None}
    order = [st]
    for a in order:
        if a != st and todo.get(a):
            p = []
            while seen[a] is not None:
                pa, c = seen[a]
                p.append((c, a))
                a = pa
            return p[::-1]
        if len(order) > limit:
            return None
        for c, b in out.get(a, ()):
            if b not in seen:
                seen[b] = (a, c)
                order.append(b)
    return None


# ---------------------------------------------------------------- driver execution
def tok(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        assert x and not re.search(r"\s", x), repr(x)
        return x
    return "[" + ",".join(tok(y) for y in x) + "]"


def line_of(cmd):
    return " ".join([cmd[0]] + [tok(a) for a in cmd[1]])


def execute(exe, sessions, timeout=60, env=None, args=(), limit_crash=40):
    """Run sessions on a driver; returns a list of event lists [op, args, result].
    A crash or hang ends its session with an extra CRASH event."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e.update(env or {})
    res = [None] * len(sessions)
    n = 0
    crashes = 0
    while n < len(sessions):
        text = []
        for ses in sessions[n:]:
            text.append("@")
            text += [line_of(c) for c in ses]
        try:
            p = subprocess.run([exe] + list(args), input="\n".join(text) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=timeout, env=e)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc = "timeout"
            so = (x.stdout or b"").decode(errors="replace")
            se = (x.stderr or b"").decode(errors="replace")
        blocks = so.split("@\n")[1:]
        done = len(blocks) if rc == 0 else len(blocks) - 1
        for k, blk in enumerate(blocks):
            ses = sessions[n + k]
            lines = blk.split("\n")
            if lines and lines[-1] == "":
                lines.pop()
            elif lines and rc != 0 and k == len(blocks) - 1:
                lines.pop()     # partial line of a crashed command
            if len(lines) > len(ses):
                raise CheckError("driver %s printed more lines than commands: %r" % (exe, lines[-2:]))
            evs = []
            for c, ln in zip(ses, lines):
                try:
                    evs.append([c[0], list(c[1]), json.loads(ln)])
                except ValueError:
                    raise CheckError("driver %s: bad output %r for %r" % (exe, ln[:300], c))
            if k < done:
                if len(lines) != len(ses):
                    raise CheckError("driver %s: %d results for %d commands (%r)" % (exe, len(lines), len(ses), ses[len(lines):len(lines) + 1]))
            else:
                m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|BUG[^\n]*|[Aa]ssert[^\n]*)", se)
                c = ses[len(lines)] if len(lines) < len(ses) else ("end", [])
                if rc == 77:
                    raise CheckError("driver %s rejected command %r: %s" % (exe, c, se[-300:]))
                evs.append([c[0], list(c[1]), ["CRASH", str(rc), (m.group(1) if m else se[-160:])[:160]]])
            res[n + k] = evs
        if rc == 0:
            if len(blocks) != len(sessions) - n:
                raise CheckError("driver %s stopped early" % exe)
            break
        if not blocks:
            raise CheckError("driver %s failed at start: rc=%s %s" % (exe, rc, se[-500:]))
        n += len(blocks)
        crashes += 10 if rc in (-14, -27, "timeout") else 1     # hangs are expensive
        if crashes >= limit_crash:
            break
    return [r for r in res if r is not None]


def pexecute(exe, sessions, jobs=8, **kw):
    if len(sessions) < 16:
        return execute(exe, sessions, **kw)
    k = (len(sessions) + jobs - 1) // jobs
    parts = [sessions[i:i + k] for i in range(0, len(sessions), k)]
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda p: execute(exe, p, **kw), parts))
    return [x for r in rs for x in r]


# ---------------------------------------------------------------- validation
def has_crash(ev):
    r = ev[2]
    return isinstance(r, list) and len(r) == 3 and r[0] == "CRASH"


def validate_one(wd, sp, traces, k=0, workers=2, timeout=800, heap="3g"):
    """Validate sessions; returns (rejections [(idx, pos, expected)], states generated)."""
    # a crash event cannot type-match a result; cut it and report it as a rejection here
    rej, clean = [], []
    for n, t in enumerate(traces):
        if t and has_crash(t[-1]):
            rej.append((n, len(t), "no crash"))
            t = t[:-1]
        clean.append(t)
    fn = "trace_%s_%d.ndjson" % (sp, k)
    idx = [n for n, t in enumerate(clean) if t]
    if not idx:
        return rej, 0
    with open(os.path.join(wd, fn), "w") as f:
        for n in idx:
            f.write(json.dumps({"e": clean[n]}) + "\n")
    mod = "Valid_%s_%d" % (sp, k)
    with open(os.path.join(wd, mod + ".tla"), "w") as f:
        f.write(VALID % dict(sp=sp, k=k, file=fn))
    with open(os.path.join(wd, mod + ".cfg"), "w") as f:
        f.write(VALID_CFG)
        cfg = os.path.join(wd, sp + ".cfg")
        if os.path.exists(cfg):
            f.write(open(cfg).read())
    rc, outf = tlc(wd, mod, workers=workers, timeout=timeout, heap=heap)
    out = open(outf).read()
    oks = set(int(x) for x in re.findall(r'^"@OK\|(\d+)"', out, re.M))
    rj = {}
    for m in re.finditer(r'^"@REJ\|(\d+)\|(\d+)\|(.*)"$', out, re.M):
        i, l = int(m.group(1)), int(m.group(2))
        if i not in rj or rj[i][0] < l:
            rj[i] = (l, m.group(3).replace('\\"', '"'))
    if "No error has been found" not in out:
        raise CheckError("TLC validation of %s failed:\n%s" % (sp, tlcerr(out)))
    for j, n in enumerate(idx, 1):
        if j in oks:
            continue
        if j not in rj:
            raise CheckError("TLC gave no verdict for session %d of %s\n%s" % (j, sp, out[-1500:]))
        rej.append((n, rj[j][0], rj[j][1]))
    os.unlink(os.path.join(wd, fn))
    return rej, stats(out)[0]


_vk = [0]


def validate(wd, sp, traces, jobs=4, workers=2, **kw):
    """Shard sessions over several TLC processes."""
    tot = sum(len(t) for t in traces)
    jobs = max(1, min(jobs, tot // 1500 + 1))
    order = sorted(range(len(traces)), key=lambda n: -len(traces[n]))
    parts = [[] for _ in range(jobs)]
    loads = [0] * jobs
    for n in order:
        j = loads.index(min(loads))
        parts[j].append(n)
        loads[j] += len(traces[n]) + 1
    _vk[0] += 100
    base = _vk[0]
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda jp: validate_one(wd, sp, [traces[n] for n in jp[1]], k=base + jp[0], workers=workers, **kw),
                         list(enumerate(parts))))
    rej, st = [], 0
    for part, (r, g) in zip(parts, rs):
        st += g
        rej += [(part[n], l, e) for n, l, e in r]
    return rej, st


# ---------------------------------------------------------------- check driver
class Enough(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, samples=[], parts=[])
        self.violations = []
        self.work = Work(pid)
        self.wd = self.work.dir
        copy_specs(self.wd)
        self.known = self._known()
        self.assumptions = []
        self.lk = threading.Lock()

    def _known(self):
        res = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", ln)
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3).strip()))
        return res

    def rng(self, salt=""):
        return random.Random("%d/%s/%s" % (SEED, self.pid, salt))

    def explore(self, mc, **kw):
        g = explore(self.wd, mc, **kw)
        with self.lk:
            self.cov["states"] += g["states"]
            self.cov["transitions"] += g["transitions"]
            self.cov["parts"].append(dict(model=mc, states=g["states"], transitions=g["transitions"], edges=len(g["edges"])))
        return g

    def run_and_validate(self, sp, exe, sessions, label="", keep=3, jobs=4, workers=2, env=None, args=(), timeout=60, heap="3g",
                         transform=None, undo=None):
        """Execute sessions and validate them against spec sp; record violations."""
        sessions = [s for s in sessions if s]
        self.enough()
        tr = pexecute(exe, sessions, env=env, args=args, timeout=timeout)
        if transform:
            tr = [transform(t) for t in tr]
        rej, st = validate(self.wd, sp, tr, jobs=jobs, workers=workers, heap=heap)
        with self.lk:
            self.cov["traces_validated_against_impl"] += len(tr)
            self.cov["events_validated"] += sum(len(t) for t in tr)
            self.cov["states"] += 0
            self.cov["parts"].append(dict(validated=sp, label=label, sessions=len(tr), events=sum(len(t) for t in tr), tlc_states=st, rejected=len(rej)))
            for t in tr[:1]:
                if len(self.cov["samples"]) < 6:
                    self.cov["samples"].append(dict(spec=sp, label=label, trace=[e if len(x) <= 3000 else x[:3000] + " ... (%d characters)" % len(x)
                                                                                 for e in t[:6] for x in [json.dumps(e)]]))
        seen = set()
        for n, l, exp in sorted(rej, key=lambda r: r[1]):
            if len(seen) >= keep:
                break
            ev = tr[n][l - 1]
            key = (ev[0], str(ev[2])[:20] if has_crash(ev) else "")
            if key in seen:
                continue
            # confirm by running the same session prefix again
            pre = sessions_prefix(tr[n], l)
            if undo:
                pre = undo(pre)
            for _ in range(3):
                tr2 = execute(exe, [pre], env=env, args=args, timeout=timeout)
                if transform:
                    tr2 = [transform(t) for t in tr2]
                rej2, _ = validate(self.wd, sp, tr2, jobs=1)
                if rej2:
                    break
            if not rej2:
                if has_crash(ev) and str(ev[2][1]) in ("-14", "timeout", "-9"):
                    raise CheckError("%s: %r does not happen again (overloaded machine?)" % (sp, ev))
                # the observation depends on something outside of the script (addresses, old memory)
                tr2, rej2 = [tr[n]], [(0, l, exp)]
            l2 = rej2[0][1]
            seen.add(key)
            self.violation(sp, exe, tr2[0][:l2], rej2[0][2], args=args, env=env, script=undo(sessions_prefix(tr2[0], l2)) if undo else None)
            self.enough()
        return tr

    def enough(self):
        """Ends a check that has its answer and is slow (code that hangs makes every part slow)."""
        if self.violations and time.time() - self.t0 > 240:
            raise Enough()

    def violation(self, sp, exe, trace, expected, args=(), env=None, note="", script=None):
        sig = ".".join([sp, str(trace[-1][0])]) if trace else sp
        text = json.dumps(trace[-1]) if trace else ""
        for pat, desc in self.known:
            if re.search(pat, sig + " " + text):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, desc), flush=True)
                return
        with self.lk:
            k = len(self.violations) + 1
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            fn = os.path.join(d, "%s-%d.json" % (self.pid, k))
            with open(fn, "w") as f:
                json.dump(dict(property=self.pid, spec=sp, driver=os.path.basename(exe), args=list(args), env=env or {}, note=note,
                               script=[line_of((e[0], e[1])) for e in script or trace], observed=trace[-1] if trace else None,
                               expected_by_spec=expected, trace=trace), f, indent=1)
            self.violations.append(fn)
        print("spec %s rejects event %d: %s\n  allowed results: %s" % (sp, len(trace), json.dumps(trace[-1])[:400] if trace else note, str(expected)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(fn, VERIF)), flush=True)

    def finish(self):
        self.work.close()
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations), assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        c = self.cov
        print("%s %s: %d spec states, %d transitions, %d sessions / %d events validated, %d violations, %.1f s" % (
            self.pid, TIER, c["states"], c["transitions"], c["traces_validated_against_impl"], c["events_validated"],
            len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def sessions_prefix(trace, l):
    return [(e[0], e[1]) for e in trace[:l]]


def limbs(x, n=4):
    return [(x >> (16 * k)) & 0xffff for k in range(n)]


def main(pid, fn):
    ck = Check(pid)

    def late():
        if ck.violations:
            ck.finish()
            sys.stdout.flush()
            os._exit(1)
    tm = threading.Timer(780 if TIER == "quick" else 7000, late)
    tm.daemon = True
    tm.start()
    try:
        try:
            fn(ck)
        except Enough:
            pass
        rc = ck.finish()
    except CheckError as e:
        print("ERROR %s: %s" % (pid, e), file=sys.stderr)
        ck.work.close()
        sys.exit(1 if ck.violations else 3)
    except Exception:
        import traceback
        traceback.print_exc()
        ck.work.close()
        sys.exit(1 if ck.violations else 3)
    sys.exit(rc)
