#!/usr/bin/env python3
"""Developer tool: confirm planted bugs in a private mount namespace (a scratch copy of /repo is bound over /repo).
seed.py NAME...        full confirmation (build, suite, demo with/without) and the property's quick check
seed.py -c NAME...     only the check        (no arguments: all)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
only = "-c" in args
names = [a for a in args if a != "-c"] or sorted(os.listdir(S))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base
def sh(cmd, t=1500):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    return r.returncode, r.stdout
if os.environ.get("SEED_IN") != "1":
    for n in names:
        d = tempfile.mkdtemp(prefix="seed-")
        shutil.rmtree(d)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        env = dict(os.environ, SEED_IN="1", VF_CACHE=d + ".cache")
        subprocess.run(["unshare", "-Urm", "bash", "-c", 'mount --bind "$0" /repo && shift && exec python3 "$@"', d, "x", os.path.abspath(__file__)] + (["-c"] if only else []) + [n], env=env)
        shutil.rmtree(d); shutil.rmtree(d + ".cache", ignore_errors=True)
    sys.exit()
n = names[0]
p = os.path.join(S, n)
meta = json.load(open(os.path.join(p, "meta.json")))
os.chdir("/repo")
res = []
demo = tempfile.mkdtemp(prefix="demo-")
subprocess.run("cp -r %s/. %s/; rm -f %s/*.diff %s/meta.json" % (p, demo, demo, demo), shell=True)
if not only:
    rc, o = sh("bash /opt/vp/build.sh"); assert rc == 0, o[-2000:]
    rc, o = sh("bash %s/demo.sh" % demo); res.append("demo-clean=%d" % rc)
    if rc: print(o[-1500:])
rc, o = sh("git apply %s/patch.diff" % p)
if rc: print(n, "patch does not apply", o); sys.exit(1)
if not only:
    rc, o = sh("bash /opt/vp/test.sh %s/o.json" % demo); r = json.load(open(demo + "/o.json"))
    fails = [x for x in stable if x not in r["passed"]] if r["passed"] else ["BUILD"]
    if fails == ["BUILD"]: print(o[-2500:])
    res.append("suite-missing=%s" % fails[:5])
    rc, o = sh("bash %s/demo.sh" % demo); res.append("demo-bug=%d" % rc)
    if not rc: print(o[-500:])
rc, o = sh("cd /verif && python3 checks/run.py %s" % meta["property"])
v = [l for l in o.split("\n") if l.startswith("VIOLATION property=" + meta["property"])]
res.append("check rc=%d %s" % (rc, "CAUGHT" if rc == 1 and v else "MISSED"))
if rc not in (0, 1): print(o[-1500:])
shutil.rmtree(demo)
print(n, meta["property"], *res, flush=True)
