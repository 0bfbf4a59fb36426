#!/usr/bin/env python3
"""Developer helper of automut.py: runs one check with cached explorations and skips traces known to be accepted."""
import hashlib, json, os, pickle, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
AM = os.environ.get("AM_DIR", "/tmp/am")
REC = os.environ.get("AM_REC") == "1"
import vf
pid = sys.argv[1]
accf = "%s/acc_%s.pkl" % (AM, pid)
acc = pickle.load(open(accf, "rb")) if os.path.exists(accf) else set()

_explore, _validate, _viol = vf.explore, vf.validate, vf.Check.violation

def spechash(wd):
    h = hashlib.sha1()
    for f in sorted(os.listdir(os.path.join(V, "spec"))):
        h.update(open(os.path.join(V, "spec", f), "rb").read())
    return h

def explore(wd, mc, **kw):
    h = spechash(wd)
    cfg = os.path.join(wd, mc + ".cfg")
    h.update((mc + (open(cfg).read() if os.path.exists(cfg) else "")).encode())
    fn = "%s/g_%s_%s.pkl" % (AM, mc, h.hexdigest()[:16])
    if os.path.exists(fn):
        return pickle.load(open(fn, "rb"))
    g = _explore(wd, mc, **kw)
    pickle.dump(g, open(fn + ".%d" % os.getpid(), "wb"))
    os.rename(fn + ".%d" % os.getpid(), fn)
    return g

def validate(wd, sp, traces, **kw):
    key = [hashlib.sha1((sp + json.dumps(t)).encode()).digest()[:10] for t in traces]
    todo = [n for n, k in enumerate(key) if k not in acc]
    if not todo:
        return [], 0
    if not REC:
        # a sample of the differing traces is enough to decide
        todo = sorted(todo, key=lambda n: len(traces[n]))[:400]
    rej, st = _validate(wd, sp, [traces[n] for n in todo], **kw)
    bad = set(n for n, _, _ in rej)
    if REC:
        acc.update(key[n] for j, n in enumerate(todo) if j not in bad)
    return [(todo[n], l, e) for n, l, e in rej], st

def violation(self, *a, **k):
    n = len(self.violations)
    _viol(self, *a, **k)
    if len(self.violations) > n:
        sys.stdout.flush()
        self.work.close()
        os._exit(1)

vf.explore, vf.validate, vf.Check.violation = explore, validate, violation
if os.environ.get("AM_TIMEOUT"):
    import signal
    signal.alarm(int(os.environ["AM_TIMEOUT"]))
import importlib
try:
    vf.main(pid, importlib.import_module(pid.lower()).check)
finally:
    if REC:
        pickle.dump(acc, open(accf, "wb"))
