"""Histories of concurrent programs run under the schedule-controlling driver (drivers/conc.h)."""
import json, os
from vf import *


def flat(prog, codes):
    """[[(op, a, b), ...] per thread] -> the driver's list"""
    out = []
    for k, th in enumerate(prog):
        if k:
            out.append(-1)
        for op, a, b in th:
            out += [codes[op], a, b]
    return out


def traces(prog, result, event):
    """driver result -> [(schedule, trace)]"""
    res = []
    for h in result[2:]:
        t = [["start", [len(prog)], 0]]
        for e in h[1:]:
            if e[0] == 0:
                op, args = event(e[2], e[3], e[4])
                t.append(["call", [e[1], op, args], 0])
            elif e[0] == 1:
                t.append(["ret", [e[1]], e[2:]])
            else:
                t.append(["end", [0], e[1:]])
        res.append((h[0], t))
    return res


def check_programs(ck, sp, exe, cmds, codes, event, label, keep=2, timeout=300):
    """cmds: list of (program, command name, extra args).  Every distinct history must be accepted by spec sp."""
    ses = [[(c, [flat(p, codes)] + list(x))] for p, c, x in cmds]
    out = pexecute(exe, ses, timeout=timeout)
    runs = complete = 0
    seen, items = set(), []
    for (p, c, x), ev in zip(cmds, out):
        r = ev[0][2]
        if has_crash(ev[0]):
            ck.violation(sp, exe, ev, "no crash", note=label)
            continue
        runs += r[0]
        complete += r[1]
        for sched, t in traces(p, r, event):
            key = json.dumps(t)
            if key not in seen:
                seen.add(key)
                items.append((p, sched, t))
    rej, st = validate(ck.wd, sp, [t for _, _, t in items])
    ck.cov["traces_validated_against_impl"] += len(items)
    ck.cov["events_validated"] += sum(len(t) for _, _, t in items)
    ck.cov["parts"].append(dict(validated=sp, label=label, programs=len(cmds), interleavings_run=runs, programs_enumerated_completely=complete,
                                distinct_histories=len(items), tlc_states=st, rejected=len(rej)))
    if items:
        ck.cov["samples"].append(dict(spec=sp, label=label, program=items[0][0], schedule=items[0][1], history=items[0][2][:8]))
    for n, l, exp in sorted(rej, key=lambda r: (len(items[r[0]][2]), r[1]))[:keep]:
        p, sched, t = items[n]
        again = execute(exe, [[("run", [flat(p, codes), sched])]], timeout=timeout)[0][0]
        t2 = traces(p, again[2], event)[0][1]
        if t2 != t:
            raise CheckError("history not reproduced: %r %r" % (p, sched))
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        k = len(ck.violations) + 1
        fn = os.path.join(d, "%s-%d.json" % (ck.pid, k))
        with open(fn, "w") as f:
            json.dump(dict(property=ck.pid, spec=sp, driver=os.path.basename(exe), program=p, schedule=sched,
                           script=[line_of(("run", [flat(p, codes), sched]))], history=t, rejected_at=l, expected_by_spec=exp), f, indent=1)
        ck.violations.append(fn)
        print("spec %s rejects event %d: %s of program %s under schedule %s\n  history %s\n  allowed results: %s" % (
            sp, l, json.dumps(t[l - 1]), json.dumps(p), sched, json.dumps(t), str(exp)[:300]))
        print("VIOLATION property=%s replay=%s" % (ck.pid, os.path.relpath(fn, VERIF)), flush=True)
    return runs
