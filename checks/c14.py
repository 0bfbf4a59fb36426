from vf import *


def lift(trace):
    out = []
    for op, a, r in trace:
        if op == "dump" and not has_crash([op, a, r]):
            a, r = a[:1] + r[:4], r[4]
        out.append([op, a, r])
    return out


def rand_session(rng, n, span):
    lay, clash, veto = rng.randint(0, 5), rng.randint(0, 1), rng.choice([0, 0, 1])
    ses = [("new", [lay, clash, veto, rng.randint(0, 1)])]
    m = {}
    bias = .8
    asc = rng.choice([0, 0, 1, -1])
    cur = 1 if asc > 0 else span

    def dump():
        ses.append(("dump", [rng.choice(sorted(m)) if m and rng.random() < .8 else 0]))
    for i in range(n):
        if rng.random() < .02:
            bias = rng.choice([.95, .5, .2, .05])
        r = rng.random()
        k = rng.randint(1, span)
        if asc and rng.random() < .9:
            k = min(max(cur, 1), span)
            cur += asc
        if rng.random() < .25 and m:
            k = rng.choice(sorted(m))
        v = rng.choice([rng.randint(1, 900), rng.randint(1, span)])
        if r < .62:
            if rng.random() < bias:
                f = rng.choice([0, 0, 0, 1, 2, 3])
                ses.append(("insert", [k, v, f]))
                if k not in m:
                    m[k] = v        # may have failed; only steers
            else:
                if m and rng.random() < .9:
                    k = rng.choice(sorted(m))
                ses.append(("remove", [k]))
                if not (veto and m.get(k, 1) % 5 == 0):
                    m.pop(k, None)
        elif r < .7:
            ses.append(("update", [k, v]))
            if k in m:
                m[k] = v
        elif r < .8:
            ses.append(("lookup", [k]))
        elif r < .84:
            ses.append((rng.choice(["first", "last"]), []))
        elif r < .998:
            if len(m) < 25 or rng.random() < .15:
                dump()
        else:
            ses.append(("drain", [rng.randint(0, 1)]))
            m = {k: v for k, v in m.items() if veto and v % 5 == 0}
    dump()
    if veto:
        for k in sorted(m):
            ses.append(("update", [k, 1 + 5 * rng.randint(0, 9)]))
    if rng.random() < .5:
        ses.append(("drain", [rng.randint(0, 1)]))
        dump()
    ses.append(("release", []))
    return ses


def fix(ses):
    """Drop commands whose precondition (present key) a failed insert may have voided: dump/iterate from a key only
    when it is certainly stored (inserted without an armed failure)."""
    out, sure = [], {}
    for op, a in ses:
        if op == "insert" and a[0] not in sure and a[2] == 0 and a[1]:
            sure[a[0]] = a[1]
        elif op == "remove":
            sure.pop(a[0], None)
        elif op == "update" and a[0] in sure:
            sure[a[0]] = a[1]
        elif op in ("drain", "release"):
            sure = {}
        elif op in ("next", "prev") and a[0] not in sure:
            if not sure:
                continue
            a = [max(sure)]
        elif op == "dump" and a[0] and a[0] not in sure:
            a = [max(sure) if sure else 0]
        out.append((op, a))
    return out


def check(ck):
    lib = Lib()
    exe = lib.driver("btree")
    with open(ck.wd + "/MC_BTree.cfg", "w") as f:
        f.write("CONSTANT KMax = %d\n" % q(6, 9))
    g = ck.explore("MC_BTree")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 300000))
    ck.cov["tour_edges_covered"] = cov
    ses = [fix(s) for s in ses]
    ck.run_and_validate("BTree", exe, ses, "tour", transform=lift)
    ck.run_and_validate("BTree", exe, [fix(rand_session(rng, rng.choice([40, 120, 300]), rng.choice([6, 12, 30, 100, 300]))) for _ in range(q(400, 5000))],
                        "random", transform=lift)
    ck.run_and_validate("BTree", exe, [fix(rand_session(rng, 3 * n, n)) for n in q([600, 1200], [600, 1200, 2500])], "stretch", transform=lift)
