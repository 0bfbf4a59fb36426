from vf import *


def lift(trace):
    out = []
    for op, a, r in trace:
        if op != "new" and not has_crash([op, a, r]):
            l, r = r[0], r[1:]
            if r[0] != -1 and op in ("alloc", "free", "realloc"):
                a = {"alloc": a[:2] + [l], "free": a[:1] + [l], "realloc": a[:2] + [l, r[0]]}[op]
        out.append([op, a, r])
    return out


def rand_session(rng, n):
    pol, R = rng.randint(0, 2), rng.choice([104, 200, 520, 1000, 1001, 2048, 4096, 20000, 70000, 300000, 8 * rng.randint(10, 2000)])
    ses = [("new", [pol, R])]
    style = rng.choice(["mixed", "small", "exact"])
    live, bias = set(), .7

    def size():
        r = rng.random()
        if r < .04:
            return rng.choice([(1 << 64) - 1, (1 << 64) - rng.randint(1, 100), (1 << 63), (1 << 32) + 32, (1 << 32) - 1, R, R - 40, R - 39, R - 41])
        if style == "small":
            return rng.randint(0, 40)
        if style == "exact":
            return 32 * rng.randint(0, 5)
        return rng.choice([0, 1, 31, 32, 33, 64, 72, 73, rng.randint(0, R // 2), rng.randint(0, 200)])
    for _ in range(n):
        if rng.random() < .05:
            bias = rng.choice([.9, .6, .3])
        if rng.random() < bias:
            i = rng.randint(1, 200)
            if i not in live:
                live.add(i)
                ses.append(("alloc", [i, limbs(max(0, size()))]))
                # a refused allocation leaves the id unused; free and realloc of it are then no-ops on both sides
        elif live:
            i = rng.choice(sorted(live))
            if rng.random() < .45:
                ses.append(("realloc", [i, limbs(max(0, size()))]))
            else:
                live.discard(i)
                ses.append(("free", [i]))
        if rng.random() < .15:
            i = rng.randint(1, 200)
            if i not in live:
                ses.append(rng.choice([("refree", [i]), ("rerealloc", [i, limbs(max(0, size()))])]))
        if rng.random() < .01:
            live.clear()
            ses.append(("freeall", []))
    ses.append(("freeall", []))
    return ses


def fresh(ses):
    """distinct ids: a tour's later commands stay valid whatever an allocation returned"""
    m, n, out = {}, 0, []
    for op, a in ses:
        if op in ("new", "freeall"):
            m = {}
        elif op == "alloc":
            n += 1
            m[a[0]] = n
            a = [n] + a[1:]
        elif op in ("free", "realloc", "refree", "rerealloc"):
            a = [m[a[0]]] + a[1:]
        out.append((op, a))
    return out


def check(ck):
    lib = Lib()
    exe = lib.driver("memalloc")
    with open(ck.wd + "/MC_MemAlloc.cfg", "w") as f:
        f.write("CONSTANT N = 2\nCONSTANT Sizes = %s\n" % q("{0, 20, 100}", "{0, 1, 20, 64, 100, 150}"))
    g = ck.explore("MC_MemAlloc")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("MemAlloc", exe, [fresh(s) + [("freeall", [])] for s in ses], "tour", transform=lift)
    ck.run_and_validate("MemAlloc", exe, [rand_session(rng, rng.choice([30, 100, 200])) for _ in range(q(300, 5000))], "random", transform=lift)
