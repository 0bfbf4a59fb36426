from vf import *


def lift(trace):
    out = []
    for op, a, r in trace:
        if op in ("push", "peek") and not has_crash([op, a, r]):
            a, r = [a[0], r[1:]], r[0]
        out.append([op, a, r])
    return out


def strip(ses):
    """drop histories that go on after a refused creation"""
    return [(op, a[:1] if op in ("push", "peek") else a) for op, a in ses]


def rand_session(rng, n):
    cap = rng.choice([1, 2, 63, 64, 65, 100, 127, 128, 129, 512, 1000, 1024, 1025, 4096, rng.randint(1, 6000)])
    ses = [("new", [cap, rng.choice([1, 1, 2, 3, 5, 8]), rng.randint(0, 4), 0])]
    K = rng.choice([5, 30, 1000])
    for _ in range(n):
        r = rng.random()
        if r < .4:
            ses.append(("push", [rng.randint(0, K)]))
        elif r < .9:
            ses.append(("peek", [rng.randint(0, K)]))
        elif r < .95:
            ses.append(("bits", []))
        elif r < .97:
            ses.append(("flush", []))
            ses.append(("bits", []))
    ses.append(("destroy", []))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("bloom")
    with open(ck.wd + "/MC_Bloom.cfg", "w") as f:
        f.write("CONSTANT Keys = %d\n" % q(4, 6))
    g = ck.explore("MC_Bloom")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 100000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Bloom", exe, [strip(s) for s in ses], "tour", transform=lift)
    ck.run_and_validate("Bloom", exe, [rand_session(rng, rng.choice([50, 200])) for _ in range(q(400, 6000))]
                        + [[("new", [0, 2, 3, 0])], [("new", [64, 2, 3, 1])]], "random", transform=lift)
