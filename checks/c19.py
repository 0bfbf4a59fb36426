from vf import *


def rand_session(rng, n, size=0):
    algo, size = rng.randint(0, 1), size or rng.choice([2, 2, 3, 4, 5, 8, 16, 30, 64])
    ses = [("new", [algo, size, rng.choice([0, 1, 2, 4, 100, 100]) if rng.random() < .9 else 1, 0, rng.randint(0, 2)])]
    T = max(3, int(size * rng.choice([.8, 1.5, 3])))
    hot = rng.randint(1, T)
    recent = [1]
    pput = rng.choice([.15, .3, .45])
    for _ in range(n):
        r = rng.random()
        t = hot if rng.random() < .1 else rng.randint(1, T)
        if r < .4:
            ses.append(("obtain", [t, rng.choice([0, 1, 1, 1, 1, 3, 3, 2])]))
            recent = (recent + [t])[-size:]
        elif r < .4 + pput:
            ses.append(("put", [rng.choice(recent) if rng.random() < .8 else t]))
        elif r < .7 + pput / 2:
            ses.append(("commit", []))
        elif r < .94:
            ses.append(("dump", []))
        elif r < .96:
            ses.append(("del", [t]))
        elif r < .985:
            ses.append(("set", [t, rng.choice([t, rng.randint(1, T + 2)])]))
        elif r < .995:
            ses.append(("idle", []))
        elif rng.random() < .3:
            ses.append(("reset", []))
    ses += [("dump", []), ("destroy", [])]
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("cache")
    with open(ck.wd + "/MC_Cache.cfg", "w") as f:
        f.write("CONSTANT T = %d\n" % q(3, 4))
    g = ck.explore("MC_Cache")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Cache", exe, [s + ([("destroy", [])] if alive(s) else []) for s in ses], "tour")
    ck.run_and_validate("Cache", exe, [rand_session(rng, rng.choice([60, 200, 500])) for _ in range(q(250, 4000))]
                        + [[("new", [l, z, 1, f])] for l in (0, 1) for z in (2, 5, 8) for f in range(1, 14)
                           if f <= 3 + (z if z != 5 else 8)], "random")
    ck.run_and_validate("Cache", exe, [rand_session(rng, 700, z) for z in q([256, 300], [128, 255, 256, 300, 600])], "stretch")


def alive(ses):
    op, a = [c for c in ses if c[0] in ("new", "regs", "destroy")][-1]
    return op == "new" and a[0] < 2 and a[1] >= 2 and a[3] == 0
