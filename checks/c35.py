from vf import *


def text(rng, n):
    return [rng.choice([c for c in range(1, 256) if c != 37]) if rng.random() < .2 else rng.randint(97, 122) for _ in range(n)]


def prefix(rng):
    p = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        p += [1, rng.choice([rng.randint(48, 57), rng.randint(48, 57), rng.choice([99, 49, 47, 58, 255])])]
    return p


def rand_session(rng, top):
    ses = [("init", [2, rng.randint(0, 8), rng.randint(0, 8), rng.randint(0, 3), rng.choice([0, 0, 10, 12, 5])])]
    for _ in range(rng.randint(3, 20)):
        r, i = rng.random(), rng.choice([1, 2, 2])
        n = rng.choice([0, 1, 5, rng.randint(0, 60), rng.randint(480, 530)])
        k = rng.choice(["lit", "s", "d", "sd", "sd", "fail"])
        num = rng.choice([0, -1, 7, 123456, -99999, 2147483647])
        if r < .5:
            ses.append(("log", [i, prefix(rng) + ([97] + text(rng, 1) if rng.random() < .3 else []), k, text(rng, n), num]))
        elif r < .6:
            ses.append(("flag", [i, rng.randint(0, 1), rng.choice(["set", "clr", "flip", "test", "test_set", "test_clr", "test_flip"])]))
        elif r < .7:
            ses.append(("macro", [i, rng.randint(0, 8), top, num]))
        elif r < .8:
            ses.append(("init", [i, rng.randint(0, 8), rng.randint(0, 8), rng.randint(0, 3), rng.choice([0, 10, 11])]))
        elif r < .88:
            ses.append(("level", [prefix(rng) + rng.choice([[], [1], text(rng, 3)]), rng.randint(0, 1)]))
        else:
            ses.append(("scn", [rng.choice([0, 1, 2, rng.randint(0, 30), rng.randint(0, 600)]), k, text(rng, n), num]))
    return ses


def check(ck):
    lib = Lib()
    exe, low = lib.driver("log"), lib.driver("log", extra=["-DBFDEV_LOGLEVEL_MAX=3"], out="log3")
    with open(ck.wd + "/MC_Log.cfg", "w") as f:
        f.write("CONSTANT Defs = %s\nCONSTANT Recs = %s\nCONSTANT MaxSize = %d\n" % q(("{0, 4, 6, 8}", "{0, 3, 6, 8}", 12), ("{0, 1, 2, 3, 4, 5, 6, 7, 8}", "{0, 1, 2, 3, 4, 5, 6, 7, 8}", 20)))
    g = ck.explore("MC_Log")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(50000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Log", exe, ses, "tour")
    ck.run_and_validate("Log", exe, [rand_session(rng, 7) for _ in range(q(400, 5000))], "random")
    ck.run_and_validate("Log", low, [rand_session(rng, 3) for _ in range(q(100, 1000))], "random-limited")
