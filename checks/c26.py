from vf import *


def rand_session(rng, n):
    rate = rng.random() < .5
    if rate:
        iv = rng.choice([[0, rng.randint(1, 30)], [rng.randint(0, 2), rng.randint(0, 30)], [-1, 0]])
        ses = [("rate", [iv, rng.choice([0, 1, 2, 5, 20, -1])])]
        step = max(1, iv[1])
    else:
        iv = rng.choice([1, 2, 3, 5, 6, 7, 10, 15, 21, 30, 35, 105])
        ses = [("bucket", [iv, rng.choice([0, 1, 2, 5, 20, -1, -3])])]
        step = iv
    now = [rng.choice([0, 1, 100, 1000000]), rng.randint(1, 1000)]
    started = False
    for _ in range(n):
        r = rng.random()
        if r < .05:
            now = [now[0] + rng.choice([1, 2, 1000]), rng.randint(1, 1000)]
        elif r < .9:
            now = [now[0], now[1] + rng.choice([0, 0, 1, rng.randint(0, step), rng.randint(0, 4 * step)])]
        r = rng.random()
        if r < .02:
            ses.append(("reset", []))
            started = False
        elif r < .06 and not rate and started:
            ses.append(("skip", [list(now)]))
        elif r < .1:
            ses.append(("call", [[now[0], max(1, now[1] - rng.randint(0, 2 * step))]]))
            started = True
        else:
            ses.append(("call", [list(now)]))
            started = True
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("limiter")
    with open(ck.wd + "/MC_Limiter.cfg", "w") as f:
        f.write("CONSTANT T = %d\n" % q(5, 7))
    g = ck.explore("MC_Limiter")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(50000, 300000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Limiter", exe, ses, "tour")
    ck.run_and_validate("Limiter", exe, [rand_session(rng, rng.choice([20, 100])) for _ in range(q(600, 8000))], "random")
