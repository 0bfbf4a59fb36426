from vf import *


def rand_machine(rng):
    n = rng.randint(2, 7)
    par = [0 if i == 0 else rng.choice([0, 0, rng.randint(1, i)]) for i in range(n)]
    ent = [rng.choice([0, 0, 0, rng.randint(i + 2, n)]) if i + 2 <= n else 0 for i in range(n)]
    fl = [rng.randint(0, 3) for _ in range(n)]
    exc = [rng.choice([0, 0, 0, 1, 2]) for _ in range(n)]
    rows = []

    def desc(s):
        while ent[s - 1]:
            s = ent[s - 1]
        return s
    for s in range(1, n + 1):
        for x in range(rng.choice([0, 1, 2, 3, 4]) + (exc[s - 1] == 2)):
            own = -s if x == 0 and exc[s - 1] == 2 else s
            st = rng.choice([0, 0, 0, 1, 1, 2, -1, -1, -2])
            nxt = 0 if st < 0 and rng.random() < .8 or rng.random() < .04 else rng.randint(1, n)
            # a crossing transition leads to a parentless state after its own, so that handling ends
            cross = int(nxt != 0 and rng.random() < .4 and desc(nxt) > s and par[desc(nxt) - 1] == 0)
            rows += [own, rng.randint(1, 3), rng.choice([-1, -1, 0, 1]), nxt, cross, st, rng.randint(0, 1)]
    return n, ("machine", [rng.randint(1, n), rng.randint(0, n), par, ent, fl, exc, rows])


def rand_session(rng, k):
    n, m = rand_machine(rng)
    ses = [m]
    for _ in range(k):
        r = rng.random()
        if r < .92:
            ses.append(("handle", [rng.randint(1, 3), rng.randint(0, 1), rng.choice([0, 0, 0, 0, 0, 0, 1, 2, 3]), rng.choice([-77, 5]), int(rng.random() < .15)]))
        elif r < .94:
            ses.append(("error", [1, 0, rng.randint(0, 1), -77]))
        else:
            ses.append(("reset", [rng.randint(1, n)]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("fsm")
    with open(ck.wd + "/MC_Fsm.cfg", "w") as f:
        f.write("CONSTANT Depth = %d\n" % q(3, 6))
    g = ck.explore("MC_Fsm")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Fsm", exe, ses, "tour")
    ck.run_and_validate("Fsm", exe, [rand_session(rng, rng.choice([10, 40])) for _ in range(q(1500, 20000))], "random")
