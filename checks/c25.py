from vf import *


def rand_session(rng, n, cap=250):
    ses = [("new", [rng.randint(0, 2)])]
    live, nid, K = [], 0, rng.choice([1, 3, 20])
    for _ in range(n):
        r = rng.random()
        if r < .5 and nid < cap:
            nid += 1
            live.insert(0, (nid, rng.randint(1, K)))
            ses.append(("insert", list(live[0])))
        elif r < .65 and live:
            x = live.pop(rng.randrange(len(live)))
            ses.append((rng.choice(["remove", "release"]), [x[0]]))
        elif r < .95:
            op, k = rng.choice(["find", "find_remove", "find_release"]), rng.randint(1, K)
            ses.append((op, [k]))
            m = [x for x in live if x[1] == k]
            if op != "find" and m:
                live.remove(m[0])
        elif rng.random() < .5:
            ses.append(("release_all", []))
            live = []
    ses.append(("release_all", []))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("respool")
    with open(ck.wd + "/MC_ResPool.cfg", "w") as f:
        f.write("CONSTANT N = %d\n" % q(4, 5))
    g = ck.explore("MC_ResPool")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("ResPool", exe, ses, "tour")
    ck.run_and_validate("ResPool", exe, [rand_session(rng, rng.choice([30, 200])) for _ in range(q(400, 6000))], "random")
    ck.run_and_validate("ResPool", exe, [rand_session(rng, n, 5000) for n in q([1200], [1200, 4000])], "stretch")
