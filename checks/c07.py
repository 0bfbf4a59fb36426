from vf import *


def rand_session(rng, n, nodes):
    desc = rng.randint(0, 1)
    hi = rng.choice([0, 1, 2, 3, 9])
    prio = [rng.randint(-hi // 2, hi) for _ in range(nodes)]
    ses = [("new", [desc, prio])]
    inn = set()
    for _ in range(n):
        o = rng.choice(["add"] * 6 + ["del"] * 4 + ["walk"] * 2)
        if o == "add":
            out = [x for x in range(1, nodes + 1) if x not in inn]
            x = rng.choice(out) if out and rng.random() < .9 else rng.randint(1, nodes)
            inn.add(x)
            ses.append((o, [x]))
        elif o == "del":
            x = rng.choice(sorted(inn)) if inn and rng.random() < .9 else rng.randint(1, nodes)
            inn.discard(x)
            ses.append((o, [x]))
        else:
            mode, rev, safe = rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 1)
            d = int(safe and rng.random() < .2)
            if mode and not inn:
                mode = 0
            x = rng.choice(sorted(inn)) if mode else 0
            ses.append((o, [mode, rev, safe, x, d]))
            if d:       # which ones are visited depends on the order: mirror it
                order = []
                # stable order is insertion order among equals, unknown here: stop the session afterwards
                break
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("ilist")
    pr = q("{<<1,1,2,2>>, <<1,2,2,3>>, <<5,5,5>>}", "{<<1,1,2,2,3>>, <<1,2,2,2,3>>, <<5,5,5,5>>, <<1,1,2,2>>}")
    open(os.path.join(ck.wd, "MC_IList.cfg"), "w").write("CONSTANT PRIOS <- P\n")
    f = os.path.join(ck.wd, "MC_IList.tla")
    t = open(f).read().replace("Bound(s) ==", "P == %s\nBound(s) ==" % pr)
    open(f, "w").write(t)
    g = ck.explore("MC_IList")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("IList", exe, ses, "tour")
    ck.run_and_validate("IList", exe, [rand_session(rng, 60, rng.choice([3, 5, 8, 14])) for _ in range(q(600, 8000))], "random")
    st = []
    for n in q([130, 300], [130, 260, 300, 600]):
        prio = [rng.randint(-n // 3, n // 3) for _ in range(n)]
        order = list(range(1, n + 1))
        rng.shuffle(order)
        gone = rng.sample(order, n // 2)
        st.append([("new", [rng.randint(0, 1), prio])] + [("add", [x]) for x in order] + [("walk", [0, 0, 0, 0, 0]), ("walk", [2, 1, 0, order[0], 0])]
                  + [("del", [x]) for x in gone] + [("walk", [0, 1, 1, 0, 0])] + [("add", [x]) for x in gone] + [("walk", [0, 0, 0, 0, 0])])
    ck.run_and_validate("IList", exe, st, "stretch")
