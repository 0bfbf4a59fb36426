from vf import *


def rand_session(rng, n, nodes):
    hi = rng.choice([0, 2, 9])
    ses = [("new", [[rng.choice([-hi, hi, rng.randint(-hi, hi), rng.choice([2**31 - 1, -2**31])]) if rng.random() < .2 else rng.randint(-hi, hi) for _ in range(nodes)]])]
    reg = []
    prio = ses[0][1][0]
    for _ in range(n):
        o = rng.choice(["register"] * 4 + ["unregister", "call", "call", "call", "regnull"])
        out = [x for x in range(1, nodes + 1) if x not in reg]
        if o == "register" and out:
            x = rng.choice(out)
            reg.insert(sum(prio[y - 1] < prio[x - 1] for y in reg), x)
            ses.append((o, [x]))
        elif o == "unregister" and reg:
            x = rng.choice(reg)
            reg.remove(x)
            ses.append((o, [x]))
        elif o == "regnull":
            ses.append((o, [0]))
        elif o == "call":
            beh = [rng.choice([0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 6]) for _ in range(nodes)]
            lim = rng.choice([-1, -1, 0, 1, 2, 3, nodes])
            called, gone = [], set()
            for x in reg:       # mirror, only to know who is still registered
                if len(called) == lim:
                    break
                called.append(x)
                b = beh[x - 1]
                if b in (1, 3, 4, 5):
                    gone.add(x)
                if b == 6:
                    m = [y for y in called if y != x and y not in gone]
                    if m:
                        gone.add(max(m))
                if b in (2, 3, 5):
                    break
            reg = [x for x in reg if x not in gone]
            ses.append((o, [lim, rng.choice([-1, 0, 5]), beh]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("notifier")
    open(os.path.join(ck.wd, "MC_Notifier.cfg"), "w").write("CONSTANT BEH = %s\n" % q("{0,1,2,3,6}", "{0,1,2,3,4,5,6}"))
    g = ck.explore("MC_Notifier")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Notifier", exe, ses, "tour")
    ck.run_and_validate("Notifier", exe, [rand_session(rng, 40, rng.choice([3, 5, 9])) for _ in range(q(800, 8000))], "random")
    ck.run_and_validate("Notifier", exe, [rand_session(rng, 2 * n, n) for n in q([130, 300], [130, 260, 300, 600])], "stretch")
