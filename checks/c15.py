from vf import *


def lift(trace):
    out = []
    for op, a, r in trace:
        if op in ("reset", "destroy") and not has_crash([op, a, r]):
            a, r = [r[0]], r[1]
        elif op == "dump" and not has_crash([op, a, r]):
            a, r = a[:2] + r[:3], r[3]
        out.append([op, a, r])
    return out


def rand_session(rng, n, nodes):
    span = rng.choice([1, 3, nodes, 1000])
    key = [rng.randint(0, span) for _ in range(nodes)]
    lv = rng.choice([1, 2, 3, 4, 8, 16])
    ses = [("new", [lv, key, 0])]
    inn = set()      # upper bound on the content; deletion of duplicates is resolved by the list
    bias = .7
    for _ in range(n):
        if rng.random() < .03:
            bias = rng.choice([.95, .6, .3, .1])
        r = rng.random()
        if r < .65:
            if rng.random() < bias:
                out = [x for x in range(1, nodes + 1) if x not in inn]
                if out:
                    x = rng.choice(out)
                    f = int(rng.random() < .1)
                    h = 1
                    while rng.random() < rng.choice([.25, .5]):
                        h += 1
                    ses.append(("insert", [x, h, f]))
                    inn.add(x)
            else:
                ses.append(("delete", [rng.choice(key + [span + 1])]))
        elif r < .8:
            ses.append(("find", [rng.choice(key + [-1, span + 1])]))
        elif r < .995:
            if nodes < 20 or rng.random() < .3:
                ses.append(("dump", [rng.randint(0, nodes), rng.randint(0, lv - 1)]))
        else:
            ses.append(("reset", []))
            inn = set()
    ses += [("dump", [0, 0]), ("destroy", [])]
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("skiplist")
    g = ck.explore("MC_SkipList")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 300000))
    ck.cov["tour_edges_covered"] = cov
    ses = [safe(s) for s in ses]
    ck.run_and_validate("SkipList", exe, ses, "tour", transform=lift)
    ck.run_and_validate("SkipList", exe, [rand_session(rng, rng.choice([40, 100, 250]), rng.choice([3, 6, 9, 17, 40])) for _ in range(q(400, 6000))],
                        "random", transform=lift)
    ck.run_and_validate("SkipList", exe, [rand_session(rng, 3 * n, n) for n in q([130, 300], [130, 260, 300, 600])], "stretch", transform=lift)
    # the same with automatic variables zeroed instead of patterned: a decision taken on one never assigned shows up
    lib0 = Lib(cflags=["-ftrivial-auto-var-init=zero"])
    exe0 = lib0.driver("skiplist")
    ck.run_and_validate("SkipList", exe0, [rand_session(rng, 60, rng.choice([3, 6, 9])) for _ in range(q(300, 2000))], "random, zeroed locals", transform=lift)


def safe(ses):
    """Which of several equal elements a deletion takes is the list's choice; drop later insertions of an element
    that may still be stored, and commands after a failed or finished creation."""
    out, maybe = [], set()
    key = []
    for op, a in ses:
        if op == "new":
            maybe, key = set(), a[1]
        elif op == "insert":
            if a[0] in maybe:
                continue
            if not a[2]:
                maybe.add(a[0])
        elif op == "delete":
            eq = [x for x in maybe if key[x - 1] == a[0]]
            if len(eq) == 1:
                maybe.discard(eq[0])
        elif op == "reset":
            maybe = set()
        out.append((op, a))
    return out
