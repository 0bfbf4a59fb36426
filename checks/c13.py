from vf import *


def lift(trace):
    out = []
    for op, a, r in trace:
        if op in ("dump", "destroy") and not has_crash([op, a, r]):
            a, r = a[:1] + r[:2], r[2:]
        out.append([op, a, r])
    return out


def rand_session(rng, n, nodes):
    span = rng.choice([1, 3, nodes, 1000])
    key = [rng.randint(0, span) for _ in range(nodes)]
    if rng.random() < .3:
        key.sort(reverse=rng.random() < .5)
    ses = [("new", [rng.randint(0, 1), key])]
    inn, poison = set(), set()
    bias = .7
    for _ in range(n):
        if rng.random() < .03:
            bias = rng.choice([.95, .6, .3])
        out = [x for x in range(1, nodes + 1) if x not in inn]
        r = rng.random()
        if r < .7:
            if rng.random() < bias and out:
                x = rng.choice(out)
                inn.add(x)
                poison.discard(x)
                ses.append(("insert", [x]))
            elif inn:
                x = rng.choice(sorted(inn))
                inn.discard(x)
                poison.add(x)
                ses.append(("delete", [x]))
        elif r < .73 and poison:
            ses.append(("delete", [rng.choice(sorted(poison))]))
        elif r < .995 or not inn:
            if nodes < 20 or rng.random() < .3:
                ses.append(("dump", [rng.choice(sorted(inn)) if inn and rng.random() < .8 else 0]))
        else:
            poison |= inn
            inn = set()
            ses.append(("destroy", [rng.randrange(10)]))
    ses.append(("dump", [0]))
    ses += [("pop", [])] * len(inn) + [("dump", [0])]
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("heap")
    g = ck.explore("MC_Heap")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 300000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Heap", exe, ses, "tour", transform=lift)
    ck.run_and_validate("Heap", exe, [rand_session(rng, rng.choice([40, 100, 250]), rng.choice([3, 6, 9, 17, 33, 64])) for _ in range(q(400, 6000))],
                        "random", transform=lift)
    ck.run_and_validate("Heap", exe, [rand_session(rng, 3 * n, n) for n in q([130, 260, 520], [127, 128, 129, 130, 255, 256, 257, 260, 520, 1030])],
                        "stretch", transform=lift)
