from vf import *


def lift(trace):
    """Observed structure and traversals become arguments of the event (the specification judges them)."""
    out = []
    for op, a, r in trace:
        if op in ("dump", "destroy") and not has_crash([op, a, r]):
            a, r = a[:1] + r[:2], r[2:]
        out.append([op, a, r])
    return out


def rand_session(rng, n, nodes):
    kind = rng.randint(0, 3)
    span = rng.choice([nodes // 2 + 1, nodes * 2, 10000])
    key = [rng.randint(0, span) for _ in range(nodes)]
    if rng.random() < .3:
        key = list(range(nodes)) if rng.random() < .5 else list(range(nodes, 0, -1))
    ses = [("new", [kind, rng.randint(0, 1), key])]
    q, poison = {}, set()       # key -> node
    bias = rng.choice([.9, .7, .5])
    order = list(range(1, nodes + 1))
    if rng.random() < .5:
        rng.shuffle(order)
    for t in range(n):
        if rng.random() < .02:
            bias = rng.choice([.95, .7, .5, .1])
        inn = set(q.values())
        out = [x for x in order if x not in inn]
        r = rng.random()
        if r < .7:
            if rng.random() < bias and out:
                x = out[0] if rng.random() < .6 else rng.choice(out)
                if key[x - 1] not in q:
                    q[key[x - 1]] = x
                    poison.discard(x)
                ses.append((rng.choice(["insert", "insert", "finsert"]), [x]))
            elif inn:
                c = rng.random()
                x = q[min(q)] if c < .2 else q[max(q)] if c < .3 else rng.choice(sorted(inn))
                if rng.random() < .03 and poison:
                    ses.append(("delete", [rng.choice(sorted(poison))]))
                    continue
                del q[key[x - 1]]
                poison.add(x)
                ses.append(("delete", [x]))
        elif r < .75 and inn:
            x = rng.choice(sorted(inn))
            c = [y for y in out if key[y - 1] == key[x - 1]]
            if c:
                y = rng.choice(c)
                q[key[x - 1]] = y
                poison.discard(y)
                ses.append(("replace", [x, y]))
        elif r < .85:
            ses.append(("find", [rng.choice(key) if rng.random() < .8 else rng.randint(-1, span + 1)]))
        elif r < .997 or not inn:
            if nodes < 20 or rng.random() < .3:
                ses.append(("dump", [rng.choice(sorted(inn)) if inn and rng.random() < .8 else 0]))
        else:
            poison |= inn
            q = {}
            ses.append(("destroy", [rng.randrange(10)]))
    ses.append(("dump", [0]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("rbtree")
    g = ck.explore("MC_RBTree")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("RBTree", exe, ses, "tour", transform=lift)
    # every insertion order of 6 nodes followed by every deletion order prefix
    import itertools
    perm = []
    for p in itertools.permutations(range(1, q(6, 7) + 1)):
        d = list(p)
        rng.shuffle(d)
        s = [("new", [rng.randint(0, 3), 0, list(p)])]
        for x in range(1, len(p) + 1):
            s += [("insert", [x])]
        s += [("dump", [0])]
        for x in d:
            s += [("delete", [x]), ("dump", [0])]
        perm.append(s)
    ck.run_and_validate("RBTree", exe, perm, "permutations", transform=lift)
    ck.run_and_validate("RBTree", exe, [rand_session(rng, rng.choice([60, 120, 300]), rng.choice([5, 9, 16, 33, 64])) for _ in range(q(300, 5000))],
                        "random", transform=lift)
    ck.run_and_validate("RBTree", exe, [rand_session(rng, 3 * n, n) for n in q([130, 300], [130, 260, 300, 600, 1100])],
                        "stretch", transform=lift)
