from vf import *


def lift(trace):
    out = []
    for op, a, r in trace:
        if op == "dump" and not has_crash([op, a, r]):
            a, r = [0] + r[:1], r[1:]
        out.append([op, a, r])
    return out


def rand_session(rng, n, nodes):
    span = rng.choice([6, 20, 100, 1000])
    iv = []
    for _ in range(nodes):
        a = rng.randint(0, span)
        b = min(span, a + rng.choice([0, 0, 1, rng.randint(0, span), span]))
        iv.append([a, b])
    if rng.random() < .2:
        iv.sort(reverse=rng.random() < .5)
    ses = [("new", [rng.randint(0, 1), rng.choice([0, 1, 2, 2, 3 if span == 6 else 2]), iv])]
    q = []
    bias = .7
    for _ in range(n):
        if rng.random() < .03:
            bias = rng.choice([.9, .6, .3])
        out = [x for x in range(1, nodes + 1) if x not in q]
        r = rng.random()
        if r < .6:
            if rng.random() < bias and out:
                x = rng.choice(out)
                q.append(x)
                ses.append(("insert", [x]))
            elif q:
                x = rng.choice(q)
                q.remove(x)
                ses.append(("delete", [x]))
        elif r < .85:
            lo = rng.randint(0, span)
            hi = rng.choice([lo, min(span, lo + 1), rng.randint(lo, span), span])
            ses.append(("query", [lo, hi]))
        elif r < .93 and q:
            lo = rng.randint(0, span)
            hi = rng.randint(lo, span)
            h = [x for x in q if iv[x - 1][0] <= hi and lo <= iv[x - 1][1]]
            if h:
                ses.append(("resume", [lo, hi, rng.choice(h)]))
        elif nodes < 20 or rng.random() < .4:
            ses.append(("dump", [0]))
    ses.append(("dump", [0]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("segtree")
    g = ck.explore("MC_SegTree")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("SegTree", exe, ses, "tour", transform=lift)
    ck.run_and_validate("SegTree", exe, [rand_session(rng, rng.choice([60, 120, 300]), rng.choice([5, 9, 16, 33, 64])) for _ in range(q(400, 6000))],
                        "random", transform=lift)
    ck.run_and_validate("SegTree", exe, [rand_session(rng, 3 * n, n) for n in q([130, 300], [130, 260, 300, 600])], "stretch", transform=lift)
