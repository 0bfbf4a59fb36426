from vf import *


def map_session(rng, n):
    """Works out a valid history: the free nodes are those the specification says are not stored."""
    mode, hsel = rng.randint(0, 1), rng.randint(0, 4)
    ses = [("new", [mode, hsel])]
    K = rng.choice([3, 12, 60, 400])
    free = list(range(1, 4000))
    bits, used, bias = 0, 0, .8
    for _ in range(n):
        if rng.random() < .02:
            bias = rng.choice([.95, .7, .4, .1])
        hook = rng.random() < .2 if bits < 9 else 0
        f = int(rng.random() < .12)
        k = rng.randint(1, K)
        r = rng.random()
        if r < .75:
            if rng.random() < bias and free:
                st = rng.choice([0, 0, 1, 1, 2, 3])
                # a node id is used once per history, so nothing depends on which of several equals was chosen
                ses.append(("insert", [free.pop(0), k, st, int(hook), f]))
                if mode and hook:
                    bits += 1
            else:
                ses.append(("del", [k, int(rng.random() < .3), f]))
        elif r < .9:
            ses.append(("find", [k]))
        elif r < .99:
            ses.append(("dump", []))
        elif rng.random() < .3:
            ses.append(("release", []))
            bits = 0
    ses += [("dump", []), ("release", []), ("find", [1]), ("dump", [])]
    return ses


def tbl_session(rng, n):
    ses = [("tnew", [rng.choice([1, 2, 4, 6]), rng.randint(0, 4)])]
    on, keys = set(), set()
    for _ in range(n):
        r = rng.random()
        if r < .4:
            i = rng.randint(1, 60)
            if i not in on:
                k = rng.randint(1, 40)
                on.add(i)
                keys.add(k)
                ses.append(("tadd", [i, k]))
        elif r < .6 and on:
            i = rng.choice(sorted(on))
            on.discard(i)
            ses.append(("tdel", [i]))
        elif r < .8 and keys:
            ses.append(("tfind", [rng.choice(sorted(keys))]))
        elif r < .88:
            ses.append(("tdump", []))
        elif r < .96:
            ses.append(("tempty", []))
        elif rng.random() < .4:
            d = rng.randint(0, 1)
            on = {i for i in on if i % 2 != d}
            ses.append(("tdrain", [d]))
    return ses


def lift(trace):
    """the bucket index chosen by the hash function is observed; the specification checks it is one function of the key"""
    return [[op, a[:2] + [r], r] if op == "tadd" and not has_crash([op, a, r]) else [op, a, r] for op, a, r in trace]


def check(ck):
    lib = Lib()
    exe = lib.driver("hashmap")
    with open(ck.wd + "/MC_HashMap.cfg", "w") as f:
        f.write("CONSTANT N = %d\nCONSTANT NT = %d\n" % (q(4, 5), 3))
    g = ck.explore("MC_HashMap")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("HashMap", exe, [fix(s) for s in ses], "tour", transform=lift)
    ck.run_and_validate("HashMap", exe, [map_session(rng, rng.choice([60, 200, 600])) for _ in range(q(150, 2500))]
                        + [tbl_session(rng, rng.choice([40, 150])) for _ in range(q(150, 2000))], "random", transform=lift)
    ck.run_and_validate("HashMap", exe, [map_session(rng, n) for n in q([2500], [2500, 5000])], "stretch", transform=lift)


def fix(ses):
    """node ids are used once, so a history stays valid whichever of several equal entries was replaced or deleted"""
    nxt, out = 1, []
    if ses[0][0] == "tnew":
        return ses
    for op, a in ses:
        if op == "insert":
            a = [nxt] + a[1:]
            nxt += 1
        out.append((op, a))
    return out + [("release", [])]
