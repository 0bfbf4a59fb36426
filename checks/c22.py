from vf import *

NARGS = {"and": 5, "andnot": 5, "or": 5, "xor": 5, "shl": 5, "shr": 5, "complement": 4, "copy": 4, "zero": 3, "fill": 3,
         "set": 4, "clr": 4, "replace": 5}
LENS = [0, 1, 2, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 72, 96, 127, 128, 129, 192, 200, 256, 320]
STARTS = [0, 1, 8, 16, 63, 64, 65, 120]


def lift(trace):
    """the destination register a command left behind becomes an input of the specification's step"""
    out = []
    for op, a, r in trace:
        if op in NARGS and not has_crash([op, a, r]):
            a, r = a[:NARGS[op]] + [r[1]], r[0]
        out.append([op, a, r])
    return out


TOP = 320


def pattern(rng):
    k = rng.random()
    if k < .1:
        return []
    if k < .2:
        return list(range(TOP))
    if k < .4:
        b = rng.randint(0, TOP - 1)
        return list(range(b, rng.randint(b, TOP - 1) + 1))
    if k < .6:
        return sorted(rng.sample(range(TOP), rng.choice([1, 2, 5])))
    if k < .7:
        return sorted(set(range(TOP)) - set(rng.sample(range(TOP), rng.choice([1, 2, 5]))))
    p = rng.random()
    return [i for i in range(TOP) if rng.random() < p]


def length(rng, k):
    return rng.choice(LENS) if k or rng.random() < .5 else rng.randint(0, TOP)


def rand_session(rng, n):
    ses = [("init", [pattern(rng) for _ in range(4)])]
    R = lambda: rng.randint(1, 4)
    for _ in range(n):
        op = rng.choice(list(NARGS) + ["empty", "full", "equal", "or_equal", "intersects", "set", "clr", "shl", "shr"])
        k = rng.randint(0, 1)
        L = length(rng, k)
        if op in ("and", "andnot", "or", "xor"):
            a = [R(), R(), R(), L, k]
        elif op in ("shl", "shr"):
            a = [R(), R(), rng.choice([0, 1, 31, 63, 64, 65, 127, 128, L, max(L - 1, 0), rng.randint(0, 400)]), L, k]
        elif op in ("complement", "copy", "equal", "intersects"):
            if op == "copy":
                x = rng.sample(range(1, 5), 2)    # the regions of a copy may not overlap
                a = [x[0], x[1], L, k]
            else:
                a = [R(), R(), L, k]
        elif op in ("zero", "fill", "empty", "full"):
            a = [R(), L, k]
        elif op in ("set", "clr"):
            st = rng.choice(STARTS) if k or rng.random() < .3 else rng.randint(0, TOP)
            L = length(rng, k)
            if st + L > TOP:
                continue
            a = [R(), st, L, k]
        elif op == "replace":
            a = [R(), R(), R(), R(), L]
        else:
            a = [R(), R(), R(), L, k]
        ses.append((op, a))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("bitmap", extra=["-O2"])
    with open(ck.wd + "/MC_BitMap.cfg", "w") as f:
        f.write("CONSTANT Deep = %d\n" % q(0, 1))
    g = ck.explore("MC_BitMap")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(100000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("BitMap", exe, ses, "tour", transform=lift)
    ck.run_and_validate("BitMap", exe, [rand_session(rng, 12) for _ in range(q(1500, 15000))], "random", transform=lift)
    # bitmaps of up to 1500 bits (24 words)
    global TOP
    TOP = 1500
    wide = lib.driver("bitmap", extra=["-O2", "-DNW=24"], out="bitmap_wide")
    ck.run_and_validate("BitMap", wide, [rand_session(rng, 12) for _ in range(q(100, 1500))], "wide", transform=lift)
