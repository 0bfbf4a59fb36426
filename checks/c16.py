from vf import *
CELL = [1, 2, 3, 4, 8, 12, 48, 100, 200, 256]


def rand_session(rng, n):
    sel = rng.randint(0, 9)
    cell = CELL[sel]
    num = 256 // cell
    maxoff = rng.choice([8, 9, 10, 13, 14, 18, 24, 33, 40, 63, 64, 64])
    top = (1 << maxoff) // 256 * num - 1 if cell & (cell - 1) else (1 << maxoff) // cell - 1
    top = max(top, 1)

    def idx():
        r = rng.random()
        if r < .25:
            return rng.randint(0, min(top, 3 * num + 2))
        if r < .5:
            b = rng.randint(0, top.bit_length())
            return max(0, min(top, (1 << b) + rng.randint(-2, 2)))
        if r < .6:
            return top - rng.randint(0, min(2, top))
        return rng.randint(0, top)
    ses = [("new", [sel])]
    pool = [idx() for _ in range(rng.choice([3, 8, 20]))]
    bias = .6
    for _ in range(n):
        if rng.random() < .03:
            bias = rng.choice([.9, .6, .3, .1])
        i = limbs(rng.choice(pool) if rng.random() < .85 else idx())
        r = rng.random()
        if r < .5:
            if rng.random() < bias:
                ses.append(("alloc", [i, rng.randint(0, 255), rng.choice([0, 0, 0, 1, 2, 3, 5])]))
            else:
                ses.append(("free", [i]))
        elif r < .65:
            ses.append(("find", [i]))
        elif r < .8:
            ses.append((rng.choice(["next", "prev"]), [i]))
        elif r < .86:
            ses.append((rng.choice(["first", "last"]), []))
        elif r < .96:
            ses.append(("dump", [i]))
        elif r < .985:
            size = rng.choice([0, 1, num, num + 1, 3 * num, rng.randint(0, 5 * num)])
            x = rng.choice(pool)
            if sel == 0 and top > 1 << 62 and rng.random() < .5:
                x = (1 << 64) - rng.randint(1, 600)
            elif x + size + num > top:
                x = 0
            ses.append(("charge", [limbs(x), size, rng.choice([0, 0, 1, 2, 4])]))
        elif r < .995:
            ses.append(("drain", [rng.randint(0, 1)]))
        else:
            ses.append(("release", []))
    ses += [("dump", [i]), ("release", [])]
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("radix")
    with open(ck.wd + "/MC_Radix.cfg", "w") as f:
        f.write("CONSTANT NIdx = %d\n" % q(5, 6))
    g = ck.explore("MC_Radix")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Radix", exe, [s + [("release", [])] for s in ses], "tour")
    ck.run_and_validate("Radix", exe, [rand_session(rng, rng.choice([40, 100, 200])) for _ in range(q(400, 6000))], "random")
