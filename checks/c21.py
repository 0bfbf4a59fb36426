from vf import *


def pool_session(rng, n):
    size = rng.choice([0, 7, 8, 64, 100, 1000, 5000, rng.randint(0, 9000)])
    ses = [("new", [rng.choice([0, 0, 1, 7, 8, 16, 20, 100, rng.randint(0, 4095)]), size])]
    live, c = [], 0
    for _ in range(n):
        r = rng.random()
        if r < .6:
            c += 1
            live.append(c)
            sz = rng.choice([0, 1, 3, 8, 16, 17, rng.randint(0, max(1, size // 2)), size,
                             (1 << 64) - 1, (1 << 64) - rng.randint(1, 6000), 1 << 63, (1 << 32) + 8]) if rng.random() < .5 else rng.randint(1, 40)
            ses.append(("alloc", [c, limbs(sz), rng.choice([0, 1, 2, 4, 8, 16, 32, 64, 256, 4096])]))
        elif r < .98 and live:
            ses.append(("free", [live.pop(rng.randrange(len(live)))]))
        elif rng.random() < .3:
            ses.append(("reset", []))
            live = []
        if rng.random() < .04:
            rng.shuffle(live)
            ses += [("free", [i]) for i in live]
            live = []
    return ses


def alloc_session(rng, n):
    mode = rng.randint(0, 4)
    ses = [("new", [mode, rng.randint(0, 15)])]
    live, c = [], 0

    def arr():
        if rng.random() < .5:
            return limbs(rng.randint(0, 40)), limbs(rng.randint(0, 40))
        a = rng.randint(0, 63)
        b = rng.randint(max(0, 65 - a), 63) if a > 1 else 63
        # certain overflow: the bit lengths add up to 66 or more; low bits are random
        if a + 1 + b + 1 <= 65:
            return limbs(3), limbs(9)
        x, y = (1 << a) | (rng.getrandbits(a) if a and rng.random() < .5 else 0), (1 << b) | (rng.getrandbits(b) if rng.random() < .5 else 0)
        return limbs(x), limbs(y)
    for _ in range(n):
        f = int(rng.random() < .15)
        r = rng.random()
        c += r < .45
        if r < .3:
            ses.append((rng.choice(["malloc", "zalloc"]), [c, rng.choice([0, 1, 16, 100, rng.randint(0, 3000)]), f]))
            live.append(c)
        elif r < .45:
            ses.append((rng.choice(["amalloc", "azalloc"]), [c, *arr(), f]))
            live.append(c)
        elif r < .6 and live:
            ses.append(("realloc", [rng.choice(live), rng.choice([0, 1, 16, 100, rng.randint(0, 3000)]), f]))
        elif r < .75 and live:
            ses.append(("arealloc", [rng.choice(live), *arr(), f]))
        elif live:
            ses.append(("free", [rng.choice(live)]))
    ses.append(("end", []))
    return ses


def check(ck):
    lib = Lib()
    rng = ck.rng()
    with open(ck.wd + "/MC_AllocPool.cfg", "w") as f:
        f.write("CONSTANT N = %d\n" % q(3, 4))
    with open(ck.wd + "/MC_Allocator.cfg", "w") as f:
        f.write("CONSTANT N = 2\nCONSTANT Masks = %s\n" % q("{0, 1, 6, 9, 15}", "0..15"))
    for spec, drv, gen in (("AllocPool", "allocpool", pool_session), ("Allocator", "allocator", alloc_session)):
        exe = lib.driver(drv)
        g = ck.explore("MC_" + spec)
        ses, cov = tour(g, rng, maxcmds=q(20000, 150000))
        ck.cov["tour_edges_covered"] = ck.cov.get("tour_edges_covered", 0) + cov
        ck.run_and_validate(spec, exe, ses, "tour")
        ck.run_and_validate(spec, exe, [gen(rng, rng.choice([30, 80])) for _ in range(q(400, 6000))], "random")
