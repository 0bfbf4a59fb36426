from vf import *


def cmd(rng):
    op = rng.choice(["pjw", "pjw", "circle", "free", "flag", "action", "once", "scn", "scnbad", "repeat", "time", "time", "shift", "bitno", "group"])
    if op == "pjw":
        return (op, [[rng.choice([255, 15, 240, rng.randint(1, 255), rng.randint(32, 126)]) for _ in range(rng.choice([rng.randint(0, 12), rng.randint(0, 60)]))]])
    if op in ("circle", "free"):
        k = rng.randint(0, 20)
        z = 1 << k
        if op == "circle":
            return (op, [rng.choice([0, z - 1, rng.randrange(z)]), rng.choice([0, z - 1, rng.randrange(z)]), k])
        t = rng.randrange(1 << 29)
        return (op, [t + rng.randint(0, z - 1), t, k])
    if op == "flag":
        v = rng.choice(["plain", "atomic", "struct", "satomic"])
        top = 64 if v[0] == "s" else 128
        return (op, [v, rng.choice(["set", "clr", "flip", "test", "test_set", "test_clr", "test_flip"]), rng.choice([0, 1, 31, 32, 63] + ([64, 127] if top > 64 else [])),
                     sorted(rng.sample(range(top), rng.choice([0, 1, top // 2, top])))])
    if op == "action":
        return (op, [[y for _ in range(rng.randint(0, 12)) for y in (rng.randint(1, 4), rng.randint(-60, 1000))]])
    if op == "once":
        return (op, [[rng.choice([0, 0, 0, 1]) for _ in range(rng.randint(0, 20))]])
    if op == "scn":
        n = rng.randint(0, 40)
        return (op, [rng.choice([0, 1, n, n + 1, n + 2, rng.randint(0, 60)]), [rng.randint(1, 255) for _ in range(n)]])
    if op in ("time", "shift"):
        x = rng.choice([rng.getrandbits(64), rng.getrandbits(rng.randint(1, 64)), (1 << 64) - rng.randint(1, 9), rng.randint(0, 9), (1 << 63) + rng.randint(-3, 3)])
        y = rng.choice([x, x ^ (1 << rng.randrange(64)), rng.getrandbits(64)])
        return (op, [limbs(x), limbs(y)])
    if op == "bitno":
        return (op, [rng.choice([rng.randint(0, 2000), rng.randint(0, 1 << 30)])])
    if op == "group":
        return (op, [rng.randint(-1 << 30, 1 << 30), rng.randint(-99, 99), rng.randint(0, 127)])
    return (op, [rng.randint(0, 30)])


def check(ck):
    with open(ck.wd + "/MC_Util.cfg", "w") as f:
        f.write("CONSTANT Depth = %d\nCONSTANT Log = %d\n" % q((2, 3), (3, 5)))
    g = ck.explore("MC_Util")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 300000))
    ck.cov["tour_edges_covered"] = cov
    exe = Lib().driver("util")
    ck.run_and_validate("Util", exe, ses, "tour")
    ck.run_and_validate("Util", exe, [[cmd(rng) for _ in range(40)] for _ in range(q(120, 3000))], "random")
    draws = []
    for i in range(q(60, 1500)):
        s = rng.choice([rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(rng.randint(1, 64)), rng.randrange(300)])
        draws.append([("init", [0]) if i % 10 == 9 else ("seed", [limbs(s)])] + [(rng.choice(["u32", "u32", "u64", "long"]), [0]) for _ in range(rng.randint(1, 60))])
    ck.run_and_validate("Util", exe, draws, "streams")
