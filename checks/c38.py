from vf import *


def cmd(rng):
    op = rng.choice(["dup", "dup", "dup", "dupfail", "strdiff", "memdiff", "err", "ptr", "eptr", "halves", "class"])
    if op in ("dup", "dupfail"):
        m = [rng.randint(1, 255) for _ in range(rng.choice([rng.randint(0, 8), rng.randint(0, 70)]))]
        return (op, [m, rng.choice([-2, -1, len(m), len(m) + 1, max(0, len(m) - 1), rng.randint(0, 80)])])
    if op == "strdiff":
        c = rng.randint(1, 255)
        m = [c] * rng.randint(0, 40)
        if rng.random() < .7:
            m.insert(rng.randint(0, len(m)), rng.randint(1, 255))
        return (op, [m, rng.choice([c, c, c - 256, c + 256 * rng.randint(-3, 3), rng.randint(0, 255)])])
    if op == "memdiff":
        c = rng.randint(0, 255)
        m = [c] * rng.randint(0, 40)
        for _ in range(rng.choice([0, 1, 1, 2])):
            m.insert(rng.randint(0, len(m)), rng.randint(0, 255))
        return (op, [m, rng.choice([len(m), len(m), rng.randint(0, len(m))]), rng.choice([c, c, c - 256, c + 256])])
    if op in ("err", "eptr"):
        x = rng.choice([rng.randint(-140, 140), rng.randint(-5000, 5000), rng.getrandbits(32), rng.choice([-1, 1]) * (rng.randint(0, 133) + 65536 * rng.randint(0, 3))])
        return (op, [limbs(x % (1 << 32), 2)])
    if op in ("ptr", "halves"):
        x = rng.choice([-rng.randint(0, 5000), rng.getrandbits(64), (1 << 32) - rng.randint(0, 4097), (1 << 63) - rng.randint(-4097, 4097)])
        return (op, [limbs(x % (1 << 64))])
    return (op, [rng.randint(-128, 255)])


def check(ck):
    with open(ck.wd + "/MC_Text.cfg", "w") as f:
        f.write("CONSTANT Far = %d\n" % q(4200, 30000))
    g = ck.explore("MC_Text")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(100000, 400000))
    ck.cov["tour_edges_covered"] = cov
    lib = Lib()
    for label, extra in (("", ()), ("-O2", ("-O2",))):
        exe = lib.driver("text", extra=list(extra), out="text" + label)
        ck.run_and_validate("Text", exe, ses, "tour" + label)
        ck.run_and_validate("Text", exe, [[cmd(rng) for _ in range(60)] for _ in range(q(150, 4000))], "random" + label)
