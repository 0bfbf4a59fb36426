from vf import *

U = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}
S = {"s8": 1, "s16": 2, "s32": 4, "s64": 8}
A = dict(U, **S)
SWAPS = {"swab16": 2, "swab32": 4, "swab64": 8, "swahb32": 4, "swahw32": 4, "swahb64": 8, "swahw64": 8, "swahl64": 8}
KSWAP = [0, 0x0102030405060708, 0xf1e2d3c4b5a69788, (1 << 64) - 1, 0x80000000000000ff]


def by(x, w):
    return list((x % (1 << (8 * w))).to_bytes(w, "little"))


def word(rng, w):
    """A w-byte pattern, mostly near a boundary."""
    b = 8 * w
    k = rng.randrange(5)
    if k == 0:
        return rng.getrandbits(b)
    if k == 1:
        return rng.getrandbits(rng.randint(1, b))
    if k == 2:
        return ((1 << rng.randint(0, b)) + rng.randint(-2, 2)) % (1 << b)
    if k == 3:
        return (rng.choice([0, 1 << (b - 1)]) + rng.randint(-3, 3)) % (1 << b)
    return sum(rng.choice([0, 255, rng.randrange(256)]) << (8 * i) for i in range(w))


def val(t, x):
    b = 8 * A[t]
    return x - (1 << b) if t in S and x >> (b - 1) else x


def lim(t):
    """range of the type arithmetic on t is done in"""
    b = 8 * max(4, A[t])
    return (0, (1 << b) - 1) if t in U and A[t] >= 4 else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def near(x, y):
    q = (2 * abs(x) + abs(y)) // (2 * abs(y))
    return q if (x >= 0) == (y >= 0) else -q


def cmd(rng):
    op = rng.choice(["add", "sub", "mul", "near", "near", "minmax", "round", "align", "align", "alignptr", "divup", "log", "klog", "field", "field",
                     "swap", "kswap", "swaparr", "order", "orderarr", "net", "peek", "poke", "hash", "jhash", "jhash", "bit", "range",
                     "dadd", "dsub", "dmul", "dqr", "dqr", "ddiv", "ddiv", "ddiv", "ddivd", "ddivd", "ddivd"])
    if op in ("add", "sub", "mul"):
        t = rng.choice(list(A))
        w = A[t]
        x, y = word(rng, w), word(rng, w)
        if op == "mul" and rng.random() < .5:               # products near the limit
            y = (rng.choice([1 << (8 * w), 1 << (8 * w - 1)]) // max(1, x) + rng.randint(-1, 1)) % (1 << (8 * w))
        return (op, [t, by(x, w), by(y, w)])
    if op == "near":
        while True:
            t = rng.choice(list(A))
            x, y = val(t, word(rng, A[t])), val(t, word(rng, A[t]))
            if rng.random() < .4 and y:                     # about half way between two multiples
                x = y * rng.randint(-5, 5) + y // 2 + rng.randint(-1, 1)
                if by(x, A[t]) != by(val(t, x % (1 << 8 * A[t])), A[t]) or val(t, x % (1 << 8 * A[t])) != x:
                    continue
            lo, hi = lim(t)
            if y and x + abs(y) // 2 <= hi and (t in U or x - abs(y) // 2 >= lo) and lo <= near(x, y) <= hi:
                return (op, [t, by(x, A[t]), by(y, A[t])])
    if op == "minmax":
        t = rng.choice(list(A))
        w = A[t]
        x, a, b = (word(rng, w) for _ in range(3))
        if rng.random() < .3:
            x = a
        a, b = sorted((a, b), key=lambda z: val(t, z))
        return (op, [t, by(x, w), by(a, w), by(b, w)])
    if op == "round":
        t = rng.choice(list(U))
        return (op, [t, by(word(rng, U[t]), U[t]), by(1 << rng.randrange(8 * U[t]), U[t])])
    if op in ("align", "alignptr"):
        t, a = rng.choice(list(U)), rng.choice(list(U) + ["s32"])
        p = by(1 << rng.randrange(31 if a == "s32" else 8 * A[a]), A[a])
        return (op, [t, a, by(word(rng, U[t]), U[t]), p]) if op == "align" else (op, [a, by(word(rng, 8), 8), p])
    if op == "divup":
        while True:
            t = rng.choice(list(U))
            x, y = word(rng, U[t]), word(rng, U[t])
            if y and x + y - 1 <= lim(t)[1]:
                return (op, [t, by(x, U[t]), by(y, U[t])])
    if op == "log":
        t = rng.choice(list(U))
        return (op, [t, by(min(word(rng, U[t]), 1 << 63), U[t])])
    if op == "klog":
        k = rng.randrange(64)
        v = (1 << k) + rng.choice([-1, 0, 1])
        return (op, [by(v if v <= 1 << 63 else 5, 8)])
    if op == "field":
        t = rng.choice(list(U))
        w = U[t]
        n = rng.randint(1, 8 * w)
        lo = rng.randint(0, 8 * w - n)
        near_ = lambda: max(0, (1 << rng.choice([n, n, n - 1, rng.randint(0, 63)])) + rng.randint(-2, 1))
        return (op, [t, by(((1 << n) - 1) << lo, w), by(word(rng, w), w), by(near_(), w), by(near_(), 8)])
    if op == "swap":
        k = rng.choice(list(SWAPS))
        return (op, [k, by(word(rng, SWAPS[k]), SWAPS[k])])
    if op == "kswap":
        return (op, [by(rng.choice(KSWAP), 8)])
    if op in ("swaparr", "orderarr"):
        w = rng.choice([2, 4, 8])
        return (op, [w, [rng.randrange(256) for _ in range(w * rng.randint(0, 5))]])
    if op in ("order", "net"):
        w = rng.choice([2, 4, 8] if op == "order" else [2, 4])
        return (op, [by(word(rng, w), w)])
    if op in ("peek", "poke"):
        w = rng.choice([2, 4, 8])
        at = rng.randint(0, 9)
        b = [rng.randrange(256) for _ in range(at + w + rng.choice([0, 0, 3]))]
        return (op, [b, at, w]) if op == "peek" else (op, [b, at, by(word(rng, w), w), rng.choice(["le", "be", "native", "word"])])
    if op == "hash":
        w = rng.choice([4, 8])
        return (op, [by(word(rng, w), w), rng.randint(1, 8 * w)])
    if op == "jhash":
        n = rng.choice([rng.randint(0, 14), rng.randint(0, 60)])
        return (op, [[rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)], limbs(word(rng, 4), 2), rng.randint(0, 7)])
    if op == "bit":
        return (op, [rng.randint(0, 300), by(word(rng, 8), 8)])
    if op == "range":
        lo, hi = sorted([rng.randrange(64), rng.randrange(64)])
        return (op, [hi, lo])
    if op in ("dadd", "dsub"):
        return (op, [by(word(rng, 16), 16), by(word(rng, 16), 16)])
    if op == "dmul":
        return (op, [by(word(rng, 8), 8), by(word(rng, 8), 8)])
    if op == "dqr":
        d = word(rng, 8) | 1 << 63
        return (op, [by(rng.choice([word(rng, 16), d << 64]) % (d << 64) if rng.random() < .5 else (d << 64) - rng.randint(1, 1 << rng.randint(1, 66)), 16), by(d, 8)])
    w = 8 if op == "ddiv" else 16
    d = max(1, word(rng, w))
    n = word(rng, 16)
    if rng.random() < .5:                                   # dividends next to multiples of the divisor
        n = (d * (word(rng, 8) % max(1, (1 << 128) // d)) + rng.choice([-1, 0, 1, d // 2, d - 1])) % (1 << 128)
    return (op, [by(n, 16), by(d, w)])


def check(ck):
    with open(ck.wd + "/MC_Ints.cfg", "w") as f:
        f.write("CONSTANT Shifts = %s\nCONSTANT Small = %s\n" % q(("{0, 1, 3, 7, 8, 15, 30, 31, 32, 62, 63}", "{0, 1, 2, 3, 100}"),
                ("{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 30, 31, 32, 33, 40, 47, 48, 55, 56, 61, 62, 63}", "{0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 17, 100, 127}")))
    g = ck.explore("MC_Ints")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    fixed = [("klog", [by((1 << k) + d, 8)]) for k in range(64) for d in (-1, 0, 1) if (1 << k) + d <= 1 << 63] + [("kswap", [by(v, 8)]) for v in KSWAP]
    every = []
    for t in ("u8", "s8"):                                  # one byte: every operand
        every += [("log", [t, [x]]) for x in range(256) if t in U]
        step = q(17, 1)
        every += [(op, [t, [x], [y]]) for op in ("add", "sub", "mul") for x in range(rng.randrange(step), 256, step) for y in range(256)]
        every += [("near", [t, [x], [y]]) for x in range(rng.randrange(step), 256, step) for y in range(1, 256)]
        if t in U:
            every += [("divup", [t, [x], [y]]) for x in range(rng.randrange(step), 256, step) for y in range(1, 256)]
            every += [("round", [t, [x], [1 << k]]) for x in range(256) for k in range(8)]
    rand = [[cmd(rng) for _ in range(50)] for _ in range(q(400, 6000))]
    chop = lambda l: [l[i:i + 100] for i in range(0, len(l), 100)]
    lib = Lib()
    for label, extra in (("", ()), ("-O2", ("-O2",))):
        exe = lib.driver("ints", extra=list(extra), out="ints" + label)
        if not label:
            ck.run_and_validate("Ints", exe, ses, "tour")
        ck.run_and_validate("Ints", exe, chop(fixed + every), "every" + label)
        ck.run_and_validate("Ints", exe, rand, "random" + label)
