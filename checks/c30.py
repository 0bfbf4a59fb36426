from vf import *

W = 1 << 64
EDGE = [0, 0, 1, 2, 3, W - 1, W - 1, W - 2, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, W - (1 << 32)]


def word(rng):
    r = rng.random()
    return rng.choice(EDGE) if r < .7 else rng.getrandbits(rng.choice([3, 20, 40, 64]))


def nwords(rng, n):
    x = 0
    for _ in range(n):
        x = x << 64 | word(rng)
    return x


def dig(x, n=None):
    n = n if n is not None else (x.bit_length() + 63) // 64 * 8
    return [(x >> (8 * i)) & 255 for i in range(n)]


def imp(rng, i, x, pad=True):
    n = (x.bit_length() + 63) // 64 * 8 + (8 * rng.choice([0, 0, 0, 1, 2]) if pad else 0)
    return ("import", [i, rng.choice([1, 1, 0]), dig(x, n)])


def group(rng):
    """a few commands that set up operands and use them, with destinations that may alias"""
    a, b = nwords(rng, rng.choice([0, 1, 1, 2, 2, 3, 4, 5])), nwords(rng, rng.choice([0, 1, 1, 2, 2, 3, 4]))
    if rng.random() < .5 and b:                       # a dividend right next to a multiple of the divisor
        qq = nwords(rng, rng.choice([0, 1, 1, 2]))
        a = max(0, qq * b + rng.choice([0, 1, -1, b - 1, b // 2, rng.randrange(b)]))
    if rng.random() < .1:
        b = a + rng.choice([-1, 0, 1]) if a else 0
    x, y = rng.sample([1, 2, 3, 4], 2)
    if rng.random() < .1:
        y = x
    ses = [imp(rng, x, a)]
    if x != y:
        ses.append(imp(rng, y, b))
    for _ in range(rng.choice([1, 1, 2, 3])):
        d, e = rng.sample([1, 2, 3, 4], 2)
        if rng.random() < .15:
            e = d
        x2, y2 = (x, y) if rng.random() < .85 else (y, x)
        r = rng.random()
        arm = rng.random() < .08
        if r < .30:
            c, ds = ("div", [d, e, x2, y2]), [d, e]
        elif r < .36:
            c, ds = ("mod", [d, x2, y2]), [d]
        elif r < .64:
            c, ds = (rng.choice(["add", "add", "sub", "sub", "mul", "mul", "and", "or", "xor"]), [d, x2, y2]), [d]
        elif r < .76:
            c, ds = (rng.choice(["addi", "subi", "muli", "modi"]), [d, x2, dig(word(rng), 8)]), [d]
        elif r < .80:
            c, ds = ("divi", [d, e, x2, dig(word(rng), 8)]), [d, e]
        elif r < .87:
            c, ds = (rng.choice(["shl", "shr"]), [d, x2, rng.choice([0, 1, 7, 31, 63, 64, 65, 100, 127, 128, 129, 200, 256, 400] if rng.random() < .93 else [1920, 1984, 2047, 2048, 2112, 2500])]), [d]
        elif r < .88:
            c, ds = (rng.choice(["shlx", "shrx"]), [d, x2, rng.randint(1, 3)]), [d]
        elif r < .93:
            c, ds = (rng.choice(["bset", "bclr", "btest"]), [x2, rng.choice([0, 1, 63, 64, 65, 127, 128, 130, 191, 250])]), [x2]
        elif r < .96:
            c, ds = rng.choice([("cmp", [x2, y2]), ("cmpi", [x2, dig(word(rng), 8)])]), []
        else:
            c, ds = rng.choice([("set", [d, x2]), ("seti", [d, dig(word(rng), 8)]), ("release", [d])]), [d]
        if arm:
            ses.append(("arm", [rng.choice([1, 1, 2, 3])]))
        ses.append(c)
        if arm or c[0] == "shlx":
            ses += [("get", [i]) for i in (1, 2, 3, 4)]
        if set(ds) & {x, y}:                                    # stay within bounds
            ses += [imp(rng, x, nwords(rng, rng.choice([0, 1, 2, 3])))] if rng.random() < .5 else []
    return ses


def lift(tr):
    return [[op, a[:1] + [r], r] if op == "get" and not (isinstance(r, list) and r and r[0] == "CRASH") else [op, a, r] for op, a, r in tr]


def rand_session(rng, k):
    ses = []
    while len(ses) < k:
        ses += group(rng)
    return ses + [("live", [0])]


def check(ck):
    lib = Lib()
    exe = lib.driver("mpi")
    with open(ck.wd + "/MC_Mpi.cfg", "w") as f:
        f.write("CONSTANT Deep = %s\n" % q("FALSE", "TRUE"))
    g = ck.explore("MC_Mpi")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 300000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Mpi", exe, ses, "tour", transform=lift)
    ck.run_and_validate("Mpi", exe, [rand_session(rng, 15) for _ in range(q(1500, 20000))], "random", transform=lift)
    # numbers of 16 to 40 words
    st = []
    for n, m in q([(16, 16), (33, 17), (20, 1)], [(16, 16), (33, 17), (20, 1), (40, 40), (34, 33), (64, 3)]):
        a, b = nwords(rng, n) | 1 << (64 * n - 1), nwords(rng, m) | 1 << (64 * m - 1)
        qq = nwords(rng, n - m + 1)
        st.append([imp(rng, 1, a), imp(rng, 2, b), ("add", [3, 1, 2]), ("sub", [4, 1, 2]), ("mul", [3, 1, 2]), ("div", [3, 4, 1, 2]), ("mul", [4, 1, 1])])
        st.append([imp(rng, 1, qq * b + rng.choice([0, b - 1])), imp(rng, 2, b), ("div", [3, 4, 1, 2]), ("mod", [3, 1, 2]), ("shl", [3, 1, 65]), ("shr", [4, 1, 64 * n - 70]),
                   ("cmp", [1, 2]), ("xor", [3, 1, 2]), ("divi", [3, 4, 1, dig(word(rng) | 1, 8)])])
    ck.run_and_validate("Mpi", exe, st, "stretch", transform=lift)
