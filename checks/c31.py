from vf import *


def cells(rng, n):
    b = []
    for _ in range(n):
        x = rng.choice([0, 1, 2, (1 << 64) - 1, 1 << 63, 1 << 32, rng.getrandbits(64), rng.getrandbits(10)])
        b += [(x >> (8 * i)) & 255 for i in range(8)]
    return b


def rand_session(rng, k):
    ses, have, top = [], set(), rng.choice([1, 2, 3, 5])
    for _ in range(k):
        r, d = rng.random(), rng.randint(1, 3)
        arm = r < .8 and rng.random() < .07
        if arm and have:
            ses.append(("arm", [rng.choice([1, 1, 2])]))
        if r < .3 or len(have) < 2:
            x, y = rng.randint(1, top), rng.randint(1, top)
            if arm and d not in have:
                ses.append(("import", [d, x, y, cells(rng, x * y)]))
            have.add(d)
            ses.append(("import", [d, x, y, cells(rng, x * y)]))
            continue
        x, y = rng.choice(sorted(have)), rng.choice(sorted(have))
        if r < .66:
            c = (rng.choice(["add", "sub", "mul", "mul"]), [d, x, y])
        elif r < .8:
            c = (rng.choice(["trans", "trans", "set"]), [d, x])
        else:
            c = ("data", [rng.randint(1, 3), rng.randint(0, top), rng.randint(0, top)])
        if c[0] != "data" and d not in have and (arm or c[0] in ("add", "sub", "mul")):
            c = (c[0], [x] + c[1][1:])
        elif c[0] in ("trans", "set"):
            have.add(d)
        ses.append(c)
        if arm:
            ses.append(("data", [1, 0, 0]))
    return ses + [("live", [0])]


def check(ck):
    lib = Lib()
    exe = lib.driver("matrix")
    with open(ck.wd + "/MC_Matrix.cfg", "w") as f:
        f.write("CONSTANT Max = %d\n" % q(3, 4))
    g = ck.explore("MC_Matrix")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Matrix", exe, ses, "tour")
    ck.run_and_validate("Matrix", exe, [rand_session(rng, rng.choice([10, 30])) for _ in range(q(700, 8000))], "random")
    # rows and columns around and past 256
    st = []
    for n in q([257], [255, 256, 257, 400]):
        for x, y in ((1, n), (n, 1)):
            st.append([("import", [1, x, y, cells(rng, n)]), ("import", [2, y, x, cells(rng, n)]), ("mul", [3, 1, 2] if x == 1 else [3, 2, 1]), ("data", [3, 0, 0]),
                       ("trans", [3, 1]), ("add", [3, 3, 2]), ("data", [3, (x if y == 1 else y) // 2, 0] if y == 1 else [3, 0, 0]), ("sub", [1, 1, 1]), ("set", [2, 3])])
    ck.run_and_validate("Matrix", exe, st, "stretch")
