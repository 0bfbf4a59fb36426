from vf import *


def rand(rng, n):
    out = []
    for _ in range(n):
        ln = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, rng.randint(0, 120)])
        shape = rng.randint(0, 5)
        hi = rng.choice([1, 2, 4, 20, 255])
        v = [rng.randint(0, hi) for _ in range(ln)]
        if shape == 1:
            v.sort()
        elif shape == 2:
            v.sort(reverse=True)
        elif shape == 3:
            v.sort()
            for _ in range(2):
                if ln > 1:
                    i, j = rng.randrange(ln), rng.randrange(ln)
                    v[i], v[j] = v[j], v[i]
        elif shape == 4:
            v = v[:(ln + 1) // 2] + v[:ln // 2]
        ord_, st = rng.randint(0, 2), rng.randint(0, 2)
        w = lambda x: (x, -x, x % 3)[ord_]
        o = rng.choice(["sort", "sort", "lsort", "lsort", "bsearch"])
        if o == "sort":
            out.append([(o, [rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 40, 100]), st, ord_, v])])
        elif o == "lsort":
            out.append([(o, [st, ord_, v])])
        else:
            v.sort(key=w)
            out.append([(o, [rng.choice([1, 2, 3, 8, 13]), st, ord_, v, x])
                        for x in [rng.randint(0, min(255, hi + 1))] + rng.sample(v, min(len(v), 3)) + v[:1] + v[-1:]])
    return out


def stretch(rng):
    """long inputs and large elements"""
    out = []
    for n in q([255, 256, 257, 600], [255, 256, 257, 511, 600, 1023, 2050]):
        for o in ("sort", "lsort", "bsearch"):
            for hi in (3, 255):
                v = [rng.randint(0, hi) for _ in range(n)]
                ord_, st = rng.randint(0, 2), rng.randint(0, 2)
                if o == "sort":
                    out.append([(o, [rng.choice([1, 3, 4, 256, 300, 1000]), st, ord_, v])])
                elif o == "lsort":
                    out.append([(o, [st, ord_, v])])
                else:
                    v.sort(key=lambda x: (x, -x, x % 3)[ord_])
                    out.append([(o, [rng.choice([1, 8, 256, 300]), st, ord_, v, x]) for x in [v[0], v[-1], v[n // 2], v[n // 2 - 1]] + rng.sample(range(256), 8)])
    for c in (255, 256, 257, 1024, 4096):
        v = [rng.randint(0, 255) for _ in range(rng.randint(5, 40))]
        out.append([("sort", [c, rng.randint(0, 2), rng.randint(0, 2), v])])
    return out


def check(ck):
    lib = Lib()
    exe = lib.driver("sort")
    open(os.path.join(ck.wd, "MC_Sort.cfg"), "w").write("CONSTANTS L = %d\nK = 2\n" % q(6, 8))
    g = ck.explore("MC_Sort")
    cmds = sorted(set(e[1] for e in g["edges"]))
    rng = ck.rng()
    rng.shuffle(cmds)
    cmds = [tuple(json.loads(c)) for c in cmds][:q(30000, 300000)]
    ck.cov["tour_edges_covered"] = len(cmds)
    ck.run_and_validate("Sort", exe, [cmds[i:i + 50] for i in range(0, len(cmds), 50)], "exhaustive")
    ck.run_and_validate("Sort", exe, rand(rng, q(3000, 40000)), "random")
    ck.run_and_validate("Sort", exe, stretch(rng), "stretch")
