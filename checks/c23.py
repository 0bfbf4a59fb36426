from vf import *
import c22
from c22 import pattern, length


def word(rng, w):
    p = rng.choice([.02, .1, .5, .9, .98])
    return [i for i in range(w) if rng.random() < p]


def rand_session(rng, n):
    ses = [("init", [pattern(rng), pattern(rng)])]
    for _ in range(n):
        r = rng.random()
        k, z = rng.randint(0, 1), rng.randint(0, 1)
        L = length(rng, k)
        f = rng.choice([max(L - 1, 0), L, L + 1, rng.randint(0, c22.TOP + 10), 4294967295 - (1 << 31)])
        if r < .35:
            ses.append((rng.choice(["next", "prev", "each_cont", "each_rev_cont", "each_form", "each_rev_form"]), [z, L, k, f]))
        elif r < .45:
            ses.append((rng.choice(["first", "last", "each", "each_rev"]), [z, L, k]))
        elif r < .55:
            ses.append((rng.choice(["next_and", "prev_and"]), [L, k, f]))
        elif r < .62:
            ses.append((rng.choice(["snext", "sprev"]), [z, L, f]))
        elif r < .65:
            ses.append((rng.choice(["sfirst", "slast"]), [z, L]))
        elif r < .8:
            b = rng.randint(0, c22.TOP - 1)
            op = rng.choice(["set", "clr", "flip", "test", "test_set", "test_clr", "test_flip", "change", "test_change"])
            ses.append((op, [b, rng.randint(0, 5)] + ([z] if "change" in op else [])))
        elif r < .9:
            w = rng.choice([8, 16, 32, 64])
            op = rng.choice(["popcount", "parity", "bitrev", "rol", "ror"])
            ses.append((op, [w, word(rng, w), rng.randint(0, 2) if op in ("popcount", "parity", "bitrev") else rng.choice([rng.randint(0, 70), 2000000011])]))
        else:
            x = word(rng, 64)
            op = rng.choice(["ffs", "fls", "ffz", "flz", "ffsuf", "flsuf", "ffzuf", "flzuf", "ctz", "clz", "ffns", "flns", "ffnz", "flnz"])
            if op in ("ffsuf", "flsuf", "ctz", "clz") and not x or op in ("ffzuf", "flzuf") and len(x) == 64:
                continue
            ses.append((op, [x, z] if "n" not in op else [x, rng.randint(0, 66), z]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("bitops", extra=["-O2"])
    with open(ck.wd + "/MC_BitOps.cfg", "w") as f:
        f.write("CONSTANT Deep = %d\n" % q(0, 1))
    g = ck.explore("MC_BitOps")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("BitOps", exe, ses, "tour")
    ck.run_and_validate("BitOps", exe, [rand_session(rng, 20) for _ in range(q(1000, 15000))], "random")
    # bitmaps of up to 1000 bits (16 words)
    c22.TOP = 1000
    wide = lib.driver("bitops", extra=["-O2", "-DNW=16"], out="bitops_wide")
    ck.run_and_validate("BitOps", wide, [rand_session(rng, 20) for _ in range(q(80, 1000))], "wide")
