from vf import *


def rand_cmd(rng):
    al = rng.choice([[97, 98], [97, 98, 99, 100], [0, 255, 127, 128], list(range(256))])
    x = [rng.choice(al) for _ in range(rng.choice([0, 1, 2, 5, 10, 20]))]
    y = list(x) if rng.random() < .6 else [rng.choice(al) for _ in range(rng.choice([0, 1, 3, 8, 16]))]
    for _ in range(rng.randint(0, 5)):
        r, n = rng.random(), len(y)
        i = rng.randrange(n + 1)
        if r < .3 and i < n - 1:
            y[i], y[i + 1] = y[i + 1], y[i]
        elif r < .5:
            y.insert(i, rng.choice(al))
        elif r < .75 and i < n:
            del y[i]
        elif i < n:
            y[i] = rng.choice(al)
    w = [rng.choice([0, 1, 1, 2, 3, 7, 100, 1000000]) for _ in range(4)]
    return ("dist", [x, y, w, int(rng.random() < .03)])


def check(ck):
    lib = Lib()
    exe = lib.driver("levenshtein")
    with open(ck.wd + "/MC_Levenshtein.cfg", "w") as f:
        f.write("CONSTANT N = %d\n" % q(4, 5))
    g = ck.explore("MC_Levenshtein")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Levenshtein", exe, ses, "tour")
    ck.run_and_validate("Levenshtein", exe, [[rand_cmd(rng) for _ in range(25)] for _ in range(q(200, 3000))], "random")
    # strings around and past 256 characters
    st = []
    for m, n in q([(255, 256), (257, 20), (3, 300)], [(255, 256), (257, 257), (257, 20), (3, 300), (300, 310), (1, 600)]):
        al = rng.choice([[97, 98], list(range(256))])
        x, y = [[rng.choice(al) for _ in range(k)] for k in (m, n)]
        if rng.random() < .5 and abs(m - n) < 20:
            y = x[:n]
            for _ in range(6):
                y[rng.randrange(len(y))] = rng.choice(al)
        st.append([("dist", [x, y, [rng.choice([1, 2, 3, 100]) for _ in range(4)], 0])])
    ck.run_and_validate("Levenshtein", exe, st, "stretch")
