from vf import *


def rand_word(rng, alpha, n):
    if rng.random() < .4 and n > 1:            # periodic words stress the shift tables
        p = [rng.choice(alpha) for _ in range(rng.randint(1, max(1, n // 2)))]
        w = (p * (n // len(p) + 1))[:n]
        if rng.random() < .4:
            w[rng.randrange(n)] = rng.choice(alpha)
        return w
    return [rng.choice(alpha) for _ in range(n)]


def rand_session(rng, k):
    ses = []
    alpha = rng.choice([[97, 98], [97, 98], [97, 98, 99], [97, 65, 98, 66], [0, 255], [0, 255, 128, 127], [90, 122, 91, 64, 96, 123],
                        list(range(256)), [223, 255, 65, 97, 193, 225]])
    for _ in range(rng.randint(1, 3)):
        pat = rand_word(rng, alpha, rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 12]))
        ses.append(("create", [rng.choice(["kmp", "bm", "sunday"]), pat, rng.randint(0, 1), 0]))
        if rng.random() < .1:
            ses.append(("pattern", []))
        mode, slots = 0, {}
        for _ in range(k):
            r = rng.random()
            s = rng.choice([1, 1, 2])
            if r < .35:
                n = rng.choice([0, 1, 4, 10, 30, 60])
                t = rand_word(rng, alpha, n)
                while n and rng.random() < .7:              # plant the pattern, or nearly
                    i = rng.randrange(n)
                    w = pat[:]
                    if rng.random() < .5:
                        w[rng.randrange(len(w))] = rng.choice(alpha)
                    if rng.random() < .3:
                        w = [c ^ 32 if 65 <= (c & 223) <= 90 else c for c in w]
                    t = (t[:i] + w + t[i + len(w):])[:n]
                if rng.random() < .5 or not n:
                    ses.append(("linear", [s, t]))
                    mode = slots[s] = 1
                else:
                    g = []
                    while sum(g) < n:
                        g.append(min(n - sum(g), rng.choice([1, 2, 3, 5, 8, 20])))
                    ses.append(("find", [s, t, g]))
                    mode = slots[s] = 2
            elif r < .4 and slots.get(s) == 2:
                ses.append(("again", [s]))
                mode = 2
            elif slots.get(s) == mode and mode:
                ses.append(("next", [s]))
        ses.append(("destroy", []))
    return ses


def stretch(rng):
    """patterns around and past 256 characters, texts split into long blocks"""
    out = []
    for m in q([100, 255, 256, 257, 300], [64, 100, 127, 128, 129, 255, 256, 257, 300, 520]):
        for alg in ("kmp", "bm", "sunday"):
            alpha = rng.choice([[97, 98], [97, 98, 99, 65], list(range(256))])
            pat = rand_word(rng, alpha, m)
            t = rand_word(rng, alpha, rng.randint(0, 3)) + pat + rand_word(rng, alpha, rng.randint(0, 40)) + pat[:rng.randint(0, m)] + pat + pat[1:]
            ses = [("create", [alg, pat, rng.randint(0, 1), 0]), ("linear", [1, t])] + [("next", [1])] * 3
            g = []
            while sum(g) < len(t):
                g.append(min(len(t) - sum(g), rng.choice([m - 1, m, m + 1, 64, 200])))
            ses += [("find", [2, t, g[:60] if sum(g[:60]) == len(t) else [len(t)]])] + [("next", [2])] * 3 + [("destroy", [])]
            out.append(ses)
    return out


def check(ck):
    lib = Lib()
    exe = lib.driver("textsearch")
    with open(ck.wd + "/MC_TextSearch.cfg", "w") as f:
        f.write("CONSTANTS PLen = %d TLen = %d BLen = %d\n" % (q(4, 5), q(6, 8), q(4, 5)))
    g = ck.explore("MC_TextSearch")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(120000, 600000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("TextSearch", exe, ses, "tour")
    ck.run_and_validate("TextSearch", exe, [rand_session(rng, rng.choice([10, 40])) for _ in range(q(1200, 12000))], "random")
    ck.run_and_validate("TextSearch", exe, stretch(rng), "stretch")
