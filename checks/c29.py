from vf import *


def rand_text(rng):
    al = rng.choice([[97, 32], [97, 98, 32, 9, 10, 13], [97, 11, 12, 0x1f, 0xa0, 32, 133], list(range(1, 256))])
    t = []
    for _ in range(rng.choice([0, 1, 3, 8, 30])):
        t += [rng.choice(al)] * rng.choice([1, 1, 1, 2, 5])
    return t


def rand_cmd(rng):
    if rng.random() < .3:
        return ("count", [rand_text(rng)])
    return ("split", [rand_text(rng), int(rng.random() < .05), rng.randint(0, 1)])


def check(ck):
    lib = Lib()
    exe = lib.driver("argv")
    with open(ck.wd + "/MC_Argv.cfg", "w") as f:
        f.write("CONSTANT N = %d\n" % q(9, 13))
    g = ck.explore("MC_Argv")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 200000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Argv", exe, ses, "tour")
    ck.run_and_validate("Argv", exe, [[rand_cmd(rng) for _ in range(25)] for _ in range(q(300, 5000))], "random")
    # several hundred words, long words, long gaps
    st = []
    for words, wl, gl in q([(255, 1, 1), (256, 2, 1), (257, 1, 2), (3, 300, 260), (600, 1, 1)], [(255, 1, 1), (256, 2, 1), (257, 1, 2), (3, 300, 260), (600, 1, 1), (1100, 2, 2), (1, 5000, 2), (2, 10, 5000)]):
        t = []
        for i in range(words):
            t += [rng.choice([97, 98, 200]) for _ in range(wl)] + ([rng.choice([32, 9, 10, 13]) for _ in range(gl)] if i < words - 1 or rng.random() < .5 else [])
        st.append([("count", [t]), ("split", [t, 0, 0]), ("split", [t, 0, 1])])
    ck.run_and_validate("Argv", exe, st, "stretch")
