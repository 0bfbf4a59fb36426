from vf import *

W = {"crc4": 4, "crc7": 8, "crc8": 8, "crc16": 16, "ccitt": 16, "itut": 16, "t10dif": 16, "crc32": 32, "crc64": 64, "rocksoft": 64}


def rand_session(rng, name):
    w = W[name]
    init = rng.choice([0, (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(w)])
    ses = [("start", [name, [init] if w < 16 else limbs(init, w // 16)])]
    for _ in range(rng.randint(1, 6)):
        n = rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, rng.randint(0, 60)])
        m = [rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(n)]
        ses.append(("feed", [rng.randint(0, 7), m, 8 * n - (rng.choice([0, 0, rng.randint(0, 7)]) if n else 0)]))
    return ses


def check(ck):
    with open(ck.wd + "/MC_Crc.cfg", "w") as f:
        f.write("CONSTANT Pieces = %s\nCONSTANT Long = %d\n" % q(("{0, 1, 3, 9, 17}", 12), ("{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31}", 34)))
    g = ck.explore("MC_Crc")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 200000))
    ck.cov["tour_edges_covered"] = cov
    rand = [rand_session(rng, rng.choice(sorted(W))) for _ in range(q(600, 8000))]
    # pieces around and past 256 bytes
    for name in sorted(W):
        w = W[name]
        for n in q([255, 256, 257, 1100], [255, 256, 257, 1100, 5000]):
            rand.append([("start", [name, [(1 << w) - 1] if w < 16 else limbs(rng.getrandbits(w), w // 16)]),
                         ("feed", [rng.randint(0, 7), [rng.randrange(256) for _ in range(n)], 8 * n]), ("feed", [0, [1, 2, 3], 24])])
    for label, lib in (("", Lib()), ("-plain", Lib(defs=["-DBFDEV_CRC_EXTEND=OFF"]))):
        exe = lib.driver("crc")
        ck.run_and_validate("Crc", exe, ses, "tour" + label)
        ck.run_and_validate("Crc", exe, rand, "random" + label)
