from vf import *


def rand_digest(rng):
    ses = [("init", [rng.choice(["md5", "sha1", "sha224", "sha256"])])]
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 5)):
            n = rng.choice([0, 1, 8, rng.randint(0, 66), rng.randint(0, 66), 55, 56, 63, 64, 65, rng.randint(100, 200)])
            ses.append(("update", [[rng.randrange(256) for _ in range(n)], rng.randint(0, 7)]))
        ses += [("finish", [0]), ("init", [rng.choice(["md5", "sha1", "sha224", "sha256"])])]
    return ses


def rand_arc4(rng):
    ses = []
    for _ in range(rng.randint(1, 2)):
        ses.append(("setkey", [[rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(rng.choice([1, 5, 16, 255, 256, 257, rng.randint(1, 40)]))]]))
        for _ in range(rng.randint(1, 5)):
            ses.append(("trans", [[rng.randrange(256) for _ in range(rng.choice([0, 1, 2, rng.randint(0, 90), rng.randint(0, 90)]))], rng.randint(0, 1)]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("digest")
    with open(ck.wd + "/MC_Digest.cfg", "w") as f:
        f.write("CONSTANT Long = %d\nCONSTANT Chunks = %s\nCONSTANT Algs = {\"md5\", \"sha1\", \"sha224\", \"sha256\"}\n" %
                q((130, "{0, 1, 7, 55, 56, 64, 65}"), (260, "{0, 1, 3, 8, 55, 56, 63, 64, 65, 128}")))
    with open(ck.wd + "/MC_Arc4.cfg", "w") as f:
        f.write("CONSTANT Long = %d\nCONSTANT Pieces = %s\n" % q((24, "{0, 1, 2, 5, 9}"), (520, "{0, 1, 2, 7, 255, 256}")))
    rng = ck.rng()
    for mc, sp in (("MC_Digest", "Digest"), ("MC_Arc4", "Arc4")):
        g = ck.explore(mc)
        ses, cov = tour(g, rng, maxcmds=q(20000, 60000))
        ck.cov["tour_edges_covered"] = ck.cov.get("tour_edges_covered", 0) + cov
        ck.run_and_validate(sp, exe, ses, "tour")
        f = rand_digest if sp == "Digest" else rand_arc4
        ck.run_and_validate(sp, exe, [f(rng) for _ in range(q(200, 3000))], "random")
        if sp == "Digest":
            # updates around and past 256 and 512 bytes; a message of more than 2^16 bits
            st = []
            for alg in ("md5", "sha1", "sha224", "sha256"):
                for n in q([(255, 1), (256, 256), (520, 3), (8192,)], [(255, 1), (256, 256), (257, 255, 1), (511, 513), (520, 3), (4096, 4095, 1), (8192,), (9000, 50, 600)]):
                    st.append([("init", [alg])] + [("update", [[rng.randrange(256) for _ in range(k)], rng.randint(0, 7)]) for k in n] + [("finish", [0])])
            ck.run_and_validate(sp, exe, st, "stretch")
