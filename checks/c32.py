from vf import *

AL = {6: b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 5: b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 85: bytes(range(33, 118))}


def rand_cmd(rng):
    w, n = rng.choice([6, 5, 85]), rng.choice([rng.randint(0, 40), rng.randint(0, 120)])
    if rng.random() < .5:
        m = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)]
        for _ in range(rng.randint(0, 2)):
            i = rng.randint(0, n)
            m[i:i] = [0] * rng.choice([4, 8])
        return ("enc", [w, m])
    al = AL[w] + (b"zz" if w == 85 else b"")
    if w == 85:
        t = []
        for _ in range(n // 5):
            t += [122] if rng.random() < .2 else [rng.randint(33, 114)] + [rng.choice(AL[85]) for _ in range(4)]
    else:
        t = [rng.choice(al) for _ in range(n)]
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        i = rng.randint(0, len(t))
        if rng.random() < .6 or i == len(t):
            t.insert(i, rng.choice([61, 61, rng.randrange(256), rng.choice(al)]))
        else:
            t[i] = rng.choice([61, rng.randrange(256), 255, 0])
    if w == 85 and 122 not in t and rng.random() < .2:
        return ("fits", [w, t])
    return ("dec", [w, t])


def check(ck):
    lib = Lib()
    exe = lib.driver("coding")
    with open(ck.wd + "/MC_Coding.cfg", "w") as f:
        f.write("CONSTANT Few = {0, 77, 255}\nCONSTANT Dense = %s\n" % q("FALSE", "TRUE"))
    g = ck.explore("MC_Coding")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Coding", exe, ses, "tour")
    # texts with 'z' groups against the advertised decode length (known finding)
    ck.run_and_validate("Coding", exe, [[("fits", [85, t])] for t in ([122, 122], [122], [122, 122, 122, 33, 33, 33, 33, 34])], "lengths")
    ck.run_and_validate("Coding", exe, [[rand_cmd(rng) for _ in range(25)] for _ in range(q(250, 4000))], "random")
    # messages around and past 256 and 512 bytes
    st = []
    for n in q([255, 256, 257, 515], [255, 256, 257, 510, 511, 512, 515, 1100]):
        for w in (6, 5, 85):
            st.append([("enc", [w, [rng.randrange(256) for _ in range(n)]])])
            k = n // 5 * 5 if w == 85 else n // 8 * 8
            st.append([("dec", [w, [rng.choice(AL[w][:70]) for _ in range(k)]])])
    ck.run_and_validate("Coding", exe, st, "stretch")
