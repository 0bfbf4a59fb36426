from vf import *


def rand_session(rng, n):
    cell = rng.choice([1, 1, 2, 3, 4, 7, 8, 12, 16, 24, 33])
    ses = [("new", [cell])]
    ln = cap = 0
    for _ in range(n):
        r = rng.random()
        oom = rng.random() < 0.12
        big = rng.choice([1, 1, 2, 3, 5, 8, 13, 33, 40])
        if r < 0.35:
            k = rng.randint(0, big)
            if ln + k > 150:
                k = 0
            c = ("push", [k, rng.randint(0, 100)])
            ln += 0 if oom else k
        elif r < 0.55:
            k = rng.randint(0, max(1, min(big, ln + 2)))
            c = ("pop", [k])
            if k <= ln:
                ln -= k
            oom = False
        elif r < 0.65:
            c, oom = ("peek", [rng.randint(0, ln + 3)]), False
        elif r < 0.75:
            c, oom = ("data", [rng.randint(0, ln + 3)]), False
        elif r < 0.82:
            k = rng.randint(0, min(150, ln + big))
            c = ("resize", [k, rng.randint(0, 100)])
            if not oom:
                ln = k
        elif r < 0.88:
            c = ("reserve", [rng.choice([0, 1, 2, 30, 33, 64, 100])])
        elif r < 0.90:
            c, oom, ln = ("reset", []), False, 0
        elif r < 0.92:
            c, oom, ln = ("release", []), False, 0
        else:
            o = rng.choice(["hpush", "hpop", "hpeek", "hdata", "hresize", "hreserve"])
            base = rng.choice([2**64 - 1, 2**64 // cell, 2**64 // cell + 1, 2**64 // cell - 1, 2**63, 2**63 // cell + 1, 2**62, 2**63 - 1,
                               2**64 - ln, 2**64 - ln - 1, 2**64 - 32, 2**63 // cell, 2**32 + 5, (2**64 + 2**40) // cell, 2**61, 2**60])
            if base >= 2**64:
                base = 2**64 - 1
            c, oom = (o, [limbs(base)]), False
        ses.append(("oom", [c[0]] + c[1]) if oom else c)
    ses.append(("release", []))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("array")
    g = ck.explore("MC_Array")
    rng = ck.rng()
    ses, cov = tour(g, rng)
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Array", exe, ses, "tour")
    ck.run_and_validate("Array", exe, [rand_session(rng, 60) for _ in range(q(300, 4000))], "random")
    # lengths around and past 256, 512 and 1024 cells; cells of 255 to 300 bytes
    st = []
    for n in q([255, 257, 600], [255, 256, 257, 511, 513, 600, 1023, 1025, 3000]):
        for cell in (rng.choice([1, 2, 8]), rng.choice([255, 256, 257, 300])):
            st.append([("new", [cell]), ("push", [n, 3]), ("pop", [rng.randint(0, 5)]), ("push", [rng.randint(1, 40), 9]), ("data", [n // 2]), ("oom", ["resize", 2 * n + 50, 1]),
                       ("resize", [2 * n + 50, 1]), ("peek", [n + 5]), ("reserve", [n]), ("pop", [n]), ("data", [n]), ("resize", [257, 0]), ("push", [300, 5]), ("reset", []), ("push", [n, 1]), ("release", [])])
    ck.run_and_validate("Array", exe, st, "stretch")
