from vf import *


def rand_session(rng, n, nodes):
    kd = rng.choice("hhs")
    ses = [("new", [kd, nodes])]
    h = {1: [], 2: []}
    poison = set()
    for _ in range(n):
        linked = h[1] + h[2]
        free = [x for x in range(1, nodes + 1) if x not in linked]

        def where(x):
            return 1 if x in h[1] else 2
        o = rng.choice(["headadd"] * 3 + ["nextadd"] * 3 + ["prevadd"] * 3 + ["del"] * 3 + ["delinit", "delpoison", "readd", "replace", "replace", "headreplace",
                        "walk", "walk", "walk", "query", "query"])
        if kd == "s" and o in ("prevadd", "delinit", "headreplace"):
            continue
        if o == "headadd" and free:
            k, x = rng.choice([1, 2]), rng.choice(free)
            h[k].insert(0, x)
            poison.discard(x)
            ses.append((o, [k, x]))
        elif o in ("nextadd", "prevadd") and free and linked:
            y, x = rng.choice(linked), rng.choice(free)
            k = where(y)
            h[k].insert(h[k].index(y) + (o == "nextadd"), x)
            poison.discard(x)
            ses.append((o, [y, x]))
        elif o in ("del", "delinit") and linked:
            x = rng.choice(linked)
            h[where(x)].remove(x)
            if o == "del":
                poison.add(x)
            ses.append((o, [x]))
        elif o == "delpoison" and poison:
            ses.append(("del", [rng.choice(sorted(poison))]))
        elif o == "readd" and linked:
            ses.append((o, [rng.choice(linked)]))
        elif o == "replace" and linked and free:
            x, y = rng.choice(linked), rng.choice(free)
            k = where(x)
            h[k][h[k].index(x)] = y
            poison.discard(y)
            ses.append((o, [x, y]))
        elif o == "headreplace":
            k = [k for k in (1, 2) if not h[3 - k]]
            if k:
                k = rng.choice(k)
                h[3 - k], h[k] = h[k], []
                ses.append((o, [k]))
        elif o == "walk":
            mode, safe = rng.randint(0, 2), rng.randint(0, 1)
            if mode and linked:
                x = rng.choice(linked)
                k = where(x)
            else:
                mode, x, k = 0, 0, rng.choice([1, 2])
            d = int(safe and rng.random() < 0.3)
            v = h[k][(h[k].index(x) + (mode == 2)) if mode else 0:]
            if d:
                gone = [z for z in v if z % 2 == 0]
                poison |= set(gone)
                h[k] = [z for z in h[k] if z not in gone]
            ses.append((o, [mode, safe, k, x, d]))
        elif o == "query":
            ses.append((o, [rng.randint(1, nodes)]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("slist")
    open(os.path.join(ck.wd, "MC_SList.cfg"), "w").write("CONSTANT N = 4\n")
    g = ck.explore("MC_SList")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("SList", exe, ses, "tour")
    ck.run_and_validate("SList", exe, [rand_session(rng, 70, rng.choice([3, 5, 8, 12])) for _ in range(q(500, 8000))], "random")
    ck.run_and_validate("SList", exe, [rand_session(rng, 3 * n, n) for n in q([130, 300, 300], [130, 260, 300, 300, 600])], "stretch")
