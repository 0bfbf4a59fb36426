from vf import *


def rand_session(rng, n, nodes):
    """Random calls with a mirror of who is linked where (the mirror only picks valid arguments)."""
    ses = [("new", [nodes])]
    h = {1: [], 2: []}
    poison = set()

    def where(x):
        return 1 if x in h[1] else 2
    for _ in range(n):
        linked = h[1] + h[2]
        free = [x for x in range(1, nodes + 1) if x not in linked]
        anchors = [[0, 1], [0, 2]] + [[1, x] for x in linked]
        o = rng.choice(["add"] * 4 + ["addprev"] * 4 + ["del", "delinit", "delpoison", "readd", "replace", "replaceinit", "move", "moveprev", "swap", "swap",
                        "splice", "spliceinit", "spliceprev", "splicetailinit", "walk", "walk", "walk", "walk", "query", "query", "ends"])
        if o in ("add", "addprev") and free:
            a, x = rng.choice(anchors), rng.choice(free)
            k = a[1] if a[0] == 0 else where(a[1])
            if a[0] == 0:
                p = 0 if o == "add" else len(h[k])
            else:
                p = h[k].index(a[1]) + (1 if o == "add" else 0)
            h[k].insert(p, x)
            poison.discard(x)
            ses.append((o, [a, x]))
        elif o in ("del", "delinit") and linked:
            x = rng.choice(linked)
            h[where(x)].remove(x)
            if o == "del":
                poison.add(x)
            ses.append((o, [x]))
        elif o == "delpoison" and poison:
            ses.append(("del", [rng.choice(sorted(poison))]))
        elif o in ("readd", "query") and linked:
            ses.append((o, [rng.choice(linked)]))
        elif o in ("replace", "replaceinit") and linked and free:
            x, y = rng.choice(linked), rng.choice(free)
            k = where(x)
            h[k][h[k].index(x)] = y
            poison.discard(y)
            ses.append((o, [x, y]))
        elif o in ("move", "moveprev") and linked:
            x = rng.choice(linked)
            a = rng.choice([b for b in anchors if b != [1, x]])
            h[where(x)].remove(x)
            k = a[1] if a[0] == 0 else where(a[1])
            if a[0] == 0:
                p = 0 if o == "move" else len(h[k])
            else:
                p = h[k].index(a[1]) + (1 if o == "move" else 0)
            h[k].insert(p, x)
            ses.append((o, [a, x]))
        elif o == "swap" and len(linked) > 1:
            if rng.random() < 0.5 and len(h[1]) > 1:
                i = rng.randrange(len(h[1]) - 1)
                x, y = h[1][i], h[1][i + 1]
                if rng.random() < 0.5:
                    x, y = y, x
            else:
                x, y = rng.sample(linked, 2)
            for k in h:
                h[k] = [y if z == x else x if z == y else z for z in h[k]]
            ses.append((o, [x, y]))
        elif o.startswith("splice"):
            k = rng.choice([1, 2])
            src = 3 - k
            a = rng.choice([[0, k]] + [[1, x] for x in h[k]])
            prev = o in ("spliceprev", "splicetailinit")
            if a[0] == 0:
                p = len(h[k]) if prev else 0
            else:
                p = h[k].index(a[1]) + (0 if prev else 1)
            h[k][p:p] = h[src]
            h[src] = []
            ses.append((o, [a, src]))
        elif o == "walk":
            mode, rev, safe = rng.randint(0, 2), rng.randint(0, 1), rng.randint(0, 1)
            if mode and linked:
                x = rng.choice(linked)
                k = where(x)
            else:
                x, k = 0, rng.choice([1, 2])
            d = rng.randint(0, 1) if safe and rng.random() < 0.3 else 0
            q = h[k][::-1] if rev else h[k][:]
            if mode and x:
                q = q[q.index(x) + (1 if mode == 2 else 0):]
            elif mode == 1:
                q = []
            if d:
                h[k] = [z for z in h[k] if z not in q or z % 2]
            ses.append(("walk", [mode, rev, safe, k, x, d]))
        elif o == "ends":
            ses.append(("ends", [rng.choice([1, 2])]))
    return ses


def check(ck):
    lib = Lib()
    exe = lib.driver("list")
    open(os.path.join(ck.wd, "MC_List.cfg"), "w").write("CONSTANT N = %d\n" % 4)
    g = ck.explore("MC_List")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("List", exe, ses, "tour")
    ck.run_and_validate("List", exe, [rand_session(rng, 60, rng.choice([3, 5, 8, 12])) for _ in range(q(500, 8000))], "random")
    ck.run_and_validate("List", exe, [rand_session(rng, 3 * n, n) for n in q([130, 300], [130, 260, 300, 600])], "stretch")
