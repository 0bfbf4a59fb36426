from vf import *
from conc import *

CODES = dict(add=1, batch=2, destroy=4, readd=5)
CODES["del"] = 3


def event(code, a, b):
    if code == 1:
        return "add", [a]
    if code == 2:
        return "batch", [a, b]
    if code == 5:
        return ("add", [a]) if a else ("skip", [])
    return ("del" if code == 3 else "destroy"), []


def programs(rng, threads, ops):
    """Random programs: either any thread takes nodes off and none comes back, or one thread takes and puts back."""
    node = iter(range(1, 31))
    popper = rng.randrange(threads)
    many = rng.random() < .5
    prog = []
    for t in range(threads):
        th = []
        for _ in range(rng.randint(1, ops)):
            kinds = ["add", "add", "batch"]
            if many:
                kinds += ["destroy", "del", "del"]
            elif t == popper:
                kinds = ["add", "del", "del", "del", "readd", "readd", "destroy"]
            k = rng.choice(kinds)
            if k == "add":
                th.append((k, next(node), 0))
            elif k == "batch":
                n = next(node)
                m = next(node)
                th.append((k, n, m))
            elif k == "readd":
                if th and th[-1][0] == "del":
                    th.append((k, 0, 0))
                else:
                    th.append(("del", 0, 0))
            else:
                th.append((k, 0, 0))
        prog.append(th)
    return prog


def check(ck):
    with open(ck.wd + "/MC_LListImpl.cfg", "w") as f:
        f.write("CONSTANT Big = %s\n" % q("FALSE", "TRUE"))
    g = ck.explore("MC_LListImpl")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 200000))
    ck.cov["tour_edges_covered"] = cov
    lib = Lib(san=False)
    model = [([[tuple(o) for o in th] for th in s[0][1][0]], "run", [[c[1][0] for c in s[1:]]]) for s in ses]
    progs = []
    for s in ses:
        if s[0][1][0] not in progs:
            progs.append(s[0][1][0])
    limit = q(400000, 8000000)
    small = [([[tuple(o) for o in th] for th in p], "all", [limit]) for p in progs]
    for k in range(q(60, 400)):
        small.append((programs(rng, rng.choice([2, 2, 3]), 2), "all", [limit]))
    wide = [(programs(rng, rng.choice([2, 3, 4]), rng.randint(2, 5)), "rand", [q(60, 150), rng.randrange(1 << 30)]) for _ in range(q(200, 3000))]
    for opt in ("-O2", "-O1"):
        exe = lib.conc("llist", ["src/llist.c"], opt)
        check_programs(ck, "LList", exe, model, CODES, event, "schedules of the model " + opt)
        check_programs(ck, "LList", exe, small, CODES, event, "every interleaving " + opt)
        check_programs(ck, "LList", exe, wide, CODES, event, "random interleavings " + opt)
