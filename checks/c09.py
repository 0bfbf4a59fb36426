from vf import *
from conc import *

WORD = ["add", "sub", "and", "or", "xor"]
OPS = (["read", "write"] + WORD + ["fetch_" + x for x in WORD] + [x + "_fetch" for x in WORD] + ["xchg", "cmpxchg", "try_cmpxchg"]
       + ["bset", "bclr", "bflip", "btest", "btest_set", "btest_clr", "btest_flip", "bchange", "btest_change", "rget", "rset"]
       + ["radd", "rinc", "rfetch_add", "rfetch_inc"]
       + ["rsub", "rdec", "rsub_test", "rdec_test", "rfetch_sub", "rfetch_dec", "rfetch_sub_test", "rfetch_dec_test"]
       + ["raddnz", "rincnz", "raddnz_test", "rincnz_test", "rfetch_addnz", "rfetch_incnz", "rfetch_addnz_test", "rfetch_incnz_test"])
CODES = {x: k + 1 for k, x in enumerate(OPS)}
BITS = [x for x in OPS if x[0] == "b"]
COUNT = [x for x in OPS if x[0] == "r" and x not in ("read", "rget", "rset")]


def event(code, a, b):
    op = OPS[code - 1]
    if op in BITS:
        return op, [a, b]
    return op, [limbs(a % (1 << 64)), limbs(b % (1 << 64))]


def programs(rng, threads, ops, big=False):
    """One mode per program, so that operations meet: counting, word arithmetic, exchanges, bits, anything."""
    mode = rng.choice(["count", "count", "word", "xchg", "bits", "any"])
    top = (1 << 63) - 1

    def num():
        if not big and rng.random() < .8:
            return rng.randint(0, 4)
        return rng.choice([0, 1, -1, top, -top - 1, top - 1, rng.getrandbits(64) - top - 1, rng.getrandbits(16), 1 << rng.randrange(63)])
    nbit = [rng.randrange(128) for _ in range(rng.choice([1, 2, 4]))]

    def one():
        if mode == "count":
            op = rng.choice(COUNT + COUNT + ["rset", "rget"])
        elif mode == "word":
            op = rng.choice([x for x in OPS if x not in BITS and x not in COUNT])
        elif mode == "xchg":
            op = rng.choice(["xchg", "xchg", "cmpxchg", "try_cmpxchg", "fetch_add", "rfetch_addnz_test"])
        elif mode == "bits":
            op = rng.choice(BITS)
        else:
            op = rng.choice(OPS)
        if op in BITS:
            return (op, rng.choice(nbit), rng.randint(0, 1))
        if op in COUNT:
            return (op, rng.choice([1, 1, 2, 3] + ([rng.getrandbits(62) + 1, top] if big else [])), 0)
        return (op, num(), num())
    return [[one() for _ in range(rng.randint(1, ops))] for _ in range(threads)]


def check(ck):
    with open(ck.wd + "/MC_AtomicImpl.cfg", "w") as f:
        f.write("CONSTANT Big = %s\n" % q("FALSE", "TRUE"))
    g = ck.explore("MC_AtomicImpl")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 200000))
    ck.cov["tour_edges_covered"] = cov
    lib = Lib(san=False)
    model = [([[tuple(o) for o in th] for th in s[0][1][0]], "run", [[c[1][0] for c in s[1:]]]) for s in ses]
    progs = []
    for s in ses:
        if s[0][1][0] not in progs:
            progs.append(s[0][1][0])
    limit = q(100000, 4000000)
    small = [([[tuple(o) for o in th] for th in p], "all", [limit]) for p in progs]
    small += [(programs(rng, rng.choice([2, 2, 3]), 2), "all", [limit]) for _ in range(q(250, 1500))]
    wide = [(programs(rng, rng.choice([2, 3, 4]), rng.randint(2, 5)), "rand", [q(40, 150), rng.randrange(1 << 30)]) for _ in range(q(150, 2000))]
    single = [(programs(rng, 1, 16, True), "run", [[]]) for _ in range(q(1200, 12000))]
    pair = [(programs(rng, 2, 3, True), "rand", [q(10, 40), rng.randrange(1 << 30)]) for _ in range(q(150, 2000))]
    for opt in ("-O2", "-O1"):
        exe = lib.conc("atomic", [], opt)
        for label, cmds in (("schedules of the model", model), ("every interleaving", small), ("random interleavings", wide),
                            ("one thread, any value", single), ("two threads, any value", pair)):
            check_programs(ck, "Atomic", exe, cmds, CODES, event, label + " " + opt)
