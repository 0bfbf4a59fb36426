"""Every allocation of every history fails once, some with all that follow: plans over component sessions."""
import c01
import c14
import c15
import c16
import c17
import c18
import c19
import c24
import c27
import c28
import c29
import c30
import c31
import queuegen
from vf import *

PLAIN = dict(oom=None, oomalloc="alloc", halloc=None, hpush=None, hpop=None, hpeek=None, hdata=None, hresize=None, hreserve=None, arm=None,
             huge=None, shlx=None)


def unarm(ses, arg=None):
    """the component generators' own failures are switched off: here the plan decides"""
    out = []
    for op, a in ses:
        if op in PLAIN:
            if op == "oom":
                op, a = a[0], a[1:]
            elif PLAIN[op] is None:
                continue
            else:
                op = PLAIN[op]
        if arg and op in arg:
            a = a[:arg[op] - 1] + [0] + a[arg[op]:]
        out.append((op, a))
    return out


# ---- per component: driver, spec name, generator of sessions ending in release, lift of observed arguments, creation calls
def g_array(rng):
    return [c for c in unarm(c01.rand_session(rng, 40))]


def g_queue(rng, ring):
    kd = [k for k in queuegen.KINDS if k[1] == 0]
    return unarm(queuegen.session(rng, 30, ring, rng.choice(kd)))


def g_btree(rng):
    return c14.fix(unarm(c14.rand_session(rng, rng.choice([30, 60, 120]), rng.choice([12, 30, 100])), dict(insert=3)))


def fixb(ses):
    """a key is certain only if no allocation failed: look only at the whole structure"""
    return [(op, [0] + a[1:] if op == "dump" else a) for op, a in ses if op not in ("next", "prev")]


def g_skip(rng):
    n = rng.choice([5, 9, 17])
    return [c for c in unarm(c15.rand_session(rng, rng.choice([20, 40]), n), dict(new=3, insert=3))]


def once(ses):
    """an element is inserted at most once, so that whatever failed or was taken the history stays valid"""
    seen, out = set(), []
    for op, a in ses:
        if op == "insert":
            if a[0] in seen:
                continue
            seen.add(a[0])
        elif op == "dump":
            a = [0] + a[1:]
        out.append((op, a))
    return out


def g_radix(rng):
    return unarm(c16.rand_session(rng, 40), dict(alloc=3, charge=3))


def g_map(rng):
    return unarm(c17.map_session(rng, rng.choice([60, 150])), dict(insert=5))[:-2] + []


def fixm(ses):
    out = []
    for op, a in ses:
        out.append((op, a[:2] + [0] if op == "del" else a))
    return out


def g_cache(rng):
    return unarm(c19.rand_session(rng, 20), dict(new=4))


def g_bloom(rng):
    return unarm(c18.rand_session(rng, 10), dict(new=4))


def g_fsm(rng):
    n, m = c24.rand_machine(rng)
    rows = m[1][6]
    for i in range(0, len(rows), 7):                     # more transitions that push
        if rows[i + 5] == 0 and rng.random() < .5:
            rows[i + 5] = 1
    ses = [m]
    for _ in range(rng.choice([20, 60])):
        ses.append(("handle", [rng.randint(1, 3), rng.randint(0, 1), rng.choice([0] * 12 + [1, 2, 3]), -77, 0]) if rng.random() < .97
                   else ("reset", [rng.randint(1, n)]))
    return ses


def g_mpi(rng):
    ses = []
    for op, a in c30.rand_session(rng, 12):
        if op not in ("arm", "shlx", "get"):
            ses.append((op, a))
            if op not in ("live", "btest", "cmp", "cmpi"):
                ses += [("get", [i]) for i in (1, 2, 3, 4)]
    if rng.random() < .5:                                # more words than a fresh number has room for
        end = ses.pop()
        d, e = rng.sample([1, 2, 3, 4], 2)
        for c in [c30.imp(rng, d, rng.getrandbits(70) + 1), ("shl", [d, d, 64 * rng.choice([31, 32, 40])]),
                  rng.choice([("set", [e, d]), ("add", [e, d, d]), ("or", [e, e, d]), ("addi", [e, d, c30.dig(5, 8)]), ("sub", [e, e, d])])]:
            ses += [c] + [("get", [i]) for i in (1, 2, 3, 4)]
        ses.append(end)
    return ses


def g_matrix(rng):
    top = rng.choice([1, 2, 3])
    first = [("import", [d, top, top, c31.cells(rng, top * top)]) for d in (1, 2, 3)]      # every register holds something
    ses = first + [c for c in c31.rand_session(rng, 12) if c[0] != "arm"]
    end, n = ses.pop(), rng.choice([6, 7])               # a result larger than what the destination has room for
    ses += [("import", [1, n, 1, c31.cells(rng, n)]), ("import", [2, 1, n, c31.cells(rng, n)])]
    ses += [rng.choice([("mul", [3, 1, 2]), ("mul", [1, 1, 2]), ("mul", [2, 1, 2])]), ("data", [3, 0, 0])]
    return ses + [rng.choice([("trans", [1, 3]), ("set", [2, 3]), ("add", [1, 3, 3]), ("sub", [3, 3, 3])]), ("data", [3, 1, 1]), end]


def g_text(rng):
    return [("dup", [[rng.randint(1, 255) for _ in range(rng.choice([0, 1, 5, 30]))], rng.choice([-1, -1, -2, 0, 3, 100])]) for _ in range(4)]


def g_bitmap(rng):
    return [("init", [[], [1], [2], [3]])] + [(rng.choice(["alloc", "zalloc"]), [rng.choice([1, 63, 64, 65, 500])]) for _ in range(4)]


def g_argv(rng):
    return [c29.rand_cmd(rng) for _ in range(4)]


def g_lev(rng):
    return [c28.rand_cmd(rng) for _ in range(4)]


def g_ts(rng):
    return c27.rand_session(rng, 4)


def noarg(ses, table):
    return [(op, a[:table[op] - 1] + [0] + a[table[op]:]) if op in table else (op, a) for op, a in ses]


IDENT = (lambda s: s)
COMPS = [
    ("array", "array", [], g_array, None, IDENT, ()),
    ("queue", "fifo", [], lambda r: g_queue(r, 0), None, IDENT, ("alloc",)),
    ("queue", "ring", ["-DRING"], lambda r: g_queue(r, 1), None, IDENT, ("alloc",)),
    ("btree", "btree", [], g_btree, c14.lift, fixb, ()),
    ("skiplist", "skiplist", [], g_skip, c15.lift, once, ("new",)),
    ("radix", "radix", [], g_radix, None, IDENT, ()),
    ("hashmap", "hashmap", [], g_map, None, fixm, ()),
    ("cache", "cache", [], g_cache, None, IDENT, ("new",)),
    ("bloom", "bloom", [], g_bloom, c18.lift, IDENT, ("new",)),
    ("fsm", "fsm", [], g_fsm, None, IDENT, ()),
    ("mpi", "mpi", [], g_mpi, c30.lift, IDENT, ()),
    ("matrix", "matrix", [], g_matrix, None, IDENT, 3),
    ("argv", "argv", [], g_argv, None, lambda s: noarg(s, dict(split=2)), ()),
    ("levenshtein", "levenshtein", [], g_lev, None, lambda s: noarg(s, dict(dist=4)), ()),
    ("textsearch", "textsearch", [], g_ts, None, lambda s: noarg(s, dict(create=4)), ("create",)),
    ("text", "text", [], g_text, None, IDENT, ()),
    ("bitmap", "bitmap", [], g_bitmap, None, IDENT, ()),
]


def wrap(lift):
    """[result, allocations, failures] of a planned call becomes a "do" event of Fault; undo turns it back into the command"""
    def f(trace):
        out = []
        for ev in trace:
            op, a, r = ev
            if op in ("plan", "do") or has_crash(ev):
                out.append(ev)
                continue
            o, b, x = (lift([[op, a, r[0]]]) if lift else [[op, a, r[0]]])[0]
            out.append(["do", [o, b, r[1], r[2]], x])
        return out
    return f


def observed(comp):
    """how many arguments the driver takes for calls whose observations were added to the arguments"""
    keep = dict(btree=dict(dump=1), skiplist=dict(reset=0, destroy=0, dump=2), bloom=dict(push=1, peek=1), mpi=dict(get=1))
    return keep.get(comp, {})


def undoer(comp):
    tab = observed(comp)

    def undo(pre):
        out = []
        for op, a in pre:
            if op == "do":
                op, a = a[0], a[1]
                if op in tab:
                    a = a[:tab[op]]
            out.append((op, a))
        return out
    return undo


def expand(rng, comp, ses, create, counts, budget):
    """the plans of one session; counts[i]: allocations made by command i of the session without failures"""
    total = sum(counts)
    if not total:
        return []
    pts = list(range(1, total + 1))
    if len(pts) > budget:
        pts = sorted(rng.sample(pts, budget))
    out = []
    at = [i for i, c in enumerate(counts) for _ in range(c)]
    needed = (lambda i: i < create) if isinstance(create, int) else lambda i: ses[i][0] in create
    for n in pts:
        i = at[n - 1]
        for w in [1] + ([rng.choice([2, 3])] if rng.random() < .3 else []) + ([1000000] if rng.random() < .4 else []):
            s = list(ses)
            if w == 1:
                if needed(i):                         # the creation itself fails: try again, memory is back
                    s.insert(i, s[i])
            else:                                     # nothing works without the object
                later = [j for j in range(i, len(s)) if needed(j)]
                if later:
                    s = s[:later[0] + (later[0] == i)]
            out.append([("plan", [comp, n, w])] + s)
    return out


def check(ck):
    lib = Lib()
    with open(ck.wd + "/MC_Fault.cfg", "w") as f:
        f.write("CONSTANT NMax = %d\nCONSTANT Ws = %s\n" % (q(2, 3), q("{1, 9}", "{1, 2, 9}")))
    g = ck.explore("MC_Fault")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(30000, 150000))
    ck.cov["tour_edges_covered"] = cov
    by = {}
    for s in ses:
        if s[0][1][0] != "queue":                     # a queue without memory cannot be used
            by.setdefault(s[0][1][0], []).append(s[:1] + [(a[0], a[1]) for op, a in s[1:]])
    for comp, drv, extra, gen, lift, fix, create in COMPS:
        exe = lib.driver("fifo" if drv == "ring" else drv, extra, out="f37_" + drv)
        runs = by.get(comp, []) if drv != "ring" else []
        pts = tries = 0
        while pts < q(150, 2500) and tries < 12:         # some components allocate seldom
            tries += 1
            base = [fix(gen(rng)) for _ in range(q(12, 100))]
            # one run without failures counts the allocations
            tr = pexecute(exe, [[("plan", [comp, 0, 0])] + s for s in base])
            for s, t in zip(base, tr):
                cnt = [ev[2][1] if not has_crash(ev) else 0 for ev in t[1:]]
                x = expand(rng, comp, s, create, cnt, q(25, 120))
                pts += len(x)
                runs += x + [[("plan", [comp, 0, 0])] + s]
        ck.cov.setdefault("plans", {})[drv] = pts
        ck.run_and_validate("Fault", exe, runs, drv, transform=wrap(lift), undo=undoer(comp))
