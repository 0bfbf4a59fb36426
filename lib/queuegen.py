from vf import *

KINDS = [("c2", 2, 0), ("c4", 4, 0), ("c8", 8, 0), ("c64", 64, 0), ("i4", 4, 0), ("i8", 8, 0), ("l2", 2, 0), ("s8", 8, 0),
         ("dc", 0, 0), ("di", 0, 0), ("ds", 0, 0), ("r8", 8, 1), ("r16", 16, 1), ("r64", 64, 1), ("r16x2", 16, 2), ("r512", 512, 2),
         ("r64x4", 64, 4), ("d1", 0, 1), ("d2", 0, 2), ("d3", 0, 3),
         ("w8", 8, 1), ("h16", 16, 2), ("x8", 8, 1), ("y16", 16, 3), ("dw", 0, 1), ("dx", 0, 2)]


def session(rng, n, ring, kind=None):
    k, size, rec = kind or rng.choice(KINDS)
    ses = [("new", [k, size, rec, ring])]
    dyn = size == 0

    def alloc():
        nonlocal size
        while True:
            r = rng.random()
            if r < 0.15:
                ses.append(("oomalloc", [rng.randint(2, 64)]))
            elif r < 0.25:
                ses.append(("alloc", [rng.randint(0, 1)]))
            elif r < 0.35:
                ses.append(("halloc", [limbs(rng.choice([2**62, 2**61, 2**40, 2**62 - 1, 2**61 + 5]))]))
            else:
                m = rng.choice([2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 33, 64, 100])
                ses.append(("alloc", [m]))
                size = 1
                while size < m:
                    size *= 2
                return
    if dyn:
        alloc()
    # a queue is exercised in phases that favour filling or draining
    val = rng.randint(0, 50)
    fill = 0.6
    mx = 255 if rec == 1 else 10**6
    for _ in range(n):
        if rng.random() < 0.1:
            fill = rng.choice([0.2, 0.5, 0.6, 0.8])
        r = rng.random()
        if r < 0.02:
            ses.append((rng.choice(["reset", "homing"]), []))
        elif dyn and r < 0.035:
            ses.append(("free", []))
            alloc()
        elif r < 0.15:
            ses.append(("peek", []) if rng.random() < 0.5 else ("outpeek", [rng.randint(0, size + 2)]))
        elif rng.random() < fill:
            if rng.random() < 0.4:
                ses.append(("put", [val % 200]))
                val += 1
            else:
                m = rng.choice([0, 1, 2, 3, rng.randint(0, size), size - rec, size, size + 1, size - 1, max(0, size // 2 - rec)])
                if size > 256 and rng.random() < 0.3:
                    m = rng.choice([255, 256, 257, 300])
                if rec == 1:
                    m = min(m, 250)
                m = max(0, m)
                ses.append(("in", [[(val + j) % 200 for j in range(m)]]))
                val += m
        else:
            if rng.random() < 0.4:
                ses.append(("get", []))
            else:
                ses.append(("out", [rng.choice([0, 1, 2, 3, rng.randint(0, size), size, size + 1])]))
    if dyn:
        ses.append(("free", []))
    return ses


def check(ck, ring):
    lib = Lib()
    exe = lib.driver("fifo", ["-DRING"] if ring else [], out="ring" if ring else "fifo")
    with open(os.path.join(ck.wd, "MC_Queue.cfg"), "w") as f:
        f.write("CONSTANT Ring = %d\n" % ring)
    g = ck.explore("MC_Queue")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(40000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Queue", exe, ses, "tour")
    rs = [session(rng, 70, ring, kd) for kd in KINDS for _ in range(q(20, 300))]
    ck.run_and_validate("Queue", exe, rs, "random")
    # the running indexes pass 2^32
    for kd, rec in (("dc", 0), ("d3", 3)):
        for z in q([1 << 20], [1 << 20, 1 << 16]):
            a = rng.randint(40, 200)
            ses = [("new", [kd, 0, rec, ring]), ("alloc", [z]), ("pump", [a])]
            for i in range(12):
                n = rng.choice([1, 20, 60])
                ses += [("in", [[(17 * i + j) % 200 for j in range(n)]]), ("put", [i]), ("out", [rng.choice([1, 30, 100])]), ("peek", []), ("get", []), ("outpeek", [9])]
            ck.run_and_validate("Queue", exe, [ses + [("free", [])]], "after 2^32 elements")
    # records and buffers longer than 2^16
    n = 65536 + rng.randint(0, 100)
    big = [("new", ["d3", 0, 3, ring]), ("alloc", [1 << 17]), ("in", [[7, 8, 9]]), ("in", [[(j * 7) % 200 for j in range(n)]]), ("in", [[1] * n]), ("in", [[5, 6]]),
           ("out", [10]), ("outpeek", [n + 5]), ("out", [n + 1]), ("get", []), ("free", [])]
    ck.run_and_validate("Queue", exe, [big], "long records")
    if not ring:
        circ = [[("circle", [h, t, z]) for h in range(z) for t in range(z)] for z in (1, 2, 4, 8, 16, 32)]
        ck.run_and_validate("Queue", exe, circ, "circle macros")
