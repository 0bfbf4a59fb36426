from vf import *


def check(ck):
    lib = Lib()
    exe = lib.driver("guard")
    open(os.path.join(ck.wd, "MC_Guard.cfg"), "w").write("CONSTANT NN = %d\nCONSTANT QN = %d\n" % (q(3, 3), q(5, 7)))
    g = ck.explore("MC_Guard")
    rng = ck.rng()
    ses, cov = tour(g, rng, maxcmds=q(60000, 400000))
    ck.cov["tour_edges_covered"] = cov
    ck.run_and_validate("Guard", exe, ses, "tour")
