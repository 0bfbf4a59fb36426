---- MODULE LListImpl ----
(* The lock-free list as the library implements it: one step is one access to shared memory
   (read the head, link the batch's last node, compare-and-swap the head, read a node's
   link).  `abs' is the abstract list, changed at the linearization point of each operation;
   TLC checks over every interleaving that the links spell out `abs' and that every
   operation answers what the abstract operation answers there.  A consumer overwrites the
   links of the nodes it took.  When a node is put back, one thread only pops (a
   compare-and-swap cannot see that a node left and came back). *)
EXTENDS Lib
Nodes == 1..8
Op(s, t) == s.prog[t][s.pc[t].i]
Busy(s, t) == s.pc[t].i <= Len(s.prog[t])
Start0 == [i |-> 1, l |-> "R", e |-> 0, x |-> 0]
(* inner links of the batches are written before they are published *)
Inner(prog) == LET ops == UNION {{prog[t][i] : i \in DOMAIN prog[t]} : t \in DOMAIN prog}
               IN [n \in Nodes |-> IF \E o \in ops : o[1] = "batch" /\ n \in o[2]..(o[3] - 1) THEN n + 1 ELSE -1]
RECURSIVE Chain(_, _, _)
Chain(next, n, k) == IF n = 0 THEN <<>> ELSE IF n = -1 \/ k = 0 THEN <<-1>> ELSE <<n>> \o Chain(next, next[n], k - 1)
Run(x, y) == [i \in 1..(y - x + 1) |-> x + i - 1]
Front(o) == IF o[1] = "batch" THEN Run(o[2], o[3]) ELSE <<o[2]>>
Last(o) == IF o[1] = "batch" THEN o[3] ELSE o[2]

Finish(s, t, good) == [s EXCEPT !.pc[t] = [Start0 EXCEPT !.i = s.pc[t].i + 1], !.ok = s.ok /\ good]
Go(s, t, l) == [s EXCEPT !.pc[t].l = l]
Push(s, t) ==
  LET o == Op(s, t)  p == s.pc[t]
  IN CASE p.l = "R" -> [s EXCEPT !.pc[t] = [p EXCEPT !.l = "W", !.e = s.head]]
       [] p.l = "W" -> Go([s EXCEPT !.next[Last(o)] = p.e], t, "C")
       [] p.l = "C" -> IF s.head = p.e
                       THEN Finish([s EXCEPT !.head = o[2], !.abs = Front(o) \o s.abs], t, (p.e = 0) = (s.abs = <<>>))
                       ELSE [s EXCEPT !.pc[t] = [p EXCEPT !.l = "W", !.e = s.head]]
Pop(s, t) ==
  LET p == s.pc[t]
      seen(h) == IF h = 0 THEN Finish(s, t, s.abs = <<>>) ELSE [s EXCEPT !.pc[t] = [p EXCEPT !.l = "N", !.e = h]]
  IN CASE p.l = "R" -> seen(s.head)
       [] p.l = "N" -> [s EXCEPT !.pc[t] = [p EXCEPT !.l = "C", !.x = s.next[p.e]]]
       [] p.l = "C" -> IF s.head = p.e
                       THEN Finish([s EXCEPT !.head = p.x, !.next[p.e] = -1, !.abs = Tail(s.abs)], t, s.abs # <<>> /\ Head(s.abs) = p.e)
                       ELSE seen(s.head)
Detach(s, t) ==
  LET p == s.pc[t]
  IN CASE p.l = "R" -> [s EXCEPT !.pc[t] = [p EXCEPT !.l = "C", !.e = s.head]]
       [] p.l = "C" -> IF s.head = p.e
                       THEN Finish([s EXCEPT !.head = 0, !.abs = <<>>, !.next = [n \in Nodes |-> IF Has(s.abs, n) THEN -1 ELSE s.next[n]]], t, Chain(s.next, p.e, 8) = s.abs)
                       ELSE Go(s, t, "R")
Step(s, op, a) ==
  CASE op = "prog" -> {[s |-> [k |-> "run", prog |-> a[1], head |-> 0, next |-> Inner(a[1]),
                               pc |-> [t \in DOMAIN a[1] |-> Start0], abs |-> <<>>, ok |-> TRUE], r |-> 0]}
    [] op = "step" -> LET t == a[1] + 1  o == Op(s, t)
                      IN {[s |-> IF o[1] \in {"add", "batch"} THEN Push(s, t) ELSE IF o[1] = "del" THEN Pop(s, t) ELSE Detach(s, t), r |-> 0]}
Inv(s) == s.k = "null" \/ (s.ok /\ Chain(s.next, s.head, 8) = s.abs)
====
