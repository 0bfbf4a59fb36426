---- MODULE LList ----
(* Lock-free list, as a concurrent stack of distinct nodes.  The object is the list of nodes
   from the front; an operation is atomic in the sense of Conc.  A node not in the list
   belongs to the thread that has it. *)
EXTENDS Lib
Run(x, y) == [i \in 1..(y - x + 1) |-> x + i - 1]
ApplyList(o, op, a) ==
  CASE op = "add" -> {[o |-> <<a[1]>> \o o, r |-> <<B(o = <<>>)>>]}
    [] op = "batch" -> {[o |-> Run(a[1], a[2]) \o o, r |-> <<B(o = <<>>)>>]}
    [] op = "del" -> {IF o = <<>> THEN [o |-> o, r |-> <<0>>] ELSE [o |-> Tail(o), r |-> <<Head(o)>>]}
    [] op = "destroy" -> {[o |-> <<>>, r |-> o]}
    [] op = "skip" -> {[o |-> o, r |-> <<-1>>]}
LC == INSTANCE Conc WITH Apply <- ApplyList
Step(s, op, a) ==
  IF op = "start" THEN {[s |-> LC!Fresh(<<>>, a[1]), r |-> 0]}
  ELSE IF op = "end" THEN (IF LC!AllIdle(s) THEN {[s |-> s, r |-> s.o]} ELSE {})
  ELSE LC!ConcStep(s, op, a)
Inv(s) == s.k = "null" \/ \A i, j \in DOMAIN s.o : i # j => s.o[i] # s.o[j]
====
