---- MODULE Conc ----
(* Linearizability of a concurrent object against its sequential definition
   Apply(o, op, a) = set of [o |-> next object, r |-> result].  A history is a sequence of
   calls and returns; a call takes effect at one point between its call and its return.
   State: the object and, per thread, its operation: idle, open (called, not yet in
   effect) or done (in effect, not yet returned). *)
EXTENDS Lib
CONSTANT Apply(_, _, _)

Idle == [st |-> "idle", op |-> "", a |-> <<>>, r |-> <<>>]
Fresh(o, n) == [k |-> "conc", o |-> o, p |-> [t \in 1..n |-> Idle]]
Call(s, t, op, a) == {[s |-> [s EXCEPT !.p[t] = [st |-> "open", op |-> op, a |-> a, r |-> <<>>]], r |-> 0]}
(* thread u's operation takes effect now *)
Effect(s, u) == {[s EXCEPT !.o = x.o, !.p[u] = [s.p[u] EXCEPT !.st = "done", !.r = x.r]] : x \in Apply(s.o, s.p[u].op, s.p[u].a)}
(* t's operation is in effect, other open ones may have taken effect before it *)
RECURSIVE InEffect(_, _)
InEffect(s, t) ==
  IF s.p[t].st = "done" THEN {s}
  ELSE Effect(s, t) \cup UNION {UNION {InEffect(x, t) : x \in Effect(s, u)} : u \in {v \in DOMAIN s.p : v # t /\ s.p[v].st = "open"}}
Return(s, t) == {[s |-> [x EXCEPT !.p[t] = Idle], r |-> x.p[t].r] : x \in InEffect(s, t)}
ConcStep(s, op, a) ==
  CASE op = "call" -> Call(s, a[1] + 1, a[2], a[3])
    [] op = "ret" -> Return(s, a[1] + 1)
    [] OTHER -> {}
AllIdle(s) == \A t \in DOMAIN s.p : s.p[t].st = "idle"
====
