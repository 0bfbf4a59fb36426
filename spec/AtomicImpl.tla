---- MODULE AtomicImpl ----
(* The loops the library builds on compare-and-swap - exchange and counting up unless zero -
   at the level of single accesses, next to indivisible operations.  `abs' is the abstract
   count, changed at the linearization point; `ok' says every operation answered what the
   indivisible operation answers there.  `last' counts the releases that were told they
   were the last; there is one at most unless a thread misused the count (`bad'): counted up
   from zero unconditionally, released what was not held, or stored a value. *)
EXTENDS Lib
Op(s, t) == s.prog[t][s.pc[t].i]
Busy(s, t) == s.pc[t].i <= Len(s.prog[t])
Start0 == [i |-> 1, l |-> "R", e |-> 0]
Finish(s, t, good) == [s EXCEPT !.pc[t] = [Start0 EXCEPT !.i = s.pc[t].i + 1], !.ok = s.ok /\ good]
(* one indivisible step: count becomes v, and the answer matches *)
Atom(s, t, v, va, good) == Finish([s EXCEPT !.w = v, !.abs = va], t, good)
Go(s, t, l, e) == [s EXCEPT !.pc[t].l = l, !.pc[t].e = e]
Micro(s, t) ==
  LET o == Op(s, t)  p == s.pc[t]
  IN CASE o[1] = "rfetch_inc" -> LET x == Atom(s, t, s.w + 1, s.abs + 1, s.w = s.abs) IN [x EXCEPT !.bad = @ \/ s.w = 0]
       [] o[1] = "rfetch_dec_test" -> LET x == Atom(s, t, s.w - 1, s.abs - 1, s.w = s.abs) IN [x EXCEPT !.last = @ + B(s.w = 1), !.bad = @ \/ s.w <= 0]
       [] o[1] = "write" -> [Atom(s, t, o[2], o[2], TRUE) EXCEPT !.bad = TRUE]
       [] o[1] = "read" -> Atom(s, t, s.w, s.abs, s.w = s.abs)
       [] o[1] = "xchg" ->
            IF p.l = "R" THEN Go(s, t, "C", s.w)
            ELSE IF s.w = p.e THEN [Atom(s, t, o[2], o[2], p.e = s.abs) EXCEPT !.bad = TRUE] ELSE Go(s, t, "R", 0)
       [] o[1] = "rfetch_addnz_test" ->
            LET seen(v) == IF v = 0 THEN Finish(s, t, s.abs = 0) ELSE Go(s, t, "C", v)
            IN IF p.l = "R" THEN seen(s.w)
               ELSE IF s.w = p.e THEN Atom(s, t, s.w + o[2], s.abs + o[2], p.e = s.abs /\ s.abs # 0) ELSE seen(s.w)
Step(s, op, a) ==
  CASE op = "prog" -> {[s |-> [k |-> "run", prog |-> a[1], w |-> 1, abs |-> 1, pc |-> [t \in DOMAIN a[1] |-> Start0], ok |-> TRUE, last |-> 0, bad |-> FALSE], r |-> 0]}
    [] op = "step" -> {[s |-> Micro(s, a[1] + 1), r |-> 0]}
Inv(s) == s.k = "null" \/ (s.ok /\ s.w = s.abs /\ (s.last <= 1 \/ s.bad))
====
