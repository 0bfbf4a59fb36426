-------------------------------- MODULE Argv --------------------------------
(* Splitting a string into words: the maximal runs of characters that are no blank, tab, carriage return or newline. *)
EXTENDS Lib
Sep == {32, 9, 13, 10}
Words(t) == LET f == Fold(LAMBDA acc, c : IF c \in Sep THEN [acc EXCEPT !.in = FALSE]
                                          ELSE IF acc.in THEN [acc EXCEPT !.w[Len(acc.w)] = Append(@, c)]
                                          ELSE [w |-> Append(acc.w, <<c>>), in |-> TRUE],
                          [w |-> <<>>, in |-> FALSE], t)
            IN f.w
(* the definition: the runs [i, j) without separator that cannot be extended, in order *)
Runs(t) == {ij \in (1..Len(t)) \X (1..Len(t)) : /\ ij[1] <= ij[2] /\ \A k \in ij[1]..ij[2] : t[k] \notin Sep
                                                 /\ (ij[1] = 1 \/ t[ij[1] - 1] \in Sep) /\ (ij[2] = Len(t) \/ t[ij[2] + 1] \in Sep)}
Step(s, op, a) ==
    IF 0 \in RangeOf(a[1]) THEN {} ELSE
    CASE op = "count" -> {[s |-> [k |-> "d", t |-> a[1]], r |-> Len(Words(a[1]))]}
      [] op = "split" ->                           \* string, failing allocation, whether the count is asked for
           IF a[2] = 1 THEN {[s |-> s, r |-> <<>>]}
           ELSE {[s |-> [k |-> "d", t |-> a[1]], r |-> <<IF a[3] = 1 THEN Len(Words(a[1])) ELSE -1, Words(a[1])>>]}
      [] OTHER -> {}
Inv(s) == s.k = "null" \/ LET w == Words(s.t)  o == SortBy(Runs(s.t), LAMBDA p, q : p[1] < q[1]) IN
    w = [i \in 1..Len(o) |-> SubSeq(s.t, o[i][1], o[i][2])]
=============================================================================
