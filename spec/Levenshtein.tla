----------------------------- MODULE Levenshtein -----------------------------
(* Weighted edit distance between two byte strings x and y: the least total cost of turning x into y with          *)
(* substitutions (s), swaps of two adjacent characters (w), additions (a) and deletions (d), every character being *)
(* part of at most one edit.  Dist computes it row by row; Def is its definition, checked equal by the model.      *)
EXTENDS Lib
Min4(p, q, r, t) == Min2(Min2(p, q), Min2(r, t))
Row0(n, d) == [i \in 1..(n + 1) |-> (i - 1) * d]
(* after j characters of y: old and cur are the rows of j - 1 and j characters *)
NextRow(x, y, j, old, cur, wt) ==
    Fold(LAMBDA row, i :
           Append(row, Min4(cur[i] + (IF x[i] = y[j] THEN 0 ELSE wt.s),
                            cur[i + 1] + wt.a,
                            row[i] + wt.d,
                            IF i > 1 /\ j > 1 /\ x[i] = y[j - 1] /\ x[i - 1] = y[j] THEN old[i - 1] + wt.w ELSE row[i] + wt.d)),
         <<j * wt.a>>, [i \in 1..Len(x) |-> i])
Dist(x, y, wt) ==
    LET f == Fold(LAMBDA acc, j : [old |-> acc.cur, cur |-> NextRow(x, y, j, acc.old, acc.cur, wt)],
                  [old |-> <<>>, cur |-> Row0(Len(x), wt.d)], [j \in 1..Len(y) |-> j])
    IN f.cur[Len(x) + 1]
RECURSIVE Def(_, _, _)
Def(x, y, wt) ==
    LET n == Len(x)  m == Len(y)
        S == (IF n > 0 /\ m > 0 THEN {Def(SubSeq(x, 1, n - 1), SubSeq(y, 1, m - 1), wt) + (IF x[n] = y[m] THEN 0 ELSE wt.s)} ELSE {})
             \cup (IF n > 0 THEN {Def(SubSeq(x, 1, n - 1), y, wt) + wt.d} ELSE {})
             \cup (IF m > 0 THEN {Def(x, SubSeq(y, 1, m - 1), wt) + wt.a} ELSE {})
             \cup (IF n > 1 /\ m > 1 /\ x[n] = y[m - 1] /\ x[n - 1] = y[m] THEN {Def(SubSeq(x, 1, n - 2), SubSeq(y, 1, m - 2), wt) + wt.w} ELSE {})
    IN IF S = {} THEN 0 ELSE MinSet(S)
Wt(q) == [s |-> q[1], w |-> q[2], a |-> q[3], d |-> q[4]]
(* the last distance is kept so that the model has states to relate *)
Step(s, op, a) ==
    CASE op = "dist" ->                 \* x, y, weights, failing allocation (empty strings need no memory)
           IF a[4] = 1 /\ a[1] # <<>> /\ a[2] # <<>> THEN {[s |-> s, r |-> -1]}
           ELSE {[s |-> [k |-> "d", x |-> a[1], y |-> a[2], w |-> a[3]], r |-> Dist(a[1], a[2], Wt(a[3]))]}
      [] OTHER -> {}
Inv(s) == s.k = "null" \/
    LET wt == Wt(s.w)  D == Dist(s.x, s.y, wt) IN
    /\ (Len(s.x) + Len(s.y) <= 8) => D = Def(s.x, s.y, wt)
    /\ s.x = s.y => D = 0
    /\ D <= Len(s.x) * wt.d + Len(s.y) * wt.a
    /\ Dist(s.y, s.x, [wt EXCEPT !.a = wt.d, !.d = wt.a]) = D
=============================================================================
