------------------------------- MODULE SegTree -------------------------------
(* Segment (interval) tree (include/bfdev/segtree.h): q lists the stored intervals in order of start (equal starts in
   order of insertion). A query <<lo, hi>> reports exactly the stored intervals with start <= hi and lo <= end.     *)
EXTENDS TreeLib

Nodes(s) == 1..Len(s.iv)
In(s, n) == Has(s.q, n)
Res(s, ret) == {[s |-> s, r |-> ret]}
New(type, scale, iv) == Res([k |-> "seg", type |-> type, iv |-> iv, q |-> <<>>], <<>>)
Rank(s, n) == Cardinality({i \in 1..Len(s.q) : s.iv[s.q[i]][1] <= s.iv[n][1]})
Insert(s, n) == Res([s EXCEPT !.q = InsertAt0(@, Rank(s, n), n)], <<>>)
Delete(s, n) == Res([s EXCEPT !.q = Without(@, n)], <<>>)
Hits(s, lo, hi) == SelectSeq(s.q, LAMBDA n : s.iv[n][1] <= hi /\ lo <= s.iv[n][2])
Query(s, lo, hi) == Res(s, Hits(s, lo, hi))
(* continue an iteration after the node x, which is one of the hits *)
Resume(s, lo, hi, x) ==
    LET h == Hits(s, lo, hi) IN Res(s, IF Has(h, x) THEN Drop(h, Pos(h, x)) ELSE <<>>)
Dump(s, d) ==
    LET ok == IF d = <<>> THEN s.q = <<>>
              ELSE LET m == NodeMap(d) IN RBOk(d) /\ InO(m, d[1][1]) = s.q /\ Mx([n \in Nodes(s) |-> s.iv[n][2]], m, d[1][1]) >= 0
    IN IF ok THEN Res(s, <<IF s.q = <<>> THEN 0 ELSE s.q[1]>>) ELSE {}
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[3])
      [] op = "insert" -> Insert(s, a[1])
      [] op = "delete" -> Delete(s, a[1])
      [] op = "query" -> Query(s, a[1], a[2])
      [] op = "resume" -> Resume(s, a[1], a[2], a[3])
      [] op = "dump" -> IF Len(a) = 1 THEN Res(s, <<>>) ELSE Dump(s, a[2])
Inv(s) == s.k = "seg" => \A i \in 1..(Len(s.q) - 1) : s.iv[s.q[i]][1] <= s.iv[s.q[i + 1]][1]
=============================================================================
