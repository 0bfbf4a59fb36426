-------------------------------- MODULE IList --------------------------------
(* Index list (include/bfdev/ilist.h, src/ilist.c): nodes ordered by the caller's comparison, equals in insertion
   order; the first node of each group of equals heads the group and the heads form the index ring.              *)
EXTENDS Lib

Nodes(s) == 1..Len(s.prio)
Key(s, n) == IF s.desc = 1 THEN -s.prio[n] ELSE s.prio[n]
In(s, n) == Has(s.q, n)
Heads(s) ==
    LET I == SelectSeq([i \in 1..Len(s.q) |-> i], LAMBDA i : i = 1 \/ s.prio[s.q[i]] # s.prio[s.q[i - 1]])
    IN [j \in 1..Len(I) |-> s.q[I[j]]]
NodeEmpty(s) == LET h == RangeOf(Heads(s)) IN [n \in Nodes(s) |-> B(~(n \in h /\ Cardinality(h) > 1))]
Ends(s) == IF s.q = <<>> THEN <<0, 0>> ELSE <<s.q[1], s.q[Len(s.q)]>>
(* forward order, backward order, ring of heads, per-node "index list empty", first/last, head empty *)
Proj(s) == <<s.q, Rev(s.q), Heads(s), Rev(Heads(s)), NodeEmpty(s), Ends(s), B(s.q = <<>>)>>
Res(s, ret) == {[s |-> s, r |-> <<ret>> \o Proj(s)]}
New(desc, prio) == Res([k |-> "ilist", desc |-> desc, prio |-> prio, q |-> <<>>], <<0>>)
Rank(s, n) == Cardinality({i \in 1..Len(s.q) : Key(s, s.q[i]) <= Key(s, n)})
Add(s, n) == IF In(s, n) THEN Res(s, <<0>>) ELSE Res([s EXCEPT !.q = InsertAt0(@, Rank(s, n), n)], <<0>>)
Del(s, n) == Res([s EXCEPT !.q = Without(@, n)], <<0>>)
(* walk: mode 0 whole, 1 from n, 2 continue after n; del: remove every visited even node on the way *)
Visit(s, mode, rev, n) ==
    LET w == IF rev = 1 THEN Rev(s.q) ELSE s.q
    IN IF mode = 0 THEN w ELSE Drop(w, Pos(w, n) - (IF mode = 1 THEN 1 ELSE 0))
Walk(s, mode, rev, safe, n, del) ==
    LET v == Visit(s, mode, rev, n)
        gone == IF del = 1 THEN {x \in RangeOf(v) : x % 2 = 0} ELSE {}
    IN Res([s EXCEPT !.q = SelectSeq(@, LAMBDA x : x \notin gone)], v)
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2])
      [] op = "add" -> Add(s, a[1])
      [] op = "del" -> Del(s, a[1])
      [] op = "walk" -> Walk(s, a[1], a[2], a[3], a[4], a[5])
Inv(s) == s.k = "ilist" =>
    /\ \A i \in 1..(Len(s.q) - 1) : Key(s, s.q[i]) <= Key(s, s.q[i + 1])
    /\ \A n \in Nodes(s) : CountIn(s.q, n) <= 1
    /\ Len(Heads(s)) = Cardinality({s.prio[n] : n \in RangeOf(s.q)})
=============================================================================
