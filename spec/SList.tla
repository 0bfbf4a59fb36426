-------------------------------- MODULE SList --------------------------------
(* Hash list (include/bfdev/hlist.h, kind "h") and singly linked list (include/bfdev/slist.h, kind "s"):
   two heads, each an ordinary sequence of nodes. A free node is poisoned (after del: deleting it again is refused)
   or initialised.                                                                                                *)
EXTENDS Lib

Heads == 1..2
InList(s, n) == \E h \in Heads : Has(s.h[h], n)
HeadOf(s, n) == CHOOSE h \in Heads : Has(s.h[h], n)
Nodes(s) == 1..s.n
FreeN(s) == {n \in Nodes(s) : ~InList(s, n)}
Res(s, ret) == {[s |-> s, r |-> <<ret, s.h[1], s.h[2], <<B(s.h[1] = <<>>), B(s.h[2] = <<>>)>>>>]}
Put(s, h, q) == [s EXCEPT !.h[h] = q]
New(kind, n) == Res([k |-> "slist", kind |-> kind, n |-> n, h |-> <<<<>>, <<>>>>, poison |-> {}], <<0>>)
Ins(s, h, p, n) == [Put(s, h, InsertAt0(s.h[h], p, n)) EXCEPT !.poison = @ \ {n}]
HeadAdd(s, h, n) == Res(Ins(s, h, 0, n), <<0>>)
NextAdd(s, x, n) == LET h == HeadOf(s, x) IN Res(Ins(s, h, Pos(s.h[h], x), n), <<0>>)
PrevAdd(s, x, n) == LET h == HeadOf(s, x) IN Res(Ins(s, h, Pos(s.h[h], x) - 1, n), <<0>>)
Rm(s, n) == LET h == HeadOf(s, n) IN Put(s, h, Without(s.h[h], n))
Del(s, n) == IF InList(s, n) THEN Res([Rm(s, n) EXCEPT !.poison = @ \cup {n}], <<0>>) ELSE Res(s, <<0>>)
DelInit(s, n) == Res(Rm(s, n), <<0>>)
Replace(s, o, n) == LET h == HeadOf(s, o) IN
    Res([Put(s, h, [i \in 1..Len(s.h[h]) |-> IF s.h[h][i] = o THEN n ELSE s.h[h][i]]) EXCEPT !.poison = @ \ {n, o}], <<0>>)
HeadReplace(s, h) == Res(Put(Put(s, 3 - h, s.h[h]), h, <<>>), <<0>>)      \* move everything to the other, empty head
Query(s, n) ==
    IF InList(s, n) THEN LET q == s.h[HeadOf(s, n)] IN Res(s, <<B(q[1] = n), B(q[Len(q)] = n), B(q = <<n>>), 0>>)
    ELSE Res(s, <<0, 0, 0, B(n \notin s.poison)>>)
Visit(s, mode, h, n) ==
    IF mode = 0 THEN s.h[h] ELSE IF n = 0 THEN <<>> ELSE Drop(s.h[h], Pos(s.h[h], n) - (IF mode = 1 THEN 1 ELSE 0))
Walk(s, mode, safe, h, n, del) ==
    LET v == Visit(s, mode, h, n)
        gone == IF del = 1 THEN {x \in RangeOf(v) : x % 2 = 0} ELSE {}
    IN Res([Put(s, h, SelectSeq(s.h[h], LAMBDA x : x \notin gone)) EXCEPT !.poison = @ \cup gone], v)
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2])
      [] op = "headadd" -> HeadAdd(s, a[1], a[2])
      [] op = "nextadd" -> NextAdd(s, a[1], a[2])
      [] op = "prevadd" -> PrevAdd(s, a[1], a[2])
      [] op = "readd" -> Res(s, <<0>>)                    \* adding a node where it already is: refused
      [] op = "del" -> Del(s, a[1])
      [] op = "delinit" -> DelInit(s, a[1])
      [] op = "replace" -> Replace(s, a[1], a[2])
      [] op = "headreplace" -> HeadReplace(s, a[1])
      [] op = "query" -> Query(s, a[1])
      [] op = "walk" -> Walk(s, a[1], a[2], a[3], a[4], a[5])
Inv(s) == s.k = "slist" =>
    /\ \A n \in Nodes(s) : CountIn(s.h[1], n) + CountIn(s.h[2], n) <= 1
    /\ s.poison \subseteq FreeN(s)
=============================================================================
