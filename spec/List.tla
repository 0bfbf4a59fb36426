-------------------------------- MODULE List --------------------------------
(* Doubly linked list (include/bfdev/list.h): two heads h[1], h[2], each an ordinary sequence of node names.
   A node outside every list is "poison" (removed by del: removing it again is refused) or "init" (self-linked). *)
EXTENDS Lib

Heads == 1..2
InList(s, n) == \E h \in Heads : Has(s.h[h], n)
HeadOf(s, n) == CHOOSE h \in Heads : Has(s.h[h], n)
Nodes(s) == 1..s.n
FreeN(s) == {n \in Nodes(s) : ~InList(s, n)}
Proj(s) == <<s.h[1], Rev(s.h[1]), s.h[2], Rev(s.h[2]), <<B(s.h[1] = <<>>), B(s.h[2] = <<>>)>>>>
Res(s, ret) == {[s |-> s, r |-> <<ret>> \o Proj(s)]}
Put(s, h, q) == [s EXCEPT !.h[h] = q]
New(n) == Res([k |-> "list", n |-> n, h |-> <<<<>>, <<>>>>, poison |-> {}], <<0>>)

\* an anchor <<0, h>> is head h, <<1, n>> is node n in a list: position after/before it
AHead(s, a) == IF a[1] = 0 THEN a[2] ELSE HeadOf(s, a[2])
AfterPos(s, a) == IF a[1] = 0 THEN 0 ELSE Pos(s.h[HeadOf(s, a[2])], a[2])
BeforePos(s, a) == IF a[1] = 0 THEN Len(s.h[a[2]]) ELSE Pos(s.h[HeadOf(s, a[2])], a[2]) - 1
Insert(s, h, p, n) == [Put(s, h, InsertAt0(s.h[h], p, n)) EXCEPT !.poison = @ \ {n}]
Remove(s, n) == IF InList(s, n) THEN LET h == HeadOf(s, n) IN Put(s, h, Without(s.h[h], n)) ELSE s
AddAfter(s, a, n) == Insert(s, AHead(s, a), AfterPos(s, a), n)
AddBefore(s, a, n) == Insert(s, AHead(s, a), BeforePos(s, a), n)

Del(s, n) == IF InList(s, n) THEN Res([Remove(s, n) EXCEPT !.poison = @ \cup {n}], <<0>>)
             ELSE Res(s, <<0>>)                                     \* poisoned: refused
DelInit(s, n) == Res(Remove(s, n), <<0>>)
Replace(s, o, n) == LET h == HeadOf(s, o) IN
    [Put(s, h, [i \in 1..Len(s.h[h]) |-> IF s.h[h][i] = o THEN n ELSE s.h[h][i]]) EXCEPT !.poison = @ \ {n, o}]
SwapN(s, x, y) ==
    LET sw(q) == [i \in 1..Len(q) |-> IF q[i] = x THEN y ELSE IF q[i] = y THEN x ELSE q[i]]
    IN [s EXCEPT !.h = <<sw(s.h[1]), sw(s.h[2])>>]
Splice(s, a, l) == LET h == AHead(s, a) p == AfterPos(s, a) IN
    Put(Put(s, h, Take(s.h[h], p) \o s.h[l] \o Drop(s.h[h], p)), l, <<>>)
SplicePrev(s, a, l) == LET h == AHead(s, a) p == BeforePos(s, a) IN
    Put(Put(s, h, Take(s.h[h], p) \o s.h[l] \o Drop(s.h[h], p)), l, <<>>)

\* traversals: <<mode, reverse, safe, head, node, delete>>, mode 0 whole, 1 from the node, 2 continue after the node;
\* delete = 1: the visitor removes every even node it visits (safe forms only)
Visit(s, mode, rev, h, n) ==
    LET q == IF rev = 1 THEN Rev(s.h[h]) ELSE s.h[h]
    IN IF mode = 0 THEN q ELSE IF n = 0 THEN (IF mode = 1 THEN <<>> ELSE q)
       ELSE Drop(q, Pos(q, n) - (IF mode = 1 THEN 1 ELSE 0))
Walk(s, mode, rev, safe, h, n, del) ==
    LET v == Visit(s, mode, rev, h, n)
        gone == IF del = 1 THEN {x \in RangeOf(v) : x % 2 = 0} ELSE {}
    IN Res(Put(s, h, SelectSeq(s.h[h], LAMBDA x : x \notin gone)), v)

Nbr(s, n, d) == LET h == HeadOf(s, n) p == Pos(s.h[h], n) + d
                IN IF p < 1 \/ p > Len(s.h[h]) THEN 0 ELSE s.h[h][p]
Query(s, n) == LET h == HeadOf(s, n) q == s.h[h] IN
    Res(s, <<B(q[1] = n), B(q[Len(q)] = n), B(q = <<n>>), 0, Nbr(s, n, 1), Nbr(s, n, -1)>>)
Ends(s, h) == Res(s, IF s.h[h] = <<>> THEN <<0, 0, 1>> ELSE <<s.h[h][1], s.h[h][Len(s.h[h])], 1>>)

Step(s, op, a) ==
    CASE op = "new" -> New(a[1])
      [] op = "add" -> Res(AddAfter(s, a[1], a[2]), <<0>>)
      [] op = "addprev" -> Res(AddBefore(s, a[1], a[2]), <<0>>)
      [] op = "readd" -> Res(s, <<0>>)                      \* adding a node next to itself: refused
      [] op = "del" -> Del(s, a[1])
      [] op = "delinit" -> DelInit(s, a[1])
      [] op = "replace" -> Res(Replace(s, a[1], a[2]), <<0>>)
      [] op = "replaceinit" -> Res(Replace(s, a[1], a[2]), <<1>>)
      [] op = "move" -> Res(AddAfter(Remove(s, a[2]), a[1], a[2]), <<0>>)
      [] op = "moveprev" -> Res(AddBefore(Remove(s, a[2]), a[1], a[2]), <<0>>)
      [] op = "swap" -> Res(SwapN(s, a[1], a[2]), <<0>>)
      [] op \in {"splice", "spliceinit"} -> Res(Splice(s, a[1], a[2]), <<0>>)
      [] op \in {"spliceprev", "splicetailinit"} -> Res(SplicePrev(s, a[1], a[2]), <<0>>)
      [] op = "walk" -> Walk(s, a[1], a[2], a[3], a[4], a[5], a[6])
      [] op = "query" -> Query(s, a[1])
      [] op = "ends" -> Ends(s, a[1])

Inv(s) == s.k = "list" =>
    /\ \A n \in Nodes(s) : CountIn(s.h[1], n) + CountIn(s.h[2], n) <= 1
    /\ s.poison \subseteq FreeN(s)
=============================================================================
