-------------------------------- MODULE Guard --------------------------------
(* Integrity checks of the linked structures, at the level of their links (include/bfdev/list.h, hlist.h, slist.h, rbtree.h,
   heap.h, src/ilist.c and src/*-debug.c; on by default). An operation whose arguments do not fit the links - inserting
   between nodes that are not neighbours or a node that is there already, deleting a node that was deleted before - is reported
   and changes nothing.
   list:  nodes 1..N, n[x] = next, p[x] = prev; Poison marks deleted nodes.
   hlist: h = first node (0: none), n[x] = next (0: none), p[x] = whose link points to x (0: the head's).
   slist: node 1 is the head, n[x] = next (0: none).
   tree, heap, ilist: the ids of the linked nodes, in order (heap: as a set); gone = nodes deleted before.               *)
EXTENDS Lib
Poison == -1
N(s) == Len(s.n)
Res(s, reported) == {[s |-> s, r |-> <<reported, s.h, s.n, s.p>>]}
Same(s) == Res(s, 1)
New(kind, n) ==
    Res([k |-> kind, h |-> 0, n |-> IF kind = "list" THEN [i \in 1..n |-> i] ELSE IF kind \in {"hlist", "slist"} THEN [i \in 1..n |-> 0] ELSE <<>>,
         p |-> IF kind = "list" THEN [i \in 1..n |-> i] ELSE IF kind = "hlist" THEN [i \in 1..n |-> Poison] ELSE <<>>,
         q |-> <<>>, gone |-> {}, size |-> n], 0)

\* ---- doubly linked list
LInsertBad(s, prev, next, x) == s.n[prev] # next \/ s.p[next] # prev \/ x \in {prev, next}
LInsert(s, prev, next, x) ==
    IF LInsertBad(s, prev, next, x) THEN Same(s)
    ELSE Res([s EXCEPT !.n[prev] = x, !.p[next] = x, !.p[x] = prev, !.n[x] = next], 0)
LDelBad(s, x) == s.n[x] = Poison \/ s.p[x] = Poison
LDel(s, x) ==
    IF LDelBad(s, x) THEN Same(s)
    ELSE LET a == s.p[x]  b == s.n[x]
         IN Res([s EXCEPT !.n = [[@ EXCEPT ![a] = b] EXCEPT ![x] = Poison], !.p = [[@ EXCEPT ![b] = a] EXCEPT ![x] = Poison]], 0)

\* ---- hash list
HHeadAdd(s, x) ==
    IF s.h = x THEN Same(s)
    ELSE Res([s EXCEPT !.h = x, !.n[x] = s.h, !.p = [j \in 1..N(s) |-> IF j = x THEN 0 ELSE IF j = s.h THEN x ELSE @[j]]], 0)
HNextAdd(s, y, x) ==
    IF s.n[y] = x THEN Same(s)
    ELSE Res([s EXCEPT !.n = [@ EXCEPT ![x] = s.n[y], ![y] = x], !.p = [j \in 1..N(s) |-> IF j = x THEN y ELSE IF j = s.n[y] THEN x ELSE @[j]]], 0)
HPrevAdd(s, y, x) ==
    IF s.p[y] = x THEN Same(s)
    ELSE Res([s EXCEPT !.h = IF s.p[y] = 0 THEN x ELSE @, !.n = [j \in 1..N(s) |-> IF j = x THEN y ELSE IF j = s.p[y] THEN x ELSE @[j]],
                       !.p = [@ EXCEPT ![x] = s.p[y], ![y] = x]], 0)
HDel(s, x) ==
    IF s.n[x] = Poison \/ s.p[x] = Poison THEN Same(s)
    ELSE Res([s EXCEPT !.h = IF s.p[x] = 0 THEN s.n[x] ELSE @,
                       !.n = [j \in 1..N(s) |-> IF j = x THEN Poison ELSE IF j = s.p[x] THEN s.n[x] ELSE @[j]],
                       !.p = [j \in 1..N(s) |-> IF j = x THEN Poison ELSE IF j = s.n[x] THEN s.p[x] ELSE @[j]]], 0)

\* ---- singly linked list
SAdd(s, y, x) == IF y = x \/ s.n[y] = x THEN Same(s) ELSE Res([s EXCEPT !.n = [@ EXCEPT ![x] = s.n[y], ![y] = x]], 0)
SDel(s, x) ==
    IF s.n[x] = Poison THEN Same(s)
    ELSE Res([s EXCEPT !.n = [j \in 1..N(s) |-> IF j = x THEN Poison ELSE IF @[j] = x THEN s.n[x] ELSE @[j]]], 0)

\* ---- a stray write to a link
Spoil(s, which, x, v) == Res(IF which = 0 THEN [s EXCEPT !.n[x] = v] ELSE [s EXCEPT !.p[x] = v], 0)

\* ---- trees, heaps, index lists: the linked ids, ascending
QRes(s, reported) == {[s |-> s, r |-> <<reported, s.q>>]}
QInsert(s, x) == QRes([s EXCEPT !.q = InsertAt0(@, Cardinality({i \in 1..Len(@) : @[i] < x}), x), !.gone = @ \ {x}], 0)
QDelete(s, x) == IF Has(s.q, x) THEN QRes([s EXCEPT !.q = Without(@, x), !.gone = @ \cup {x}], 0) ELSE QRes(s, 1)
QRefused(s) == QRes(s, 1)

Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2])
      [] op = "linsert" -> LInsert(s, a[1], a[2], a[3])
      [] op = "ladd" -> LInsert(s, a[1], s.n[a[1]], a[2])
      [] op = "laddprev" -> LInsert(s, s.p[a[1]], a[1], a[2])
      [] op = "ldel" -> LDel(s, a[1])
      [] op = "hhead" -> HHeadAdd(s, a[1])
      [] op = "hnext" -> HNextAdd(s, a[1], a[2])
      [] op = "hprev" -> HPrevAdd(s, a[1], a[2])
      [] op = "hdel" -> HDel(s, a[1])
      [] op = "sadd" -> SAdd(s, a[1], a[2])
      [] op = "sdel" -> SDel(s, a[1])
      [] op = "spoil" -> Spoil(s, a[1], a[2], a[3])
      [] op = "qinsert" -> QInsert(s, a[1])
      [] op = "qdelete" -> QDelete(s, a[1])
      [] op = "qrelink" -> QRefused(s)            \* link a node where it is linked already
      [] op \in {"qspoiltadd", "qspoiltdel"} -> QRefused(s)   \* an operation while one of the links is wrong (then put right)

Inv(s) ==
    /\ s.k \in {"tree", "ctree", "atree", "xtree", "heap", "ilist"} => /\ \A i \in 1..(Len(s.q) - 1) : s.q[i] < s.q[i + 1]
                                      /\ RangeOf(s.q) \cap s.gone = {}
    \* what is linked stays linked both ways: the links of a list never disagree unless a stray write did it
    /\ s.k = "hlist" => \A x \in 1..N(s) : s.p[x] > 0 => s.n[s.p[x]] = x
=============================================================================
