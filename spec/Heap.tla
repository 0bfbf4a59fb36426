-------------------------------- MODULE Heap --------------------------------
(* Binary heap of linked nodes (include/bfdev/heap.h, src/heap.c): in is the set of stored nodes; the observed
   structure must be a complete binary tree over exactly that set with every parent ordered before its children.
   Positions are numbered from 1 in level order.                                                             *)
EXTENDS TreeLib

Nodes(s) == 1..Len(s.key)
K(s, n) == IF s.desc = 1 THEN -s.key[n] ELSE s.key[n]
Tops(s) == {n \in s.in : \A m \in s.in : K(s, n) <= K(s, m)}
(* result: <<top key (or -1000), count, empty>>; ties make the identity of the top free, its key is not *)
Res(s) == {[s |-> s, r |-> <<IF s.in = {} THEN -1000 ELSE s.key[CHOOSE n \in Tops(s) : TRUE], Cardinality(s.in), B(s.in = {})>>]}
New(desc, key) == Res([k |-> "heap", desc |-> desc, key |-> key, in |-> {}, poison |-> {}])
Insert(s, n) == Res([s EXCEPT !.in = @ \cup {n}, !.poison = @ \ {n}])
Delete(s, n) == IF n \notin s.in THEN Res(s) ELSE Res([s EXCEPT !.in = @ \ {n}, !.poison = @ \cup {n}])
(* remove the top: any of the extreme nodes; the id is part of the result *)
Pop(s) == {[s |-> [s EXCEPT !.in = @ \ {n}, !.poison = @ \cup {n}], r |-> n] : n \in Tops(s)}
(* change a stored node's key by deleting and inserting it again is the caller's business; rekey only free nodes *)
RECURSIVE Idx(_, _, _)
Idx(m, n, i) == IF n = 0 THEN {} ELSE {<<i, n>>} \cup Idx(m, m[n][4], 2 * i) \cup Idx(m, m[n][5], 2 * i + 1)
Level(m, root) == LET x == Idx(m, root, 1) IN [i \in 1..Cardinality(x) |-> (CHOOSE p \in x : p[1] = i)[2]]
Shape(s, d) ==
    IF d = <<>> THEN s.in = {}
    ELSE LET m == NodeMap(d)  root == d[1][1] IN
         /\ Cardinality(DOMAIN m) = Len(d)
         /\ DOMAIN m = s.in
         /\ m[root][2] = 0
         /\ \A n \in DOMAIN m : \A c \in {m[n][4], m[n][5]} \ {0} : c \in DOMAIN m /\ m[c][2] = n /\ K(s, n) <= K(s, c)
         /\ {p[1] : p \in Idx(m, root, 1)} = 1..Len(d)
From(seq, x, c) == IF x = 0 THEN <<>> ELSE Drop(seq, Pos(seq, x) - 1 + c)
(* t: <<level order, found by position 1..count+1, level from the 1st, level after the 1st, post order, post from x,
   post after x>> *)
Dump(s, x, d, t) ==
    IF ~Shape(s, d) THEN {}
    ELSE LET m == NodeMap(d)  l == IF d = <<>> THEN <<>> ELSE Level(m, d[1][1])  p == IF d = <<>> THEN <<>> ELSE PostO(m, d[1][1])
         IN IF t = <<l, Append(l, 0), l, Drop(l, 1), p, From(p, x, 0), From(p, x, 1)>> THEN Res(s) ELSE {}
Destroy(s, d, t) ==
    IF ~Shape(s, d) \/ t # (IF d = <<>> THEN <<>> ELSE PostO(NodeMap(d), d[1][1])) THEN {}
    ELSE Res([s EXCEPT !.in = {}, !.poison = @ \cup s.in])
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2])
      [] op = "insert" -> Insert(s, a[1])
      [] op = "delete" -> Delete(s, a[1])
      [] op = "pop" -> Pop(s)
      [] op = "dump" -> IF Len(a) = 1 THEN Res(s) ELSE Dump(s, a[1], a[2], a[3])
      [] op = "destroy" -> IF Len(a) = 1 THEN Res([s EXCEPT !.in = {}, !.poison = @ \cup s.in]) ELSE Destroy(s, a[2], a[3])
Inv(s) == s.k = "heap" => s.in \subseteq Nodes(s) /\ s.in \cap s.poison = {}
=============================================================================
