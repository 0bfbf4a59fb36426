------------------------------- MODULE RBTree -------------------------------
(* Red-black tree (include/bfdev/rbtree.h, src/rbtree.c) as an ordered set of nodes.
   kind: 0 plain, 1 cached leftmost, 2 augmented (subtree maximum of val), 3 cached and augmented.
   q is the content in key order. The shape is not part of the state: a "dump" event carries the observed
   structure (one tuple <<node, parent, colour (1 black), left, right, augmented>> per node, in pre-order) and is
   allowed exactly when that structure is a red-black tree over q with correct augmentation, and every
   traversal agrees with it.                                                                                *)
EXTENDS TreeLib

Nodes(s) == 1..Len(s.key)
In(s, n) == Has(s.q, n)
Val(s, n) == (s.key[n] * 37) % 101
First(q) == IF q = <<>> THEN 0 ELSE q[1]
Last(q) == IF q = <<>> THEN 0 ELSE q[Len(q)]
(* result: <<return value, first, last, cached leftmost (or -1)>> *)
Cached(s) == s.kind \in {1, 3}
Lm(s) == IF Cached(s) THEN First(s.q) ELSE -1
Res(s, ret) == {[s |-> s, r |-> <<ret, First(s.q), Last(s.q), Lm(s), B(s.q = <<>>)>>]}
New(kind, desc, key) == Res([k |-> "rb", kind |-> kind, desc |-> desc, key |-> key, q |-> <<>>, poison |-> {}], 0)
Lt(s, x, y) == IF s.desc = 1 THEN x > y ELSE x < y
Same(s, key) == {n \in RangeOf(s.q) : s.key[n] = key}
Rank(s, n) == Cardinality({i \in 1..Len(s.q) : Lt(s, s.key[s.q[i]], s.key[n])})
Put(s, n) == [s EXCEPT !.q = InsertAt0(@, Rank(s, n), n), !.poison = @ \ {n}]
Insert(s, n) == IF Same(s, s.key[n]) # {} THEN Res(s, 0) ELSE Res(Put(s, n), 1)
(* find the position for the key, insert there when the key is absent; returns the conflicting node *)
FindInsert(s, n) == IF Same(s, s.key[n]) # {} THEN Res(s, CHOOSE x \in Same(s, s.key[n]) : TRUE) ELSE Res(Put(s, n), 0)
Find(s, key) == Res(s, IF Same(s, key) = {} THEN 0 ELSE CHOOSE x \in Same(s, key) : TRUE)
(* a cached deletion returns the new leftmost when the leftmost went, otherwise nothing *)
Delete(s, n) ==
    IF ~In(s, n) THEN Res(s, 0)
    ELSE LET t == [s EXCEPT !.q = Without(@, n), !.poison = @ \cup {n}]
         IN Res(t, IF Cached(s) /\ s.q[1] = n THEN First(t.q) ELSE 0)
Replace(s, o, n) == Res([s EXCEPT !.q = [i \in 1..Len(s.q) |-> IF s.q[i] = o THEN n ELSE s.q[i]], !.poison = @ \ {n}], 0)

(* ---- structure ---- *)
Valid(s, d) ==
    IF d = <<>> THEN s.q = <<>>
    ELSE LET m == NodeMap(d)  root == d[1][1] IN
         /\ RBOk(d)
         /\ InO(m, root) = s.q
         /\ (s.kind >= 2 => Mx([n \in Nodes(s) |-> Val(s, n)], m, root) >= 0)
From(seq, x, c) == IF x = 0 THEN <<>> ELSE Drop(seq, Pos(seq, x) - 1 + c)
(* x: the node resumed traversals start at (0: none). t: <<in, reverse, pre, post, in from x, in after x,
   reverse from x, reverse after x, pre from x, pre after x, post from x, post after x, post safe>>          *)
Dump(s, x, d, t) ==
    IF ~Valid(s, d) THEN {}
    ELSE LET m == NodeMap(d)  root == IF d = <<>> THEN 0 ELSE d[1][1]
             i == s.q  r == Rev(s.q)  p == PreO(m, root)  o == PostO(m, root)
         IN IF t = <<i, r, p, o, From(i, x, 0), From(i, x, 1), From(r, x, 0), From(r, x, 1), From(p, x, 0), From(p, x, 1), From(o, x, 0), From(o, x, 1)>>
            THEN Res(s, 0) ELSE {}
(* post-order walk that releases every visited node *)
Destroy(s, d, t) ==
    IF ~Valid(s, d) \/ t # (IF d = <<>> THEN <<>> ELSE PostO(NodeMap(d), d[1][1])) THEN {}
    ELSE Res([s EXCEPT !.q = <<>>, !.poison = @ \cup RangeOf(s.q)], 0)
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[3])
      [] op = "insert" -> Insert(s, a[1])
      [] op = "finsert" -> FindInsert(s, a[1])
      [] op = "find" -> Find(s, a[1])
      [] op = "delete" -> Delete(s, a[1])
      [] op = "replace" -> Replace(s, a[1], a[2])
      [] op = "dump" -> IF Len(a) = 1 THEN Res(s, 0) ELSE Dump(s, a[1], a[2], a[3])
      [] op = "destroy" -> IF Len(a) = 1 THEN Res([s EXCEPT !.q = <<>>, !.poison = @ \cup RangeOf(s.q)], 0) ELSE Destroy(s, a[2], a[3])
Inv(s) == s.k = "rb" =>
    /\ \A i \in 1..(Len(s.q) - 1) : Lt(s, s.key[s.q[i]], s.key[s.q[i + 1]])
    /\ s.poison \cap RangeOf(s.q) = {}
=============================================================================
