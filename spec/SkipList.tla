------------------------------- MODULE SkipList -------------------------------
(* Skip list (include/bfdev/skiplist.h, src/skiplist.c): in is the set of stored elements, key[n] the key of element n.
   The random level of an insertion is chosen by the environment and must not influence content or order.  The level
   lists are observed: list 1 is an ordering of the content, each next one an ordered subsequence of the one below. *)
EXTENDS Lib
Ids(s) == 1..Len(s.key)
Ok(s, r) == {[s |-> s, r |-> r]}
(* fl: the allocation fails *)
New(lv, key, fl) ==
    IF fl = 1 \/ lv = 0 THEN Ok(Null, 0)
    ELSE Ok([k |-> "skip", lv |-> lv, key |-> key, in |-> {}], 1)
Insert(s, n, fl) == IF fl = 1 THEN Ok(s, <<-12, Cardinality(s.in) + 1>>) ELSE Ok([s EXCEPT !.in = @ \cup {n}], <<0, Cardinality(s.in) + 2>>)
With(s, v) == {n \in s.in : s.key[n] = v}
Find(s, v) == IF With(s, v) = {} THEN Ok(s, 0) ELSE {[s |-> s, r |-> n] : n \in With(s, v)}
Delete(s, v) == IF With(s, v) = {} THEN Ok(s, 0) ELSE {[s |-> [s EXCEPT !.in = @ \ {n}], r |-> n] : n \in With(s, v)}
Sorted(s, q) == \A i \in 1..(Len(q) - 1) : s.key[q[i]] <= s.key[q[i + 1]]
Ordering(s, q) == Len(q) = Cardinality(s.in) /\ RangeOf(q) = s.in /\ Sorted(s, q)
RECURSIVE SubSeqOf(_, _)
SubSeqOf(p, q) == IF p = <<>> THEN TRUE ELSE IF q = <<>> THEN FALSE
                  ELSE IF p[1] = q[1] THEN SubSeqOf(Tail(p), Tail(q)) ELSE SubSeqOf(p, Tail(q))
From(q, x, c) == IF x \notin RangeOf(q) THEN <<>> ELSE Drop(q, Pos(q, x) - 1 + c)
(* f, b: the level lists forwards and backwards; t: <<from x, after x, back from x, back after x>> in list l *)
Dump(s, x, l, f, b, t) ==
    IF /\ Len(f) = s.lv /\ Ordering(s, f[1])
       /\ \A i \in 1..(s.lv - 1) : SubSeqOf(f[i + 1], f[i])
       /\ b = [i \in 1..s.lv |-> Rev(f[i])]
       /\ t = (LET q == f[l + 1]  p == Rev(q) IN <<From(q, x, 0), From(q, x, 1), From(p, x, 0), From(p, x, 1)>>)
    THEN Ok(s, Cardinality(s.in) + 1) ELSE {}
Reset(s, q) == IF Ordering(s, q) THEN Ok([s EXCEPT !.in = {}], 1) ELSE {}
Destroy(s, q) == IF Ordering(s, q) THEN Ok(Null, 0) ELSE {}
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[3])
      [] op = "insert" -> Insert(s, a[1], a[3])       \* a[2]: the level drawn
      [] op = "find" -> Find(s, a[1])
      [] op = "delete" -> Delete(s, a[1])
      [] op = "reset" -> IF Len(a) = 0 THEN Ok([s EXCEPT !.in = {}], 1) ELSE Reset(s, a[1])
      [] op = "destroy" -> IF Len(a) = 0 THEN Ok(Null, 0) ELSE Destroy(s, a[1])
      [] op = "dump" -> IF Len(a) = 2 THEN Ok(s, Cardinality(s.in) + 1) ELSE Dump(s, a[1], a[2], a[3], a[4], a[5])
Inv(s) == s.k = "skip" => s.in \subseteq Ids(s) /\ s.lv > 0
=============================================================================
