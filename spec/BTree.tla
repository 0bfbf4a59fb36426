-------------------------------- MODULE BTree --------------------------------
(* B+tree map (include/bfdev/btree.h, src/btree.c, src/btree-utils.c): m is the set of <<key, value>> pairs, keys are
   positive numbers (the zero key marks an empty slot), values positive.  lay selects the node layout, clash the
   behaviour of the clash hook (0: none, 1: reports 7), veto that of the remove hook (0: none, 1: refuses values
   divisible by 5).  Nodes order their keys descending; iteration goes from the largest to the smallest key.
   d is the dumped structure: a node is a sequence of <<key, child or value>>.                                      *)
EXTENDS Lib
KeyNum == <<8, 8, 8, 5, 4, 7>>
Keys(s) == {p[1] : p \in s.m}
Val(s, k) == IF k \in Keys(s) THEN (CHOOSE p \in s.m : p[1] = k)[2] ELSE 0
Pairs(s) == SortBy(s.m, LAMBDA a, b : a[1] > b[1])
Ok(s, r) == {[s |-> s, r |-> r]}
New(lay, clash, veto) == Ok([k |-> "btree", lay |-> lay, clash |-> clash, veto |-> veto, m |-> {}], 0)
(* f = k > 0: the k-th allocation of this operation fails; result <<code, failures that happened>> *)
Insert(s, k, v, f) ==
    IF v = 0 THEN Ok(s, <<-22, 0>>)
    ELSE IF k \in Keys(s) THEN
         (* full nodes on the way may be split before the clash is seen, so an armed failure can fire first *)
         Ok(s, <<IF s.clash = 1 THEN 7000 + 10 * Val(s, k) + v ELSE -114, 0>>) \cup (IF f > 0 THEN Ok(s, <<-12, 1>>) ELSE {})
    ELSE Ok([s EXCEPT !.m = @ \cup {<<k, v>>}], <<0, 0>>) \cup (IF f > 0 THEN Ok(s, <<-12, 1>>) ELSE {})
Update(s, k, v) == IF k \notin Keys(s) THEN Ok(s, -2) ELSE Ok([s EXCEPT !.m = {p \in @ : p[1] # k} \cup {<<k, v>>}], 0)
Remove(s, k) ==
    IF k \notin Keys(s) THEN Ok(s, 0)
    ELSE IF s.veto = 1 /\ Val(s, k) % 5 = 0 THEN Ok(s, 100000 + Val(s, k))
    ELSE Ok([s EXCEPT !.m = {p \in @ : p[1] # k}], Val(s, k))
Below(s, k) == {p \in s.m : p[1] < k}
Above(s, k) == {p \in s.m : p[1] > k}
Top(S) == IF S = {} THEN <<0, 0>> ELSE CHOOSE p \in S : \A q \in S : q[1] <= p[1]
Bot(S) == IF S = {} THEN <<0, 0>> ELSE CHOOSE p \in S : \A q \in S : p[1] <= q[1]
(* ---- structure ---- *)
RECURSIVE Flat(_, _), Good(_, _, _, _, _), Count(_, _)
Flat(d, h) == IF h = 1 THEN d ELSE Flatten([i \in 1..Len(d) |-> Flat(d[i][2], h - 1)])
Count(d, h) == IF h = 1 THEN 1 ELSE 1 + SumSeq([i \in 1..Len(d) |-> Count(d[i][2], h - 1)])
(* all keys of the subtree lie in lo..hi, descending; every node but the root holds an entry, inner roots two *)
Good(n, d, h, lo, hi) ==
    /\ Len(d) <= n
    /\ \A i \in 1..Len(d) : d[i][1] >= lo /\ d[i][1] <= hi /\ (i > 1 => d[i][1] < d[i - 1][1])
    /\ h > 1 => \A i \in 1..Len(d) : Len(d[i][2]) > 0 /\ Good(n, d[i][2], h - 1, d[i][1], IF i = 1 THEN hi ELSE d[i - 1][1] - 1)
Shape(s, h, d, live) ==
    IF h = 0 THEN s.m = {} /\ live = 0
    ELSE /\ Good(KeyNum[s.lay + 1], d, h, 0, 1000000)
         /\ h > 1 => Len(d) >= 2
         /\ Flat(d, h) = Pairs(s)
         /\ live = Count(d, h)
Cut(seq, S) == SelectSeq(seq, LAMBDA p : p \in S)
(* t: <<descending, ascending, from x down, after x down, from x up, after x up>> *)
Dump(s, x, h, d, live, t) ==
    IF ~Shape(s, h, d, live) THEN {}
    ELSE LET p == Pairs(s)  at == {<<x, Val(s, x)>>}  r == Rev(p) IN
         IF t = (IF x = 0 THEN <<p, r, <<>>, <<>>, <<>>, <<>>>>
                 ELSE <<p, r, Cut(p, at \cup Below(s, x)), Cut(p, Below(s, x)), Cut(r, at \cup Above(s, x)), Cut(r, Above(s, x))>>)
         THEN Ok(s, 0) ELSE {}
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[3])
      [] op = "insert" -> Insert(s, a[1], a[2], a[3])
      [] op = "update" -> Update(s, a[1], a[2])
      [] op = "remove" -> Remove(s, a[1])
      [] op = "lookup" -> Ok(s, Val(s, a[1]))
      [] op = "first" -> Ok(s, Top(s.m))
      [] op = "last" -> Ok(s, Bot(s.m))
      [] op = "next" -> Ok(s, Top(Below(s, a[1])))
      [] op = "prev" -> Ok(s, Bot(Above(s, a[1])))
      [] op = "drain" -> Ok([s EXCEPT !.m = {p \in @ : s.veto = 1 /\ p[2] % 5 = 0}], IF a[1] = 1 THEN Rev(Pairs(s)) ELSE Pairs(s))
      [] op = "release" -> Ok([s EXCEPT !.m = {}], <<[i \in 1..Cardinality(s.m) |-> Pairs(s)[i][2]], 0>>)
      [] op = "dump" -> IF Len(a) = 1 THEN Ok(s, 0) ELSE Dump(s, a[1], a[2], a[3], a[4], a[5])
Inv(s) == s.k = "btree" => Cardinality(Keys(s)) = Cardinality(s.m)
=============================================================================
