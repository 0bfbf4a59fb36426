-------------------------------- MODULE Radix --------------------------------
(* Radix array (include/bfdev/radix.h, src/radix.c): m is the set of <<index, value>> of allocated cells; indexes are
   64-bit words in four 16-bit limbs.  num is the number of cells per 256-byte block (charge touches one per block). *)
EXTENDS Limbs
Num == <<256, 128, 85, 64, 32, 21, 5, 2, 1, 1>>
Has1(s, i) == \E p \in s.m : p[1] = i
Val(s, i) == IF Has1(s, i) THEN (CHOOSE p \in s.m : p[1] = i)[2] ELSE -1
Ok(s, r) == {[s |-> s, r |-> r]}
New(sel) == Ok([k |-> "radix", sel |-> sel, m |-> {}], 0)
Put(s, i, v) == [s EXCEPT !.m = {p \in @ : p[1] # i} \cup {<<i, v>>}]
(* f > 0: the f-th allocation fails; result <<succeeded, earlier value, failures>> *)
Alloc(s, i, v, f) == Ok(Put(s, i, v), <<1, Val(s, i), 0>>) \cup (IF f > 0 /\ ~Has1(s, i) THEN Ok(s, <<0, -1, 1>>) ELSE {})
Free(s, i) ==
    IF Has1(s, i) THEN Ok([s EXCEPT !.m = {p \in @ : p[1] # i}], 0)
    ELSE {[s |-> s, r |-> c] : c \in {0, -2}}
RECURSIVE Charged(_, _, _)
Charged(s, i, k) == IF k = 0 THEN <<>> ELSE <<i>> \o Charged(s, Add(i, FromNat(Num[s.sel + 1], 4)), k - 1)
(* one cell in every block of i .. i + size - 1; new cells take the value 0; a failure leaves a prefix *)
Charge(s, i, size, f) ==
    LET c == Charged(s, i, (size + Num[s.sel + 1] - 1) \div Num[s.sel + 1])
        After(n) == Fold(LAMBDA t, x : IF Has1(t, x) THEN t ELSE Put(t, x, 0), s, Take(c, n)) IN
    IF s.sel = 0 /\ AddCarry(i, FromNat(size, 4)) = 1 THEN Ok(s, <<-75, 0>>)
    ELSE Ok(After(Len(c)), <<0, 0>>) \cup (IF f > 0 THEN {[s |-> After(n), r |-> <<-12, 1>>] : n \in 0..(Len(c) - 1)} ELSE {})
Lower(s, i) == {p \in s.m : Lt(p[1], i)}
Upper(s, i) == {p \in s.m : Lt(i, p[1])}
Z == Zero(4)
Top(S) == IF S = {} THEN <<0, Z, -1>> ELSE LET p == CHOOSE p \in S : \A q \in S : Le(q[1], p[1]) IN <<1, p[1], p[2]>>
Bot(S) == IF S = {} THEN <<0, Z, -1>> ELSE LET p == CHOOSE p \in S : \A q \in S : Le(p[1], q[1]) IN <<1, p[1], p[2]>>
Seq_(S) == SortBy(S, LAMBDA a, b : Lt(a[1], b[1]))
(* <<up, down, from x up, from x down, after x up, after x down>> *)
Dump(s, x) ==
    LET u == Seq_(s.m)  at == {p \in s.m : p[1] = x} IN
    IF at = {} THEN <<u, Rev(u), <<>>, <<>>, <<>>, <<>>>>
    ELSE <<u, Rev(u), Seq_(at \cup Upper(s, x)), Rev(Seq_(at \cup Lower(s, x))), Seq_(Upper(s, x)), Rev(Seq_(Lower(s, x)))>>
Step(s, op, a) ==
    CASE op = "new" -> New(a[1])
      [] op = "alloc" -> Alloc(s, a[1], a[2], a[3])
      [] op = "find" -> Ok(s, Val(s, a[1]))
      [] op = "free" -> Free(s, a[1])
      [] op = "charge" -> Charge(s, a[1], a[2], a[3])
      [] op = "first" -> Ok(s, Bot(s.m))
      [] op = "last" -> Ok(s, Top(s.m))
      [] op = "next" -> Ok(s, IF Has1(s, a[1]) THEN Bot(Upper(s, a[1])) ELSE <<0, Z, -1>>)
      [] op = "prev" -> Ok(s, IF Has1(s, a[1]) THEN Top(Lower(s, a[1])) ELSE <<0, Z, -1>>)
      [] op = "dump" -> Ok(s, Dump(s, a[1]))
      [] op = "drain" -> Ok([s EXCEPT !.m = {}], IF a[1] = 1 THEN Rev(Seq_(s.m)) ELSE Seq_(s.m))
      [] op = "release" -> Ok([s EXCEPT !.m = {}], 0)
Inv(s) == s.k = "radix" => \A p, q \in s.m : p[1] = q[1] => p = q
=============================================================================
