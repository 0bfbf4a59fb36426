------------------------------- MODULE Bloom -------------------------------
(* Bloom filter (src/bloom.c).  b: set of bit positions set since the last flush; ks: keys pushed since (a history
   variable, only for the invariant); a key's positions, one per hash function, are part of the command as observed. *)
EXTENDS Lib
Ok(s, r) == {[s |-> s, r |-> r]}
New(cap, funcs, f) ==
    IF f = 1 \/ cap = 0 THEN Ok([k |-> "null"], 0)
    ELSE Ok([k |-> "bloom", funcs |-> funcs, cap |-> ((cap + 63) \div 64) * 64, b |-> {}, ks |-> {}, map |-> <<>>], 1)
(* positions of a key lie inside the filter and never change *)
Valid(s, key, ix) == /\ Len(ix) = s.funcs /\ \A i \in DOMAIN ix : ix[i] >= 0 /\ ix[i] < s.cap
                     /\ key \in DOMAIN s.map => s.map[key] = ix
Learn(s, key, ix) == [s EXCEPT !.map = [x \in DOMAIN @ \cup {key} |-> IF x = key THEN ix ELSE @[x]]]
Hit(s, ix) == \A i \in DOMAIN ix : ix[i] \in s.b
Push(s, key, ix) == IF ~Valid(s, key, ix) THEN {} ELSE Ok([Learn(s, key, ix) EXCEPT !.b = @ \cup RangeOf(ix), !.ks = @ \cup {key}], B(Hit(s, ix)))
Peek(s, key, ix) == IF ~Valid(s, key, ix) THEN {} ELSE Ok(Learn(s, key, ix), B(Hit(s, ix)))
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[4])
      [] op = "push" -> Push(s, a[1], a[2])
      [] op = "peek" -> Peek(s, a[1], a[2])
      [] op = "flush" -> Ok([s EXCEPT !.b = {}, !.ks = {}], 0)
      [] op = "bits" -> Ok(s, SortSet(s.b))
      [] op = "destroy" -> Ok([k |-> "null"], 0)
Inv(s) == s.k = "bloom" => \A key \in s.ks : Hit(s, s.map[key])
=============================================================================
