------------------------------ MODULE HashMap ------------------------------
(* Hash map (src/hashmap.c) and static hash tables (include/bfdev/hashtbl.h).
   m: set of <<node, key>> stored; bits: log2 of the bucket count (0 = no buckets yet); mode 0 uses the default fill
   thresholds, mode 1 the caller's extend/shrink hooks, whose answer each command carries.
   t: hash table of 2^bits buckets, each a sequence of nodes, newest first; ix: key -> bucket as first observed. *)
EXTENDS Lib
Ok(s, r) == {[s |-> s, r |-> r]}
Cap(b) == IF b = 0 THEN 0 ELSE 2^b
Used(s) == Cardinality(s.m)
With(s, key) == {p \in s.m : p[2] = key}
Out(s, ret, n, f) == <<ret, n, f, Used(s), Cap(s.bits)>>
Free1(s, n) == ~\E p \in s.m : p[1] = n
Bigger(b) == Max2(b + 1, 4)
Smaller(b) == Max2(b - 1, 4)
(* strategies: 0 add, 1 set, 2 update, 3 append.  hook: the hook's answer; f = 1: the next allocation fails *)
Insert(s, n, key, strat, hook, f) ==
    LET ex == With(s, key)
        grow == s.bits = 0 \/ (IF s.mode = 1 THEN hook = 1 ELSE (Used(s) * 4) \div 3 > Cap(s.bits))
        In(b) == [s EXCEPT !.m = @ \cup {<<n, key>>}, !.bits = b] IN
    IF strat # 3 /\ ex # {} THEN
        IF strat = 0 THEN {[s |-> s, r |-> Out(s, -17, p[1], 0)] : p \in ex}
        ELSE {[s |-> t, r |-> Out(t, 0, p[1], 0)] : <<p, t>> \in {<<p, [s EXCEPT !.m = (@ \ {p}) \cup {<<n, key>>}]>> : p \in ex}}
    ELSE IF strat = 2 THEN Ok(s, Out(s, -2, 0, 0))
    ELSE IF ~grow THEN Ok(In(s.bits), Out(In(s.bits), 0, 0, 0))
    ELSE IF f = 1 THEN Ok(s, Out(s, -12, 0, 1))
    ELSE Ok(In(Bigger(s.bits)), Out(In(Bigger(s.bits)), 0, 0, 0))
Del(s, key, hook, f) ==
    LET ex == With(s, key)
        sh == IF s.mode = 1 THEN hook = 1 ELSE (Used(s) - 1) * 4 < Cap(s.bits) IN
    IF ex = {} THEN Ok(s, Out(s, -2, 0, 0))
    ELSE {LET t == [s EXCEPT !.m = @ \ {p}, !.bits = IF sh /\ f = 0 THEN Smaller(@) ELSE @] IN
          [s |-> t, r |-> Out(t, 0, p[1], IF sh /\ f = 1 THEN 1 ELSE 0)] : p \in ex}
Find(s, key) ==
    LET ex == With(s, key) IN IF ex = {} THEN Ok(s, 0) ELSE {[s |-> s, r |-> p[1]] : p \in ex}
(* traversals: every entry exactly once, in any order; the driver reports them sorted *)
Dump(s) == LET q == SortSet({p[1] * 10000 + p[2] : p \in s.m}) IN <<q, q>>

(* static tables *)
Size(s) == 2^s.bits
Idx(s, key) == s.ix[key]
Add(s, n, key, i) ==
    IF i < 0 \/ i >= Size(s) \/ (key \in DOMAIN s.ix /\ s.ix[key] # i) THEN {}
    ELSE Ok([s EXCEPT !.t[i + 1] = <<n>> \o @, !.ix = [x \in DOMAIN @ \cup {key} |-> IF x = key THEN i ELSE @[x]]], i)
Step(s, op, a) ==
    CASE op = "new" -> Ok([k |-> "map", mode |-> a[1], m |-> {}, bits |-> 0], 0)
      [] op = "insert" -> IF Free1(s, a[1]) THEN Insert(s, a[1], a[2], a[3], a[4], a[5]) ELSE {}
      [] op = "del" -> Del(s, a[1], a[2], a[3])
      [] op = "find" -> Find(s, a[1])
      [] op = "dump" -> Ok(s, Dump(s))
      [] op = "release" -> Ok([s EXCEPT !.m = {}, !.bits = 0], 0)
      [] op = "tnew" -> Ok([k |-> "tbl", bits |-> a[1], t |-> [i \in 1..(2^a[1]) |-> <<>>], ix |-> <<>>], 0)
      [] op = "tadd" -> IF Len(a) = 2 THEN Add(s, a[1], a[2], IF a[2] \in DOMAIN s.ix THEN s.ix[a[2]] ELSE a[2] % Size(s)) ELSE Add(s, a[1], a[2], a[3])
      [] op = "tdel" -> Ok([s EXCEPT !.t = [i \in DOMAIN @ |-> Without(@[i], a[1])]], 0)
      [] op = "tempty" -> Ok(s, B(\A i \in DOMAIN s.t : s.t[i] = <<>>))
      [] op = "tfind" -> Ok(s, IF a[1] \in DOMAIN s.ix THEN s.t[s.ix[a[1]] + 1] ELSE <<>>)
      [] op = "tdump" -> Ok(s, Flatten(s.t))
      [] op = "tdrain" -> Ok([s EXCEPT !.t = [i \in DOMAIN @ |-> SelectSeq(@[i], LAMBDA n : n % 2 # a[1])]], Flatten(s.t))
Inv(s) == s.k = "map" => /\ \A p, q \in s.m : p[1] = q[1] => p = q
                         /\ s.bits = 0 => s.m = {}
                         /\ s.bits \in {0} \cup 4..62
                         /\ s.mode = 0 /\ s.bits > 0 => (Used(s) - 1) * 4 <= 3 * Cap(s.bits) + 3
=============================================================================
