------------------------------- MODULE Cache -------------------------------
(* Tagged cache with LRU and LFU replacement (src/cache/).
   n: resident entries, tag -> [st, ref, cnt]; st: 1 pending (handed out, not committed), 2 in use, 3 managed (unreferenced,
   evictable); everything else of size is free.  ord: managed tags, most recently released first (the LRU order);
   cnt: uses since the entry got its slot (the LFU order).  starv, dirty: flags. *)
EXTENDS Lib
Ok(s, r) == {[s |-> s, r |-> r]}
Tags(s, st) == {t \in DOMAIN s.n : s.n[t].st = st}
Used(s) == Cardinality({t \in DOMAIN s.n : s.n[t].ref > 0})
Pending(s) == Cardinality(Tags(s, 1))
Free(s) == s.size - Cardinality(DOMAIN s.n)
Put1(m, t, v) == [x \in DOMAIN m \cup {t} |-> IF x = t THEN v ELSE m[x]]
Del1(m, t) == [x \in DOMAIN m \ {t} |-> m[x]]
(* the entries the policy may evict next *)
Victims(s) ==
    IF s.algo = 0 THEN {s.ord[Len(s.ord)]}
    ELSE {t \in Tags(s, 3) : \A u \in Tags(s, 3) : s.n[t].cnt <= s.n[u].cnt}
(* result: <<tag (0: none), status, references, evicted tag, hits, misses, starved>>, the last three as increments *)
None(h, m, v) == <<0, 0, 0, 0, h, m, v>>
Obtain(s, t, fl) ==
    LET change == fl % 2 = 1  uncom == fl >= 2 IN
    IF s.starv = 1 THEN Ok(s, None(0, 0, 1))
    ELSE IF t \in DOMAIN s.n THEN
        IF s.n[t].st = 1 THEN
            IF ~uncom THEN Ok(s, None(1, 0, 0))
            ELSE Ok([s EXCEPT !.n[t].ref = @ + 1], <<t, 1, s.n[t].ref + 1, 0, 1, 0, 0>>)
        ELSE Ok([s EXCEPT !.n[t] = [st |-> 2, ref |-> @.ref + 1, cnt |-> @.cnt + s.algo], !.ord = Without(@, t)],
                <<t, 2, s.n[t].ref + 1, 0, 1, 0, 0>>)
    ELSE IF ~change THEN Ok(s, None(0, 1, 0))
    ELSE IF Free(s) = 0 /\ Tags(s, 3) = {} THEN Ok([s EXCEPT !.starv = 1, !.dirty = 1], None(0, 1, 0))
    ELSE IF Pending(s) >= s.maxp THEN Ok([s EXCEPT !.dirty = 1], None(0, 1, 0))
    ELSE IF Free(s) > 0 THEN Ok([s EXCEPT !.n = Put1(@, t, [st |-> 1, ref |-> 1, cnt |-> 0]), !.dirty = 1], <<t, 1, 1, 0, 0, 1, 0>>)
    ELSE {[s |-> [s EXCEPT !.n = Put1(Del1(@, v), t, [st |-> 1, ref |-> 1, cnt |-> 0]), !.ord = Without(@, v), !.dirty = 1],
           r |-> <<t, 1, 1, v, 0, 1, 0>>] : v \in Victims(s)}
Put(s, t) ==
    IF t \notin DOMAIN s.n THEN Ok(s, -1)
    ELSE IF s.n[t].st # 2 THEN Ok(s, -22)
    ELSE IF s.n[t].ref > 1 THEN Ok([s EXCEPT !.n[t].ref = @ - 1], s.n[t].ref - 1)
    ELSE Ok([s EXCEPT !.n[t].ref = 0, !.n[t].st = 3, !.starv = 0, !.ord = <<t>> \o @], 0)
Del(s, t) ==
    IF t \notin DOMAIN s.n THEN Ok(s, -1)
    ELSE IF s.n[t].st # 3 THEN Ok(s, -16)
    ELSE Ok([s EXCEPT !.n = Del1(@, t), !.ord = Without(@, t)], 0)
Set(s, t, u) ==
    IF t \notin DOMAIN s.n \/ (u # t /\ u \in DOMAIN s.n) THEN Ok(s, -1)
    ELSE IF s.n[t].st # 3 THEN Ok(s, -16)
    ELSE Ok([s EXCEPT !.n = Put1(Del1(@, t), u, [s.n[t] EXCEPT !.cnt = @ + s.algo]), !.ord = <<u>> \o Without(@, t)], 0)
Commit(s) == Ok([s EXCEPT !.n = [t \in DOMAIN @ |-> IF @[t].st = 1 THEN [@[t] EXCEPT !.st = 2] ELSE @[t]]], Pending(s))
Cleared(s) == [s EXCEPT !.n = <<>>, !.ord = <<>>, !.starv = 0, !.dirty = 0]
(* <<entries by tag, used, pending, dirty, starving, lengths of the using, freed and changing lists, tags bfdev_cache_find returns>> *)
Dump(s) == LET ts == SortSet(DOMAIN s.n) IN
    <<[i \in DOMAIN ts |-> <<ts[i], s.n[ts[i]].st, s.n[ts[i]].ref>>], Used(s), Pending(s), s.dirty, s.starv,
      Cardinality(Tags(s, 2)), Free(s), Pending(s), SelectSeq(ts, LAMBDA t : s.n[t].st # 1)>>
New(algo, size, maxp, f) ==
    LET z == IF size < 2 THEN 0 ELSE Pow2Up(size, 1) IN
    IF z = 0 \/ algo > 1 \/ (f > 0 /\ f <= z + 3) THEN Ok([k |-> "null"], 0)
    ELSE Ok([k |-> "cache", algo |-> algo, size |-> z, maxp |-> maxp, n |-> <<>>, ord |-> <<>>, starv |-> 0, dirty |-> 0], z)
(* algorithm registry: x = 1 when the extra algorithm is registered *)
Reg(s, what) ==
    CASE what = 0 -> Ok(s, -22)
      [] what = 1 -> IF s.x = 1 THEN Ok(s, -114) ELSE Ok([s EXCEPT !.x = 1], 0)
      [] what = 2 -> Ok(s, -114)
      [] what = 3 -> IF s.x = 0 THEN Ok(s, -2) ELSE Ok([s EXCEPT !.x = 0], 0)
      [] what = 4 -> Ok(s, -2)
Step(s, op, a) ==
    CASE op = "new" -> New(a[1], a[2], a[3], a[4])
      [] op = "obtain" -> Obtain(s, a[1], a[2])
      [] op = "put" -> Put(s, a[1])
      [] op = "del" -> Del(s, a[1])
      [] op = "set" -> Set(s, a[1], a[2])
      [] op = "idle" -> Ok(s, IF Free(s) = 0 THEN <<0, 0, 0>> ELSE <<-22, -16, -16>>)
      [] op = "commit" -> Commit(s)
      [] op = "reset" -> Ok(Cleared(s), <<0, 0, 0, 0, 0, 0, 0>>)
      [] op = "dump" -> Ok(s, Dump(s))
      [] op = "destroy" -> Ok([k |-> "null"], 0)
      [] op = "regs" -> Ok([k |-> "reg", x |-> 0], 0)
      [] op = "reg" -> Reg(s, a[1])
Inv(s) == s.k = "cache" =>
    /\ Free(s) >= 0
    /\ RangeOf(s.ord) = Tags(s, 3) /\ Len(s.ord) = Cardinality(Tags(s, 3))
    /\ \A t \in DOMAIN s.n : (s.n[t].ref = 0) = (s.n[t].st = 3)
    /\ Pending(s) <= s.maxp
    /\ s.starv = 1 => Used(s) = s.size
    /\ Used(s) + Cardinality(Tags(s, 3)) + Free(s) = s.size
=============================================================================
