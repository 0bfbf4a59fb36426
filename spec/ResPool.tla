------------------------------ MODULE ResPool ------------------------------
(* A pool of resources (respool.h): q lists the registered ones, newest first; a resource is an id with a key. *)
EXTENDS Lib
Match(s, key) == SelectSeq(s.q, LAMBDA x : x[2] = key)
Live(s, id) == \E i \in 1..Len(s.q) : s.q[i][1] = id
Drop1(s, id) == [s EXCEPT !.q = SelectSeq(@, LAMBDA x : x[1] # id)]
Ids(q) == [i \in 1..Len(q) |-> q[i][1]]
(* result: <<id answered (0: none), ids released by the library in order, pool empty?>> *)
Out(s, id, rel) == {[s |-> s, r |-> <<id, rel, B(s.q = <<>>)>>]}
Step(s, op, a) ==
    CASE op = "new" -> Out([k |-> "live", q |-> <<>>], 0, <<>>)      \* how the pool is initialised
      [] s.k = "null" -> {}
      [] op = "insert" -> IF Live(s, a[1]) THEN {} ELSE Out([s EXCEPT !.q = <<<<a[1], a[2]>>>> \o @], a[1], <<>>)
      [] op = "remove" -> IF ~Live(s, a[1]) THEN {} ELSE Out(Drop1(s, a[1]), a[1], <<>>)
      [] op = "release" -> IF ~Live(s, a[1]) THEN {} ELSE Out(Drop1(s, a[1]), a[1], <<a[1]>>)
      [] op = "find" -> LET m == Match(s, a[1]) IN Out(s, IF m = <<>> THEN 0 ELSE m[1][1], <<>>)
      [] op = "find_remove" -> LET m == Match(s, a[1]) IN
            IF m = <<>> THEN Out(s, 0, <<>>) ELSE Out(Drop1(s, m[1][1]), m[1][1], <<>>)
      [] op = "find_release" -> LET m == Match(s, a[1]) IN
            IF m = <<>> THEN Out(s, 0, <<>>) ELSE Out(Drop1(s, m[1][1]), m[1][1], <<m[1][1]>>)
      [] op = "release_all" -> Out([s EXCEPT !.q = <<>>], 0, Ids(s.q))
      [] OTHER -> {}
Inv(s) == s.k = "null" \/ \A i, j \in 1..Len(s.q) : i # j => s.q[i][1] # s.q[j][1]
=============================================================================
