----------------------------- MODULE AllocPool -----------------------------
(* Bump allocation pool (src/allocpool.c) of size bytes whose first byte lies base bytes after a 4096-aligned address.
   last: end of the last piece; n: pieces not yet freed; p: live pieces id -> <<offset, size>>. *)
EXTENDS Lib
Ok(s, r) == {[s |-> s, r |-> r]}
Big == 1048576
Num(x) == IF x[2] >= 16 \/ x[3] > 0 \/ x[4] > 0 THEN Big ELSE x[1] + 65536 * x[2]
Up(n, a) == ((n + a - 1) \div a) * a
At(s, align) == Up(s.base + s.last, Max2(align, 8)) - s.base
Alloc(s, id, n, align) ==
    LET o == At(s, align) IN
    IF n = 0 \/ o + n > s.size THEN Ok(s, -1)
    ELSE Ok([s EXCEPT !.last = o + n, !.n = @ + 1, !.p = [x \in DOMAIN @ \cup {id} |-> IF x = id THEN <<o, n>> ELSE @[x]]], o)
(* freeing the last live piece, in any order, makes the whole pool available again *)
Free(s, id) ==
    IF id \notin DOMAIN s.p THEN Ok(s, -1)
    ELSE Ok([s EXCEPT !.p = [x \in DOMAIN @ \ {id} |-> @[x]], !.n = @ - 1, !.last = IF s.n = 1 THEN 0 ELSE @], s.n - 1)
Step(s, op, a) ==
    CASE op = "new" -> Ok([k |-> "pool", base |-> a[1], size |-> a[2], last |-> 0, n |-> 0, p |-> <<>>], 0)
      [] op = "alloc" -> Alloc(s, a[1], Num(a[2]), a[3])
      [] op = "free" -> Free(s, a[1])
      [] op = "reset" -> Ok([s EXCEPT !.last = 0, !.n = 0, !.p = <<>>], 0)
Inv(s) == s.k = "pool" =>
    /\ s.last <= s.size /\ s.n = Cardinality(DOMAIN s.p)
    /\ \A x \in DOMAIN s.p : s.p[x][1] >= 0 /\ s.p[x][1] + s.p[x][2] <= s.last
    /\ \A x, y \in DOMAIN s.p : x # y => s.p[x][1] + s.p[x][2] <= s.p[y][1] \/ s.p[y][1] + s.p[y][2] <= s.p[x][1]
=============================================================================
