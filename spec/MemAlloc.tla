------------------------------ MODULE MemAlloc ------------------------------
(* Boundary-tag memory allocator (src/memalloc.c) over a region of s.R bytes.
   l: layout, the chunks in address order as <<offset of the header, payload size, owner>>; owner 0 is free.
   req: requested size of each live block.  A command either carries the layout observed afterwards, which must be one the
   properties allow (well-formed, everything else untouched, chosen by the policy), or - in the model - the layout is computed.
   policy: 0 first fit (any chunk that fits), 1 best fit, 2 worst fit. *)
EXTENDS Lib
H == 40
Al(n) == ((n + 31) \div 32) * 32
Big == 1048576                      \* the regions are smaller; a larger request stands for any huge one
Num(x) == IF x[2] >= 16 \/ x[3] > 0 \/ x[4] > 0 THEN Big ELSE x[1] + 65536 * x[2]
Owners(l) == {l[i][3] : i \in DOMAIN l} \ {0}
ChunkOf(l, id) == l[CHOOSE i \in DOMAIN l : l[i][3] = id]
FreeIdx(l) == {i \in DOMAIN l : l[i][3] = 0}
Avail(l) == SumSeq([i \in DOMAIN l |-> IF l[i][3] = 0 THEN l[i][2] ELSE 0])
Even(n) == n - (n % 2)
WF(s, l, req) ==
    /\ Len(l) > 0 /\ l[1][1] = 0
    /\ \A i \in DOMAIN l : /\ l[i][1] % 8 = 0 /\ l[i][2] >= 0
                           /\ l[i][1] + H + l[i][2] = IF i = Len(l) THEN Even(s.R) ELSE l[i + 1][1]
                           /\ i < Len(l) => ~(l[i][3] = 0 /\ l[i + 1][3] = 0)
    /\ Owners(l) = DOMAIN req
    /\ Cardinality({i \in DOMAIN l : l[i][3] # 0}) = Cardinality(DOMAIN req)
    /\ \A id \in DOMAIN req : ChunkOf(l, id)[2] >= req[id]
Others(a, b, id) == \A x \in (Owners(a) \cap Owners(b)) \ {id} : ChunkOf(a, x) = ChunkOf(b, x)
Fits(l, n) == {i \in FreeIdx(l) : l[i][2] >= n}
Choice(s, n) ==
    LET c == Fits(s.l, n) IN
    CASE s.pol = 0 -> c
      [] s.pol = 1 -> {i \in c : \A j \in c : s.l[i][2] <= s.l[j][2]}
      [] s.pol = 2 -> {i \in c : \A j \in c : s.l[i][2] >= s.l[j][2]}
Inside(c, f) == c[1] >= f[1] /\ c[1] + H + c[2] <= f[1] + H + f[2]
Set1(m, x, v) == [y \in DOMAIN m \cup {x} |-> IF y = x THEN v ELSE m[y]]
Del1(m, x) == [y \in DOMAIN m \ {x} |-> m[y]]
(* dead: released blocks whose old header still lies in free memory, so that releasing or resizing them again must be refused *)
Done(s, l, req, ret) == [s |-> [s EXCEPT !.l = l, !.req = req], r |-> <<ret, Avail(l), 1, 1>>]
(* the implementation's layout after taking n bytes of chunk i for id *)
Split(l, i, n, id) ==
    LET c == l[i] IN
    IF c[2] - n < H + 32 THEN [l EXCEPT ![i] = <<c[1], c[2], id>>]
    ELSE Take(l, i - 1) \o <<<<c[1], n, id>>, <<c[1] + H + n, c[2] - n - H, 0>>>> \o Drop(l, i)
Merge(l) ==
    LET Add(acc, c) == IF acc # <<>> /\ acc[Len(acc)][3] = 0 /\ c[3] = 0
                       THEN Append(Take(acc, Len(acc) - 1), <<acc[Len(acc)][1], acc[Len(acc)][2] + H + c[2], 0>>) ELSE Append(acc, c)
    IN Fold(Add, <<>>, l)
IdxOf(l, id) == CHOOSE i \in DOMAIN l : l[i][3] = id
FreeL(l, id) == Merge([l EXCEPT ![IdxOf(l, id)] = <<@[1], @[2], 0>>])
None(s) == Done(s, s.l, s.req, 0)
AllocM(s, id, n) ==
    IF Fits(s.l, Al(n)) = {} THEN {None(s)}
    ELSE {Done(s, Split(s.l, i, Al(n), id), Set1(s.req, id, n), 1) : i \in Choice(s, Al(n))}
AllocC(s, id, n, l) ==
    IF l = s.l THEN IF n > 0 /\ Fits(s.l, Al(n)) # {} THEN {} ELSE {None(s)}
    ELSE LET req == Set1(s.req, id, n) IN
         IF WF(s, l, req) /\ Others(s.l, l, id) /\ \E i \in Choice(s, n) \cup Choice(s, Al(n)) : Inside(ChunkOf(l, id), s.l[i])
         THEN {Done(s, l, req, 1)} ELSE {}
FreeC(s, id, l) == LET req == Del1(s.req, id) IN IF WF(s, l, req) /\ Others(s.l, l, id) THEN {Done(s, l, req, 1)} ELSE {}
(* a block and the free chunk that follows it *)
Room(l, id) == LET i == IdxOf(l, id) IN l[i][2] + IF i < Len(l) /\ l[i + 1][3] = 0 THEN H + l[i + 1][2] ELSE 0
ReallocM(s, id, n) ==
    LET i == IdxOf(s.l, id)  c == s.l[i]  m == Al(n)  k == Room(s.l, id) IN
    IF c[2] >= n THEN {Done(s, s.l, Set1(s.req, id, n), 1)}
    ELSE IF k >= m /\ k > c[2] THEN {Done(s, Split(Take(s.l, i - 1) \o <<<<c[1], k, id>>>> \o Drop(s.l, i + 1), i, m, id), Set1(s.req, id, n), 1)}
    ELSE IF Fits(s.l, m) = {} THEN {None(s)}
    ELSE {Done(s, FreeL(Split([s.l EXCEPT ![i] = <<@[1], @[2], -1>>], j, m, id), -1), Set1(s.req, id, n), 1) : j \in Choice(s, m)}
ReallocC(s, id, n, l, ret) ==
    IF ret = 0 THEN IF l # s.l \/ Room(s.l, id) >= Al(n) \/ Fits(s.l, Al(n)) # {} THEN {} ELSE {None(s)}
    ELSE LET req == Set1(s.req, id, n) IN
         IF WF(s, l, req) /\ Others(s.l, l, id) THEN {Done(s, l, req, 1)} ELSE {}
Do(s, op, a) ==
    CASE op = "new" -> {[s |-> [k |-> "mem", pol |-> a[1], R |-> a[2], l |-> <<<<0, Even(a[2]) - H, 0>>>>, req |-> <<>>, dead |-> <<>>], r |-> 0]}
      [] op = "alloc" -> IF a[1] \in DOMAIN s.req THEN {} ELSE IF Len(a) = 2 THEN AllocM(s, a[1], Num(a[2])) ELSE AllocC(s, a[1], Num(a[2]), a[3])
      [] op = "free" -> IF a[1] \notin DOMAIN s.req THEN {Done(s, s.l, s.req, -1)}
                        ELSE IF Len(a) = 1 THEN {Done(s, FreeL(s.l, a[1]), Del1(s.req, a[1]), 1)} ELSE FreeC(s, a[1], a[2])
      [] op = "realloc" -> IF a[1] \notin DOMAIN s.req THEN {Done(s, s.l, s.req, -1)}
                           ELSE IF Len(a) = 2 THEN ReallocM(s, a[1], Num(a[2])) ELSE ReallocC(s, a[1], Num(a[2]), a[3], a[4])
      [] op \in {"refree", "rerealloc"} -> {Done(s, s.l, s.req, IF a[1] \in DOMAIN s.dead THEN 0 ELSE -1)}
      [] op = "freeall" -> {Done(s, <<<<0, Even(s.R) - H, 0>>>>, <<>>, 1)}
Untouched(l, d) == \E i \in FreeIdx(l) : d = l[i][1] \/ (d >= l[i][1] + H /\ d <= l[i][1] + l[i][2])
Dead(s, n, op, a) ==
    LET m == IF op = "freeall" THEN <<>> ELSE IF op = "free" /\ a[1] \in DOMAIN s.req THEN Set1(s.dead, a[1], ChunkOf(s.l, a[1])[1]) ELSE s.dead
        live == {x \in DOMAIN m : x \notin DOMAIN n.req /\ Untouched(n.l, m[x])}
    IN [x \in live |-> m[x]]
Step(s, op, a) == {IF op = "new" THEN o ELSE [o EXCEPT !.s.dead = Dead(s, o.s, op, a)] : o \in Do(s, op, a)}
Inv(s) == s.k = "mem" => WF(s, s.l, s.req)
=============================================================================
