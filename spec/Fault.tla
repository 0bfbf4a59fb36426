-------------------------------- MODULE Fault --------------------------------
(* Allocation failures in every component that takes an allocator.  The environment's plan is a window: from the start
   of the history the n-th to the (n + w - 1)-th allocation fail.  x is the state of the component's own specification;
   c counts the allocations made so far.  An observed call carries how many allocations it made (m) and how many of them
   failed (f): the window decides f, and f > 0 decides which outcomes the component's specification allows: failure
   reported and the content kept (or, where documented below, what else may have happened), every later call normal.   *)
EXTENDS Lib
A == INSTANCE Array
Q == INSTANCE Queue
BT == INSTANCE BTree
HM == INSTANCE HashMap
SL == INSTANCE SkipList
RX == INSTANCE Radix
CA == INSTANCE Cache
BL == INSTANCE Bloom
FS == INSTANCE Fsm
MP == INSTANCE Mpi
MX == INSTANCE Matrix
AV == INSTANCE Argv
LV == INSTANCE Levenshtein
TS == INSTANCE TextSearch
TX == INSTANCE Text
BM == INSTANCE BitMap

Normal(comp, x, op, a) ==
    CASE comp = "array" -> A!Step(x, op, a)       [] comp = "queue" -> Q!Step(x, op, a)
      [] comp = "btree" -> BT!Step(x, op, a)      [] comp = "hashmap" -> HM!Step(x, op, a)
      [] comp = "skiplist" -> SL!Step(x, op, a)   [] comp = "radix" -> RX!Step(x, op, a)
      [] comp = "cache" -> CA!Step(x, op, a)      [] comp = "bloom" -> BL!Step(x, op, a)
      [] comp = "fsm" -> FS!Step(x, op, a)        [] comp = "mpi" -> MP!Step(x, op, a)
      [] comp = "matrix" -> MX!Step(x, op, a)     [] comp = "argv" -> AV!Step(x, op, a)
      [] comp = "levenshtein" -> LV!Step(x, op, a) [] comp = "textsearch" -> TS!Step(x, op, a)
      [] comp = "text" -> TX!Step(x, op, a)       [] comp = "bitmap" -> BM!Step(x, op, a)
\* the same call with its failure argument (the k-th) set
With1(a, k, v) == [i \in 1..Max2(Len(a), k) |-> IF i = k THEN v ELSE a[i]]
Armed(x, mod(_, _, _), op, a) == UNION {mod(o.s, op, a) : o \in mod(x, "arm", <<1>>)}
(* outcomes of a call during which at least one allocation failed *)
Failed(comp, x, op, a) ==
    CASE comp = "array" /\ op \in {"push", "resize", "reserve"} ->
           {[s |-> o.s, r |-> Tail(o.r)] : o \in {z \in A!Step(x, "oom", <<op>> \o a) : z.r[1] = <<1>>}}
      [] comp = "queue" /\ op = "alloc" -> Q!NoMem(x)
      [] comp = "btree" /\ op = "insert" -> {o \in BT!Step(x, op, With1(a, 3, 1)) : o.r = <<-12, 1>>}
      [] comp = "hashmap" /\ op = "insert" -> {o \in HM!Step(x, op, With1(a, 5, 1)) : o.r[3] = 1}
      \* a deletion succeeds even if the table cannot shrink
      [] comp = "hashmap" /\ op = "del" -> {o \in HM!Step(x, op, With1(a, 3, 1)) : o.r[3] = 1}
      [] comp = "skiplist" /\ op \in {"new", "insert"} -> SL!Step(x, op, With1(a, 3, 1))
      [] comp = "radix" /\ op = "alloc" -> {o \in RX!Step(x, op, With1(a, 3, 1)) : o.r[3] = 1}
      \* the blocks charged before the failure stay
      [] comp = "radix" /\ op = "charge" -> {o \in RX!Step(x, op, With1(a, 3, 1)) : o.r[2] = 1}
      [] comp = "cache" /\ op = "new" -> CA!Step(x, op, With1(a, 4, 1))
      [] comp = "bloom" /\ op = "new" -> BL!Step(x, op, With1(a, 4, 1))
      \* the transition has happened when the state cannot be remembered; callbacks may have failed before that
      [] comp = "fsm" /\ op = "handle" ->
           {o \in UNION {FS!Step(x, op, With1(With1(a, 5, 1), 6, room)) : room \in 0..8} : o.r[1] = FS!ENOMEM}
      \* the destinations hold some canonical number, observed later
      [] comp = "mpi" -> {o \in Armed(x, MP!Step, op, a) : o.r \in {<<<<MP!NoMem>>>>, <<<<MP!DivZero>>>>}}
      [] comp = "matrix" /\ op \in {"import", "add", "sub", "mul", "trans", "set"} ->
           {o \in Armed(x, MX!Step, op, a) : o.r[1] # 0}
      [] comp = "argv" /\ op = "split" -> AV!Step(x, op, With1(a, 2, 1))
      [] comp = "levenshtein" -> {[s |-> x, r |-> -1]}
      [] comp = "textsearch" /\ op = "create" -> TS!Step(x, op, With1(a, 4, 1))
      [] comp = "text" /\ op = "dup" -> TX!Step(x, "dupfail", a)
      [] comp = "bitmap" /\ op = "alloc" -> {[s |-> x, r |-> <<0, 0>>]}
      [] comp = "bitmap" /\ op = "zalloc" -> {[s |-> x, r |-> <<0, 1, 0>>]}
      [] OTHER -> Normal(comp, x, op, a)           \* no other call depends on memory it may not get

Hits(s, m) == Cardinality({i \in (s.c + 1)..(s.c + m) : i >= s.n /\ i < s.n + s.w})
Do(s, op, a, m, f) ==
    IF f # Hits(s, m) THEN {}
    ELSE {[s |-> [s EXCEPT !.x = o.s, !.c = @ + m], r |-> o.r] :
          o \in IF f = 0 THEN Normal(s.comp, s.x, op, a) ELSE Failed(s.comp, s.x, op, a)}
Step(s, op, a) ==
    CASE op = "plan" -> {[s |-> [k |-> "fault", comp |-> a[1], n |-> a[2], w |-> a[3], c |-> 0, x |-> [k |-> "null"]], r |-> 0]}
      [] s.k = "null" -> {}
      [] op = "do" -> Do(s, a[1], a[2], a[3], a[4])

(* the component specifications' own invariants hold whatever fails *)
Inv(s) == s.k = "fault" => s.x.k = "null" \/
    CASE s.comp = "array" -> A!Inv(s.x)       [] s.comp = "queue" -> Q!Inv(s.x)
      [] s.comp = "btree" -> BT!Inv(s.x)      [] s.comp = "hashmap" -> HM!Inv(s.x)
      [] s.comp = "skiplist" -> SL!Inv(s.x)   [] s.comp = "radix" -> RX!Inv(s.x)
      [] s.comp = "cache" -> CA!Inv(s.x)      [] s.comp = "bloom" -> BL!Inv(s.x)
      [] s.comp = "fsm" -> FS!Inv(s.x)        [] s.comp = "mpi" -> MP!Inv(s.x)
      [] s.comp = "matrix" -> MX!Inv(s.x)     [] OTHER -> TRUE
=============================================================================
