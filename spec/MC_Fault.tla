------------------------------ MODULE MC_Fault ------------------------------
EXTENDS Fault
CONSTANTS NMax, Ws
Plans == {<<c, n, w>> : c \in {"array", "btree", "queue", "radix"}, n \in 1..NMax, w \in Ws}
Ix == {<<0, 0, 0, 0>>, <<256, 0, 0, 0>>, <<0, 0, 0, 16384>>}
Calls(comp, x) ==
    CASE comp = "array" -> IF x.k = "null" THEN {<<"new", <<8>>>>}
           ELSE {<<"push", <<1, 3>>>>, <<"push", <<40, 3>>>>, <<"pop", <<40>>>>, <<"resize", <<2, 3>>>>,
                 <<"peek", <<1>>>>, <<"release", <<>>>>}
      [] comp = "queue" -> IF x.k = "null" THEN {<<"new", <<"dc", 0, 0, 0>>>>}
           ELSE IF x.size = 0 THEN {<<"alloc", <<3>>>>}
           ELSE {<<"put", <<1>>>>, <<"get", <<>>>>, <<"free", <<>>>>, <<"alloc", <<2>>>>, <<"in", <<<<4, 5, 6>>>>>>}
      [] comp = "btree" -> IF x.k = "null" THEN {<<"new", <<4, 0, 0>>>>}
           ELSE {<<"insert", <<k, k + 1, 0>>>> : k \in 1..3} \cup {<<"remove", <<k>>>> : k \in {1, 3}} \cup {<<"last", <<>>>>, <<"release", <<>>>>}
      [] comp = "radix" -> IF x.k = "null" THEN {<<"new", <<0>>>>}
           ELSE {<<"alloc", <<i, 9, 0>>>> : i \in Ix} \cup {<<"free", <<i>>>> : i \in {j \in Ix : RX!Has1(x, j)}}
                \cup {<<"charge", <<<<0, 0, 0, 0>>, 300, 0>>>>, <<"last", <<>>>>, <<"release", <<>>>>}
\* the calls that may allocate, and how many times a model call does so
May(comp, op) == <<comp, op>> \in {<<"array", "push">>, <<"array", "resize">>, <<"array", "reserve">>, <<"queue", "alloc">>,
                                   <<"btree", "insert">>, <<"radix", "alloc">>, <<"radix", "charge">>}
Cmds(s) ==
    IF s.k = "null" THEN {<<"plan", p>> : p \in Plans}
    ELSE UNION {{<<"do", <<z[1], z[2], m, Hits(s, m)>>>> : m \in IF May(s.comp, z[1]) THEN 0..2 ELSE {0}} : z \in Calls(s.comp, s.x)}
Bound(s) == s.k = "fault" =>
    /\ s.c <= s.n + 2
    /\ s.x.k = "array" => Len(s.x.seq) <= 42
    /\ s.x.k = "queue" => Len(s.x.q) <= 2
(* what a call during which an allocation fails may do to the content: nothing, but for the blocks already charged *)
Content(comp, x) == CASE comp = "array" -> x.seq [] comp = "queue" -> x.q [] comp = "btree" -> x.m [] comp = "radix" -> x.m
MCInv(s) == s.k = "fault" /\ s.x.k # "null" =>
    \A z \in Calls(s.comp, s.x) : \A o \in Failed(s.comp, s.x, z[1], z[2]) :
        May(s.comp, z[1]) =>
            \/ Content(s.comp, o.s) = Content(s.comp, s.x)
            \/ s.comp = "queue" /\ o.s.q = <<>>                      \* allocating first gives up the old buffer
            \/ z[1] = "charge" /\ s.x.m \subseteq o.s.m
=============================================================================
