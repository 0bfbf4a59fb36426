----------------------------- MODULE MC_HashMap -----------------------------
EXTENDS HashMap
CONSTANTS N, NT
Ids(s) == {p[1] : p \in s.m}
InT(s) == UNION {RangeOf(s.t[i]) : i \in DOMAIN s.t}
(* nodes 1..N; key of a node is free; large counts come from the random histories *)
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<mo, h>>>> : mo \in 0..1, h \in {0, 1}} \cup {<<"tnew", <<b, h>>>> : b \in {1, 2}, h \in {0, 1}}
    ELSE IF s.k = "map" THEN
        UNION {{<<"insert", <<n, k, st, hk, f>>>> : n \in {x \in 1..N : x \notin Ids(s) /\ \A y \in 1..(x - 1) : y \in Ids(s)}, k \in 1..3, st \in 0..3,
                                                    hk \in 0..s.mode, f \in 0..1},
               {<<"del", <<k, hk, f>>>> : k \in 1..3, hk \in 0..s.mode, f \in 0..1},
               {<<"find", <<k>>>> : k \in 1..4}, {<<"dump", <<>>>>, <<"release", <<>>>>}}
    ELSE UNION {{<<"tadd", <<n, k>>>> : n \in (1..NT) \ InT(s), k \in 1..3}, {<<"tdel", <<n>>>> : n \in InT(s)},
                {<<"tempty", <<>>>>, <<"tdump", <<>>>>, <<"tdrain", <<0>>>>}, {<<"tfind", <<k>>>> : k \in DOMAIN s.ix}}
Bound(s) == s.k = "map" => s.bits <= 6
=============================================================================
