------------------------------ MODULE MC_Bloom ------------------------------
EXTENDS Bloom
CONSTANT Keys
Ix(s, key) == IF key \in DOMAIN s.map THEN s.map[key] ELSE [i \in 1..s.funcs |-> (key * i * 7) % 5]
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<c, n, h, f>>>> : c \in {1, 64, 200}, n \in 1..2, h \in {3}, f \in 0..1}
    ELSE UNION {{<<"push", <<k, Ix(s, k)>>>> : k \in 1..Keys}, {<<"peek", <<k, Ix(s, k)>>>> : k \in 1..Keys},
                {<<"flush", <<>>>>, <<"bits", <<>>>>, <<"destroy", <<>>>>}}
Bound(s) == TRUE
=============================================================================
