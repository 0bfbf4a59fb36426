---------------------------- MODULE MC_AllocPool ----------------------------
EXTENDS AllocPool
CONSTANT N
L(n) == <<n, 0, 0, 0>>
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<b, z>>>> : b \in {0, 1, 20}, z \in {0, 24, 40}}
    ELSE UNION {{<<"alloc", <<i, L(n), al>>>> : i \in {x \in 1..N : x \notin DOMAIN s.p}, n \in {0, 1, 8, 15}, al \in {0, 1, 16}},
                {<<"alloc", <<N + 1, x, 8>>>> : x \in {<<65535, 65535, 65535, 65535>>, <<65520, 65535, 65535, 65535>>}},
                {<<"free", <<i>>>> : i \in DOMAIN s.p}, {<<"reset", <<>>>>}}
Bound(s) == TRUE
=============================================================================
