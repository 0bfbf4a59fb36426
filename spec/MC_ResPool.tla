------------------------------ MODULE MC_ResPool ------------------------------
EXTENDS ResPool
CONSTANT N
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<m>>>> : m \in 0..2}
    ELSE UNION {
        {<<"insert", <<i, k>>>> : i \in {j \in 1..N : ~Live(s, j)}, k \in 1..2},
        {<<o, <<i>>>> : o \in {"remove", "release"}, i \in {j \in 1..N : Live(s, j)}},
        {<<o, <<k>>>> : o \in {"find", "find_remove", "find_release"}, k \in 1..2},
        {<<"release_all", <<>>>>}}
Bound(s) == TRUE
=============================================================================
