---------------------------- MODULE MC_Allocator ----------------------------
EXTENDS Allocator
CONSTANTS N, Masks
L(n) == <<n, 0, 0, 0>>
Free0(s) == {x \in 1..N : x \notin DOMAIN s.b}
ArrN == {<<L(0), L(3)>>, <<L(3), L(5)>>, <<<<0, 0, 0, 32768>>, L(4)>>, <<L(24), <<0, 0, 0, 8192>>>>, <<<<0, 0, 1, 0>>, <<0, 0, 2, 0>>>>, <<<<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 65535>>>>}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<m, x>>>> : m \in 0..4, x \in Masks}
    ELSE UNION {{<<o, <<i, n, f>>>> : o \in {"malloc", "zalloc"}, i \in Free0(s), n \in {0, 1, 24}, f \in 0..1},
                {<<"realloc", <<i, n, f>>>> : i \in 1..N, n \in {0, 8, 40}, f \in 0..1}, {<<"free", <<i>>>> : i \in 1..N},
                {<<o, <<i, x[1], x[2], 0>>>> : o \in {"amalloc", "azalloc"}, i \in Free0(s), x \in ArrN},
                {<<"arealloc", <<i, x[1], x[2], 0>>>> : i \in 1..N, x \in ArrN}, {<<"end", <<>>>>}}
Bound(s) == TRUE
=============================================================================
