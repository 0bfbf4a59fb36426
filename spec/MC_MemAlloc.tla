---------------------------- MODULE MC_MemAlloc ----------------------------
EXTENDS MemAlloc
CONSTANTS N, Sizes
L(n) == <<n, 0, 0, 0>>
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<p, r>>>> : p \in 0..2, r \in {440}}
    ELSE UNION {{<<"alloc", <<i, L(n)>>>> : i \in {x \in 1..N : x \notin DOMAIN s.req}, n \in Sizes},
                {<<"alloc", <<N + 1, <<65535, 65535, 65535, 65535>>>>>>}, {<<"free", <<i>>>> : i \in DOMAIN s.req},
                {<<"realloc", <<i, L(n)>>>> : i \in DOMAIN s.req, n \in Sizes}, {<<"freeall", <<>>>>},
                {<<o, <<i>>>> : o \in {"refree"}, i \in DOMAIN s.dead}, {<<"rerealloc", <<i, L(100)>>>> : i \in DOMAIN s.dead}}
Bound(s) == TRUE
=============================================================================
