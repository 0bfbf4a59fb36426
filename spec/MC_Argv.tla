------------------------------ MODULE MC_Argv ------------------------------
EXTENDS Argv
CONSTANT N
Strs(A, n, m) == UNION {[1..i -> A] : i \in n..m}
Cmds(s) == IF s.k # "null" THEN {} ELSE
    {<<"count", <<t>>>> : t \in Strs({97, 32}, 0, N)} \cup {<<"split", <<t, 0, 1>>>> : t \in Strs({97, 32}, 0, N)}
    \cup {<<"split", <<t, 0, 0>>>> : t \in Strs({98, 9, 13, 10, 11}, 0, 4)} \cup {<<"split", <<t, 1, 1>>>> : t \in Strs({98, 9}, 0, 2)}
    \cup {<<"split", <<<<c>>, 0, 1>>>> : c \in 1..255} \cup {<<"split", <<<<97, c, 98>>, 0, 1>>>> : c \in 1..255}
Bound(s) == TRUE
=============================================================================
