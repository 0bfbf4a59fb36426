------------------------------ MODULE MC_IList ------------------------------
EXTENDS IList
CONSTANT PRIOS
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<d, p>>>> : d \in 0..1, p \in PRIOS}
    ELSE UNION {{<<o, <<n>>>> : o \in {"add", "del"}, n \in Nodes(s)},
                {<<"walk", <<0, r, sf, 0, 0>>>> : r \in 0..1, sf \in 0..1},
                {<<"walk", <<0, r, 1, 0, 1>>>> : r \in 0..1},
                {<<"walk", <<m, r, sf, n, 0>>>> : m \in 1..2, r \in 0..1, sf \in 0..1, n \in RangeOf(s.q)},
                {<<"walk", <<m, r, 1, n, 1>>>> : m \in 1..2, r \in 0..1, n \in RangeOf(s.q)}}
Bound(s) == TRUE
=============================================================================
