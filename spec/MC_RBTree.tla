----------------------------- MODULE MC_RBTree -----------------------------
EXTENDS RBTree
Keys == {<<1, 2, 3, 4, 2>>, <<3, 1, 2, 5, 4>>}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<kd, ds, p>>>> : kd \in 0..3, ds \in 0..1, p \in Keys}
    ELSE UNION {{<<o, <<n>>>> : o \in {"insert", "finsert"}, n \in {n \in Nodes(s) : ~In(s, n)}},
                {<<"delete", <<n>>>> : n \in RangeOf(s.q) \cup s.poison},
                UNION {{<<"replace", <<x, y>>>> : y \in {y \in Nodes(s) : ~In(s, y) /\ s.key[y] = s.key[x]}} : x \in RangeOf(s.q)},
                {<<"find", <<key>>>> : key \in 0..6}, {<<"dump", <<x>>>> : x \in RangeOf(s.q) \cup {0}},
                IF s.q # <<>> THEN {<<"destroy", <<v>>>> : v \in 0..5} ELSE {}}
Bound(s) == TRUE
=============================================================================
