------------------------------ MODULE MC_Heap ------------------------------
EXTENDS Heap
Keys == {<<1, 2, 3, 2, 1, 4>>, <<3, 3, 3, 3, 1, 2>>, <<6, 5, 4, 3, 2, 1>>}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<ds, p>>>> : ds \in 0..1, p \in Keys}
    ELSE UNION {{<<"insert", <<n>>>> : n \in Nodes(s) \ s.in}, {<<"delete", <<n>>>> : n \in s.in \cup s.poison},
                {<<"dump", <<x>>>> : x \in s.in \cup {0}},
                IF s.in # {} THEN {<<"destroy", <<v>>>> : v \in 0..5} ELSE {}}
Bound(s) == TRUE
=============================================================================
