------------------------------ MODULE MC_BTree ------------------------------
EXTENDS BTree
CONSTANT KMax
Veto(s) == {p \in s.m : s.veto = 1 /\ p[2] % 5 = 0}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<l, l % 2, v>>>> : l \in {3, 4, 5}, v \in 0..1}
    ELSE UNION {{<<"insert", <<k, k + 2, f>>>> : k \in 1..KMax, f \in 0..1}, {<<"insert", <<1, 0, 0>>>>},
                {<<"update", <<k, k + 2>>>> : k \in 1..KMax},
                {<<"remove", <<k>>>> : k \in 1..KMax}, {<<"lookup", <<k>>>> : k \in 1..KMax},
                {<<"next", <<k>>>> : k \in Keys(s)}, {<<"prev", <<k>>>> : k \in Keys(s)},
                {<<"first", <<>>>>, <<"last", <<>>>>}, {<<"drain", <<r>>>> : r \in 0..1},
                IF Veto(s) = {} THEN {<<"release", <<>>>>} ELSE {},
                {<<"dump", <<x>>>> : x \in Keys(s) \cup {0}}}
Bound(s) == TRUE
=============================================================================
