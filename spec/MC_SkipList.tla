----------------------------- MODULE MC_SkipList -----------------------------
EXTENDS SkipList
Keys == {<<1, 2, 3, 2>>, <<2, 2, 1, 2>>, <<4, 3, 2, 1>>}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<lv, p, f>>>> : lv \in 0..3, p \in Keys, f \in 0..1}
    ELSE UNION {{<<"insert", <<n, l, f>>>> : n \in Ids(s) \ s.in, l \in 1..(s.lv + 1), f \in 0..1},
                {<<"find", <<v>>>> : v \in 0..5}, {<<"delete", <<v>>>> : v \in 0..5},
                {<<"dump", <<x, l>>>> : x \in s.in \cup {0}, l \in 0..(s.lv - 1)},
                {<<"reset", <<>>>>, <<"destroy", <<>>>>}}
Bound(s) == TRUE
=============================================================================
