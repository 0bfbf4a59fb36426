------------------------------ MODULE MC_Radix ------------------------------
EXTENDS Radix
CONSTANT NIdx
(* indexes in the first block, the second, other levels, and the largest ones *)
Idx == Take(<<<<0, 0, 0, 0>>, <<8192, 0, 0, 0>>, <<3, 0, 0, 0>>, <<300, 0, 0, 0>>, <<0, 4, 0, 0>>, <<7, 0, 0, 1>>>>, NIdx)
Top1 == <<65535, 65535, 65535, 65535>>
I(s) == RangeOf(Idx) \cup IF s.sel = 0 THEN {Top1} ELSE {}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<l>>>> : l \in {0, 5, 3}}
    ELSE UNION {{<<"alloc", <<i, 1 + (i[1] % 100), f>>>> : i \in I(s), f \in {0, 1, 2}}, {<<"find", <<i>>>> : i \in I(s)},
                {<<"free", <<i>>>> : i \in I(s)}, {<<"next", <<i>>>> : i \in I(s)}, {<<"prev", <<i>>>> : i \in I(s)},
                {<<"first", <<>>>>, <<"last", <<>>>>, <<"release", <<>>>>}, {<<"dump", <<i>>>> : i \in I(s)},
                {<<"drain", <<r>>>> : r \in 0..1},
                IF s.sel = 0 THEN {<<"charge", <<Top1, 1, 0>>>>} ELSE {}}
Bound(s) == TRUE
=============================================================================
