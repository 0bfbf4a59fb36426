----------------------------- MODULE MC_SegTree -----------------------------
EXTENDS SegTree
Ivs == {<<<<0, 4>>, <<1, 1>>, <<2, 3>>, <<2, 5>>, <<4, 4>>>>, <<<<0, 0>>, <<0, 6>>, <<1, 2>>, <<3, 3>>, <<5, 6>>>>}
R == {<<0, 0>>, <<0, 6>>, <<1, 1>>, <<3, 3>>, <<2, 4>>, <<5, 5>>, <<6, 6>>}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<t, sc, p>>>> : t \in 0..1, sc \in {0, 1, 3}, p \in Ivs}
    ELSE UNION {{<<"insert", <<n>>>> : n \in {n \in Nodes(s) : ~In(s, n)}},
                {<<"delete", <<n>>>> : n \in RangeOf(s.q)}, {<<"dump", <<0>>>>},
                {<<"query", p>> : p \in R},
                UNION {{<<"resume", <<p[1], p[2], x>>>> : x \in RangeOf(Hits(s, p[1], p[2]))} : p \in R}}
Bound(s) == TRUE
=============================================================================
