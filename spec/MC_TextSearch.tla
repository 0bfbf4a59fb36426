---------------------------- MODULE MC_TextSearch ----------------------------
EXTENDS TextSearch
CONSTANTS PLen, TLen, BLen
Strs(A, n, m) == UNION {[1..i -> A] : i \in n..m}
Splits(n) == {q \in UNION {[1..i -> 1..n] : i \in 1..Min2(n, 3)} : SumSeq(q) = n}
Cmds(s) ==
    IF s.k = "null" \/ ~Has0(s)
    THEN UNION {{<<"create", <<al, p, 0, 0>>>> : al \in Algos, p \in Strs({97, 98}, 1, PLen)},
                {<<"create", <<al, p, 1, 0>>>> : al \in Algos, p \in Strs({65, 97}, 1, 2) \cup Strs({200, 66}, 2, 2)},
                {<<"create", <<"none", <<97>>, 0, 0>>>>}, {<<"create", <<al, <<97, 98>>, 0, 1>>>> : al \in Algos},
                {<<"register", <<i, j>>>> : i \in 1..2, j \in {0, 1, 2, 3, 4, 5, 6}}, {<<"unregister", <<i>>>> : i \in 1..2},
                {<<"uses", <<i>>>> : i \in 1..2}, {<<"taken", <<>>>>}}
    ELSE IF s.mode = 0 /\ s.user = {} THEN UNION {
        {<<"linear", <<1, t>>>> : t \in Strs(IF s.c.f = 1 THEN {65, 98} ELSE {97, 98}, 0, TLen)},
        UNION {{<<"find", <<1, t, g>>>> : t \in Strs(IF s.c.f = 1 THEN {65, 98} ELSE {97, 98}, n, n), g \in Splits(n)} : n \in {BLen}},
        {<<"destroy", <<>>>>, <<"pattern", <<>>>>}}
    ELSE {<<"next", <<1>>>>, <<"again", <<1>>>>, <<"destroy", <<>>>>}
Bound(s) == s.k = "null" \/ (s.ss[1].off <= 4 /\ (s.user = {} \/ s.mode = 0))
=============================================================================
