--------------------------- MODULE MC_Levenshtein ---------------------------
EXTENDS Levenshtein
CONSTANT N
Strs(A, n, m) == UNION {[1..i -> A] : i \in n..m}
Weights == {<<1, 1, 1, 1>>, <<2, 1, 3, 5>>, <<9, 2, 1, 4>>, <<0, 3, 2, 2>>}
Cmds(s) == IF s.k # "null" THEN {} ELSE
    {<<"dist", <<x, y, w, 0>>>> : x \in Strs({97, 98, 99}, 0, 2), y \in Strs({97, 98, 99}, 0, 2), w \in Weights}
    \cup {<<"dist", <<x, y, w, 0>>>> : x \in Strs({97, 98}, 3, N), y \in Strs({97, 98}, 0, N), w \in {<<3, 1, 2, 2>>, <<5, 1, 3, 1>>}}
    \cup {<<"dist", <<x, <<97>>, <<1, 1, 1, 1>>, 1>>>> : x \in Strs({97, 98}, 0, 2)}
Bound(s) == TRUE
=============================================================================
