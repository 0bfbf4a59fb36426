----------------------------- MODULE MC_Matrix -----------------------------
EXTENDS Matrix
CONSTANT Max
F8 == <<255, 255, 255, 255, 255, 255, 255, 255>>
X8 == <<3, 250, 17, 99, 200, 1, 0, 128>>
N8(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
Fill(q, n) == Flatten([i \in 1..n |-> IF q = 1 THEN N8(i) ELSE IF i % 3 = 0 THEN F8 ELSE IF i % 3 = 1 THEN X8 ELSE N8(20 + i)])
Shapes == {p \in (1..Max) \X (1..Max) : TRUE}
Cmds(s) ==
    IF s.k = "null" \/ s.m[1] = None THEN {<<"import", <<1, p[1], p[2], Fill(1, p[1] * p[2])>>>> : p \in Shapes}
    ELSE IF s.m[2] = None THEN {<<"import", <<2, p[1], p[2], Fill(2, p[1] * p[2])>>>> : p \in Shapes}
    ELSE IF s.m[3] = None /\ s.m[1].v[1] = N8(1) /\ (Len(s.m[1].v) = 1 \/ s.m[1].v[2] = N8(2)) /\ s.m[2].v[1] = X8 THEN
        UNION {{<<op, <<d, x, 3 - x>>>> : op \in {"add", "sub", "mul"}, d \in 1..3, x \in 1..2},
               {<<op, <<d, 1, 1>>>> : op \in {"add", "sub", "mul"}, d \in {1, 3}},
               {<<op, <<d, 1>>>> : op \in {"trans", "set"}, d \in 1..3},
               {<<"data", <<1, i, j>>>> : i \in 0..Max, j \in 0..Max},
               {<<"release", <<1>>>>, <<"live", <<1>>>>, <<"huge", <<1>>>>}}
    ELSE {}
Bound(s) == TRUE
=============================================================================
