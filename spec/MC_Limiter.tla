------------------------------ MODULE MC_Limiter ------------------------------
EXTENDS Limiter
CONSTANT T
Now(s) == IF s.k = "rate" THEN s.begin ELSE s.last
Times(s) == LET n == Now(s) IN
    {<<n[1], n[2] + d>> : d \in 0..4} \cup {<<n[1] + 1, n[2]>>, <<n[1] + 1, n[2] + 1>>, <<n[1] + 2, 3>>, <<n[1], Max2(0, n[2] - 1)>>} 
Cmds(s) ==
    IF s.k = "null" THEN {<<"rate", <<iv, b>>>> : iv \in {<<0, 0>>, <<0, 1>>, <<0, 3>>, <<1, 0>>, <<1, 1>>, <<-1, 0>>}, b \in {0, 1, 3, -1}}
                         \cup {<<"bucket", <<iv, c>>>> : iv \in {0, 1, 2, 3, 105}, c \in {0, 1, 3, -1, -2}}
    ELSE UNION {{<<"call", <<t>>>> : t \in Times(s) \ {Zero}}, {<<"reset", <<>>>>},
                IF s.k = "bucket" THEN {<<"skip", <<t>>>> : t \in Times(s) \ {Zero}} ELSE {}}
Bound(s) == s.k = "null" \/ (Now(s)[1] <= 2 /\ Now(s)[2] <= T /\ s.passed + s.missed <= T)
=============================================================================
