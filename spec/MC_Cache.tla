------------------------------ MODULE MC_Cache ------------------------------
EXTENDS Cache
CONSTANT T
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<l, 2, p, 0>>>> : l \in 0..1, p \in 1..2} \cup {<<"new", <<l, z, 1, f>>>> : l \in 0..2, z \in {0, 1, 3}, f \in 0..2} \cup {<<"regs", <<>>>>}
    ELSE IF s.k = "reg" THEN {<<"reg", <<w>>>> : w \in 0..4}
    ELSE IF s.size > 2 THEN {<<"obtain", <<1, 1>>>>, <<"destroy", <<>>>>}
    ELSE UNION {{<<"obtain", <<t, f>>>> : t \in 1..T, f \in 0..3}, {<<"put", <<t>>>> : t \in DOMAIN s.n}, {<<"del", <<t>>>> : t \in DOMAIN s.n},
                {<<"set", <<t, u>>>> : t \in DOMAIN s.n, u \in 1..T}, {<<"idle", <<>>>>, <<"commit", <<>>>>, <<"reset", <<>>>>, <<"dump", <<>>>>, <<"destroy", <<>>>>}}
Bound(s) == s.k = "cache" => \A t \in DOMAIN s.n : s.n[t].ref <= 2 /\ s.n[t].cnt <= 2
=============================================================================
