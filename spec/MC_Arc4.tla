---- MODULE MC_Arc4 ----
EXTENDS Arc4
CONSTANT Long, Pieces
Keys == {<<0>>, <<255>>, <<1, 2, 3, 4, 5>>, [i \in 1..256 |-> 256 - i], [i \in 1..300 |-> (i * 3) % 256]}
Data(n) == [i \in 1..n |-> (n * 31 + i * 5) % 256]
Cmds(s) == {<<"setkey", <<k>>>> : k \in IF s.k = "null" \/ s.n \in {0, 3} THEN Keys ELSE {}}
           \cup (IF s.k = "null" THEN {} ELSE {<<"trans", <<Data(n), ip>>>> : n \in {p \in Pieces : s.n + p <= Long}, ip \in {0, 1}})
Bound(s) == TRUE
====
