---- MODULE MC_Digest ----
EXTENDS Digest
CONSTANT Long, Chunks, Algs
Msg(n) == [i \in 1..n |-> ((i * i * 7 + i * 13) \div 3) % 256]
Chunk(from, n) == [i \in 1..n |-> (((from + i) * (from + i) * 7 + (from + i) * 13) \div 3) % 256]
Cmds(s) == IF s.k # "open" THEN {<<"init", <<x>>>> : x \in Algs}
           ELSE {<<"update", <<Chunk(Len(s.m), n), (Len(s.m) + n) % 5>>>> : n \in {c \in Chunks : Len(s.m) + c <= Long}}
                \cup {<<"finish", <<0>>>>} \cup {<<"init", <<x>>>> : x \in IF Len(s.m) \in {5, 64, 70} THEN Algs ELSE {}}
Bound(s) == TRUE
====
