------------------------------ MODULE MC_Queue ------------------------------
EXTENDS Queue
CONSTANT Ring
\* plain queues of 2 and 4 elements, records in 8 cells with a 1-byte header and in a dynamic buffer with a 2-byte header
Vs(n) == [j \in 1..n |-> n]
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<"c2", 2, 0, Ring>>>>, <<"new", <<"i4", 4, 0, Ring>>>>,
                          <<"new", <<"r8", 8, 1, Ring>>>>, <<"new", <<"d2", 0, 2, Ring>>>>, <<"new", <<"ds", 0, 0, Ring>>>>}
    ELSE IF s.size = 0 THEN {<<"alloc", <<n>>>> : n \in {0, 1, IF s.rec > 0 THEN 7 ELSE 2}} \cup {<<"oomalloc", <<4>>>>}
    ELSE UNION {
      {<<"put", <<v>>>> : v \in IF s.rec = 0 THEN 1..2 ELSE {1}},
      {<<o, <<>>>> : o \in {"get", "peek", "homing"}},
      {<<"in", <<Vs(n)>>>> : n \in {0, 1, 3, 9}},
      {<<o, <<n>>>> : o \in {"out", "outpeek"}, n \in {0, 1, 2, 9}} }
Bound(s) == TRUE
=============================================================================
