------------------------------ MODULE MC_Array ------------------------------
EXTENDS Array
\* small constants: at most 5 cells of value 0..2 in cells of 1 or 24 bytes
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<c>>>> : c \in {3}}
    ELSE UNION {
      {<<"push", <<n, v>>>> : n \in 0..2, v \in 0..1},
      {<<o, <<n>>>> : o \in {"pop", "peek", "data"}, n \in 0..3},
      {<<"resize", <<n, 7>>>> : n \in 0..4},
      {<<"reserve", <<n>>>> : n \in {0, 1, 3}},
      {<<"oom", <<"push", n, 0>>>> : n \in 1..2},
      {<<"oom", <<"resize", n, 5>>>> : n \in {2, 4}},
      {<<"oom", <<"reserve", 3>>>>},
      {<<"reset", <<>>>>, <<"release", <<>>>>} }
Bound(s) == s.k = "array" => Len(s.seq) <= 4
=============================================================================
