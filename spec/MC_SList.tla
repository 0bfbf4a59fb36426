------------------------------ MODULE MC_SList ------------------------------
EXTENDS SList
CONSTANT N
Linked(s) == Nodes(s) \ FreeN(s)
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<kd, N>>>> : kd \in {"h", "s"}}
    ELSE UNION {
      {<<"headadd", <<h, n>>>> : h \in Heads, n \in FreeN(s)},
      {<<o, <<x, n>>>> : o \in IF s.kind = "h" THEN {"nextadd", "prevadd"} ELSE {"nextadd"}, x \in Linked(s), n \in FreeN(s)},
      {<<o, <<n>>>> : o \in {"del", "query", "readd"}, n \in Linked(s)},
      IF s.kind = "h" THEN {<<"delinit", <<n>>>> : n \in Linked(s)} ELSE {},
      {<<"query", <<n>>>> : n \in FreeN(s)},
      {<<"del", <<n>>>> : n \in s.poison},
      {<<"replace", <<x, y>>>> : x \in Linked(s), y \in FreeN(s)},
      IF s.kind = "h" THEN {<<"headreplace", <<h>>>> : h \in {h \in Heads : s.h[3 - h] = <<>>}} ELSE {},
      {<<"walk", <<0, sf, h, 0, 0>>>> : sf \in 0..1, h \in Heads},
      {<<"walk", <<0, 1, h, 0, 1>>>> : h \in Heads},
      {<<"walk", <<m, sf, HeadOf(s, n), n, 0>>>> : m \in 1..2, sf \in 0..1, n \in Linked(s)},
      {<<"walk", <<m, 1, HeadOf(s, n), n, 1>>>> : m \in 1..2, n \in Linked(s)} }
Bound(s) == TRUE
=============================================================================
