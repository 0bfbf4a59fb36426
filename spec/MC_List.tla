------------------------------- MODULE MC_List -------------------------------
EXTENDS List
CONSTANT N
Anchors(s) == {<<0, h>> : h \in Heads} \cup {<<1, n>> : n \in Nodes(s) \ FreeN(s)}
Linked(s) == Nodes(s) \ FreeN(s)
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<N>>>>}
    ELSE UNION {
      {<<o, <<a, n>>>> : o \in {"add", "addprev"}, a \in Anchors(s), n \in FreeN(s)},
      {<<o, <<n>>>> : o \in {"del", "delinit", "query"}, n \in Linked(s)},
      {<<"del", <<n>>>> : n \in s.poison},
      {<<"readd", <<n>>>> : n \in Linked(s)},
      {<<o, <<x, y>>>> : o \in {"replace", "replaceinit"}, x \in Linked(s), y \in FreeN(s)},
      {<<o, <<a, n>>>> : o \in {"move", "moveprev"}, a \in {<<0, 1>>, <<0, 2>>}, n \in Linked(s)},
      {<<o, <<<<1, m>>, n>>>> : o \in {"move", "moveprev"}, m \in Linked(s), n \in Linked(s)} \
        {<<o, <<<<1, n>>, n>>>> : o \in {"move", "moveprev"}, n \in Linked(s)},
      {<<"swap", <<x, y>>>> : x \in Linked(s), y \in Linked(s)} \ {<<"swap", <<x, x>>>> : x \in Linked(s)},
      {<<o, <<<<0, h>>, 3 - h>>>> : o \in {"splice", "spliceinit", "spliceprev", "splicetailinit"}, h \in Heads},
      {<<o, <<<<1, n>>, 3 - HeadOf(s, n)>>>> : o \in {"splice", "splicetailinit"}, n \in Linked(s)},
      {<<"ends", <<h>>>> : h \in Heads},
      {<<"walk", <<0, r, sf, h, 0, 0>>>> : r \in 0..1, sf \in 0..1, h \in Heads},
      {<<"walk", <<0, r, 1, h, 0, 1>>>> : r \in 0..1, h \in Heads},
      {<<"walk", <<m, r, sf, HeadOf(s, n), n, 0>>>> : m \in 1..2, r \in 0..1, sf \in 0..1, n \in Linked(s)},
      {<<"walk", <<m, r, 1, HeadOf(s, n), n, 1>>>> : m \in 1..2, r \in 0..1, n \in Linked(s)} }
Bound(s) == TRUE
=============================================================================
