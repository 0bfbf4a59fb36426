------------------------------ MODULE MC_Guard ------------------------------
EXTENDS Guard
CONSTANT NN, QN
\* the spoilt variant of the list may disagree with itself; only operations that are refused, or whose neighbourhood is sound, are defined
Pointed(s, x) == \E y \in 1..N(s) : y # x /\ (s.n[y] = x \/ (s.k = "list" /\ s.p[y] = x))
LFree(s, x) == ~Pointed(s, x)
LOkDel(s, x) == LDelBad(s, x) \/ (s.n[s.p[x]] = x /\ s.p[s.n[x]] = x /\ \A y \in 1..N(s) : (s.n[y] = x => y = s.p[x]) /\ (s.p[y] = x => y = s.n[x]))
LOkIns(s, a, b, x) == LInsertBad(s, a, b, x) \/ (x # a /\ x # b /\ LFree(s, x))
RECURSIVE SReach(_, _, _)
SReach(s, y, k) == IF k = 0 \/ y <= 0 THEN {} ELSE {y} \cup SReach(s, s.n[y], k - 1)
HReach(s) == SReach(s, s.h, N(s))
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<k, NN>>>> : k \in {"list", "hlist", "slist"}} \cup {<<"new", <<k, QN>>>> : k \in {"tree", "ctree", "atree", "xtree", "heap", "ilist"}}
    ELSE IF s.k = "list" THEN
      LET D == 1..NN IN UNION {
      {<<"linsert", <<a, b, x>>>> : <<a, b, x>> \in {t \in D \X D \X D : LOkIns(s, t[1], t[2], t[3])}},
      {<<"ladd", t>> : t \in {t \in D \X D : s.n[t[1]] > 0 /\ LOkIns(s, t[1], s.n[t[1]], t[2])}},
      {<<"laddprev", t>> : t \in {t \in D \X D : s.p[t[1]] > 0 /\ LOkIns(s, s.p[t[1]], t[1], t[2])}},
      {<<"ldel", <<x>>>> : x \in {x \in D : LOkDel(s, x)}},
      {<<"spoil", t>> : t \in {0, 1} \X {1} \X D} }
    ELSE IF s.k = "hlist" THEN
      LET D == 1..NN  In == HReach(s)  Out == D \ In IN UNION {
      {<<"hhead", <<x>>>> : x \in Out \cup (IF s.h > 0 THEN {s.h} ELSE {})},
      {<<"hnext", <<y, x>>>> : <<y, x>> \in {t \in In \X D : t[2] \in Out \/ s.n[t[1]] = t[2]}},
      {<<"hprev", <<y, x>>>> : <<y, x>> \in {t \in In \X D : t[2] \in Out \/ s.p[t[1]] = t[2]}},
      {<<"hdel", <<x>>>> : x \in {x \in D : x \in In \/ (s.n[x] = Poison /\ s.p[x] = Poison)}} }
    ELSE IF s.k = "slist" THEN
      LET D == 1..NN  In == SReach(s, 1, NN)  Out == D \ In IN UNION {
      {<<"sadd", <<y, x>>>> : <<y, x>> \in {t \in In \X D : t[2] \in Out \/ t[1] = t[2] \/ s.n[t[1]] = t[2]}},
      {<<"sdel", <<x>>>> : x \in {x \in D \ {1} : x \in In \/ s.n[x] = Poison}} }
    ELSE LET D == 1..QN IN UNION {
      {<<"qinsert", <<x>>>> : x \in D \ RangeOf(s.q)},
      {<<"qdelete", <<x>>>> : x \in RangeOf(s.q) \cup (IF s.k = "ilist" THEN {} ELSE s.gone)},
      IF s.k = "ilist" THEN {<<o, <<w, l, x>>>> : o \in {"qspoiltadd"}, w \in {0, 1}, l \in {0} \cup RangeOf(s.q), x \in IF s.q = <<>> THEN {} ELSE D \ RangeOf(s.q)}
                       \cup {<<o, <<w, l, x>>>> : o \in {"qspoiltdel"}, w \in {0, 1}, l \in {0} \cup RangeOf(s.q), x \in RangeOf(s.q)}
      ELSE {<<"qrelink", <<x>>>> : x \in RangeOf(s.q)} }
Bound(s) == TRUE
=============================================================================
