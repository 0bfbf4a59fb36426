----------------------------- MODULE TextSearch -----------------------------
(* Text search.  A context holds an algorithm, a pattern and the case folding flag.  A search runs over a text     *)
(* that is handed out in blocks (seg: the lengths of its blocks; linear data is one block); its state is the      *)
(* offset at which the next match may begin.  kmp reports occurrences anywhere, bm and sunday those inside one    *)
(* block.  Algorithms are kept in a registry by name; user: the registered names of user algorithms (by number). *)
EXTENDS Lib
Algos == {"kmp", "bm", "sunday"}
Fold1(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
FoldB(f, b) == IF f = 1 THEN [i \in 1..Len(b) |-> Fold1(b[i])] ELSE b
At(pat, t, i) == i + Len(pat) <= Len(t) /\ \A j \in 1..Len(pat) : t[i + j] = pat[j]          \* i: 0-based position
SegStart(seg) == {SumSeq(SubSeq(seg, 1, i)) : i \in 0..(Len(seg) - 1)}
Inside(seg, i, n) == ~\E c \in SegStart(seg) : i < c /\ c < i + n
Matches(c, s) == LET t == FoldB(c.f, s.t) IN
    {i \in s.off..(Len(t) - Len(c.pat)) : At(c.pat, t, i) /\ (c.alg = "kmp" \/ Inside(s.seg, i, Len(c.pat)))}
(* the first match at or after the offset, and the search state after it *)
Search(c, s) == LET m == Matches(c, s) IN
    IF m = {} THEN [r |-> -1, s |-> s] ELSE [r |-> MinSet(m), s |-> [s EXCEPT !.off = MinSet(m) + Len(c.pat)]]
NoSearch == [t |-> <<>>, seg |-> <<>>, off |-> 0, mode |-> 0]
Empty == [k |-> "ts", c |-> [alg |-> "", pat |-> <<>>, f |-> 0], ss |-> <<NoSearch, NoSearch>>, mode |-> 0, user |-> {}]
Has0(s) == s.c.alg # ""
Step0(s, op, a) ==
    CASE op = "create" -> IF Has0(s) \/ Len(a[2]) = 0 THEN {} ELSE                \* algorithm, pattern, fold, failing allocation
           IF a[1] \notin Algos \/ a[4] = 1 THEN {[s |-> s, r |-> 0]}
           ELSE {[s |-> [s EXCEPT !.c = [alg |-> a[1], pat |-> FoldB(a[3], a[2]), f |-> a[3]], !.ss = <<NoSearch, NoSearch>>, !.mode = 0], r |-> 1]}
      [] op = "destroy" -> IF ~Has0(s) THEN {} ELSE {[s |-> [s EXCEPT !.c = Empty.c, !.ss = Empty.ss, !.mode = 0], r |-> 0]}   \* blocks still allocated
      [] op = "pattern" -> IF ~Has0(s) THEN {} ELSE {[s |-> s, r |-> s.c.pat]}
      [] op = "linear" -> IF ~Has0(s) THEN {} ELSE                                 \* slot, text
           LET x == Search(s.c, [t |-> a[2], seg |-> <<Len(a[2])>>, off |-> 0, mode |-> 1]) IN
           {[s |-> [s EXCEPT !.ss[a[1]] = x.s, !.mode = 1], r |-> x.r]}
      [] op = "find" -> IF ~Has0(s) \/ SumSeq(a[3]) # Len(a[2]) \/ \E i \in DOMAIN a[3] : a[3][i] < 1 THEN {} ELSE    \* slot, text, block lengths
           LET x == Search(s.c, [t |-> a[2], seg |-> a[3], off |-> 0, mode |-> 2]) IN
           {[s |-> [s EXCEPT !.ss[a[1]] = x.s, !.mode = 2], r |-> x.r]}
      [] op = "again" -> IF ~Has0(s) \/ s.ss[a[1]].mode # 2 THEN {} ELSE           \* restart the block search of a slot
           LET x == Search(s.c, [s.ss[a[1]] EXCEPT !.off = 0]) IN
           {[s |-> [s EXCEPT !.ss[a[1]] = x.s, !.mode = 2], r |-> x.r]}
      [] op = "next" -> IF ~Has0(s) \/ s.mode = 0 \/ s.ss[a[1]].mode # s.mode THEN {} ELSE
           LET x == Search(s.c, s.ss[a[1]]) IN {[s |-> [s EXCEPT !.ss[a[1]] = x.s], r |-> x.r]}
      [] op = "register" ->                                                      \* user algorithm number, omitted operation (0 none)
           IF a[2] # 0 THEN {[s |-> s, r |-> -1]} ELSE                          \* EINVAL
           IF a[1] \in s.user THEN {[s |-> s, r |-> -2]} ELSE                   \* EALREADY
           {[s |-> [s EXCEPT !.user = @ \cup {a[1]}], r |-> 0]}
      [] op = "taken" -> {[s |-> s, r |-> -2]}                                  \* registering another algorithm under the name of a built-in one
      [] op = "unregister" ->
           IF a[1] \notin s.user THEN {[s |-> s, r |-> -3]} ELSE {[s |-> [s EXCEPT !.user = @ \ {a[1]}], r |-> 0]}
      [] op = "uses" -> {[s |-> s, r |-> B(a[1] \in s.user)]}                   \* creating with the name of a user algorithm reaches its prepare
      [] OTHER -> {}
Step(s, op, a) == Step0(IF s.k = "null" THEN Empty ELSE s, op, a)
Inv(s) == s.k = "null" \/ (\A i \in 1..2 : s.ss[i].off <= Len(s.ss[i].t))
=============================================================================
