------------------------------ MODULE MC_Sort ------------------------------
EXTENDS Sort
CONSTANTS L, K
Seqs == UNION {[1..n -> 0..K] : n \in 0..L}
Ordered(ord) == {q \in Seqs : \A i \in 1..(Len(q) - 1) : W(ord, q[i]) <= W(ord, q[i + 1])}
ASSUME \A o \in 0..2 : \A q \in Seqs : SortedPermutation(o, q)
Cmds(s) == IF s.k = "sort" THEN {} ELSE
    UNION {{<<"sort", <<c, st, o, q>>>> : c \in {1, 3, 8}, st \in {0, 1}, o \in {0, 1}, q \in Seqs},
           {<<"lsort", <<st, o, q>>>> : st \in 0..2, o \in 0..2, q \in Seqs},
           UNION {{<<"bsearch", <<c, st, o, q, x>>>> : c \in {1, 4}, st \in 0..2, q \in Ordered(o), x \in 0..(K + 1)} : o \in 0..1}}
Bound(s) == TRUE
=============================================================================
