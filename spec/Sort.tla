-------------------------------- MODULE Sort --------------------------------
(* bfdev_sort (array heap sort), bfdev_list_sort (stable merge sort) and bfdev_bsearch.
   Elements are keys; the i-th element of the input carries the tag i. ord selects the caller's comparison:
   0 ascending, 1 descending, 2 ascending by key mod 3 (a comparison with many ties).                        *)
EXTENDS Lib

W(ord, x) == CASE ord = 0 -> x [] ord = 1 -> -x [] ord = 2 -> x % 3
S0 == [k |-> "sort"]
Res(s, r) == {[s |-> s, r |-> r]}
Pairs(q) == {<<q[i], i>> : i \in 1..Len(q)}
LtPair(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* keys in output order (projected through the comparison), and the output as a sorted bag of (key, tag) pairs *)
SortRes(ord, q) ==
    <<0, SortSeq([i \in 1..Len(q) |-> W(ord, q[i])], LAMBDA a, b : a < b), SortBy(Pairs(q), LtPair)>>
Unsorted(ord, q) == <<-22, [i \in 1..Len(q) |-> W(ord, q[i])], SortBy(Pairs(q), LtPair)>>
(* fewer than two elements: nothing to do, refused or accepted, the content is unchanged *)
Sort(s, ord, q) == IF Len(q) < 2 THEN {[s |-> s, r |-> Unsorted(ord, q)], [s |-> s, r |-> SortRes(ord, q)]} ELSE Res(s, SortRes(ord, q))
(* stable: tags ordered by (weight, tag), forward and backward *)
LSort(s, ord, q) ==
    LET o == SortSeq([i \in 1..Len(q) |-> i], LAMBDA a, b : W(ord, q[a]) < W(ord, q[b]) \/ (W(ord, q[a]) = W(ord, q[b]) /\ a < b))
    IN Res(s, <<o, Rev(o)>>)
(* q is ordered under ord; any matching index may be returned, -1 exactly when there is none *)
BSearch(s, ord, q, x) ==
    LET m == {i \in 1..Len(q) : W(ord, q[i]) = W(ord, x)}
    IN IF m = {} THEN Res(s, -1) ELSE {[s |-> s, r |-> i - 1] : i \in m}
Step(s, op, a) ==
    CASE op = "sort" -> Sort(S0, a[3], a[4])          \* cells, comparison-result style, order, keys
      [] op = "lsort" -> LSort(S0, a[2], a[3])
      [] op = "bsearch" -> BSearch(S0, a[3], a[4], a[5])
Inv(s) == TRUE
(* the definition really describes a sorted permutation (checked by TLC over every explored input) *)
SortedPermutation(ord, q) ==
    LET r == SortRes(ord, q) IN
    /\ Len(r[2]) = Len(q) /\ Len(r[3]) = Len(q)
    /\ \A i \in 1..(Len(q) - 1) : r[2][i] <= r[2][i + 1]
    /\ \A i \in 1..Len(q) : CountIn(r[2], W(ord, q[i])) = Cardinality({j \in 1..Len(q) : W(ord, q[j]) = W(ord, q[i])})
=============================================================================
