-------------------------------- MODULE Lib --------------------------------
(* Helpers shared by the component specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

Null == [k |-> "null"]                       \* state before a component is created
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
B(b) == IF b THEN 1 ELSE 0
Fold(Op(_, _), base, seq) == FoldLeft(Op, base, seq)          \* Op(acc, element)
SumSeq(seq) == FoldLeft(LAMBDA acc, x : acc + x, 0, seq)
MinSet(S) == FoldSet(LAMBDA x, m : Min2(x, m), CHOOSE x \in S : TRUE, S)
MaxSet(S) == FoldSet(LAMBDA x, m : Max2(x, m), CHOOSE x \in S : TRUE, S)
RangeOf(seq) == {seq[i] : i \in DOMAIN seq}
Rev(seq) == [i \in 1..Len(seq) |-> seq[Len(seq) + 1 - i]]
Filter(seq, P(_)) == SelectSeq(seq, P)
Without(seq, x) == SelectSeq(seq, LAMBDA y : y # x)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Pos(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x /\ \A j \in 1..(i - 1) : seq[j] # x
InsertAt0(seq, i, x) == SubSeq(seq, 1, i) \o <<x>> \o SubSeq(seq, i + 1, Len(seq))     \* after i elements
DropAt(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
Take(seq, n) == SubSeq(seq, 1, Min2(n, Len(seq)))
Drop(seq, n) == SubSeq(seq, n + 1, Len(seq))
RECURSIVE Pow2Up(_, _)
Pow2Up(n, p) == IF p >= n THEN p ELSE Pow2Up(n, 2 * p)
SortSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)             \* ascending sequence of a set of integers
SortBy(S, Lt(_, _)) == SetToSortSeq(S, Lt)
Flatten(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
CountIn(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
IsSortedBy(seq, Le(_, _)) == \A i \in 1..(Len(seq) - 1) : Le(seq[i], seq[i + 1])
=============================================================================
