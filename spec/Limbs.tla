--------------------------------- MODULE Limbs ---------------------------------
(* Unsigned machine words as little-endian sequences of 16-bit limbs (TLC integers have 32 bits). *)
EXTENDS Lib
W == 65536
RECURSIVE LtAt(_, _, _), AddC(_, _, _), SubC(_, _, _)
LtAt(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LtAt(x, y, i - 1)
Lt(x, y) == LtAt(x, y, Len(x))
Le(x, y) == x = y \/ Lt(x, y)
(* sum and difference with Len+1 resp. a borrow limb on top *)
AddC(x, y, c) == IF x = <<>> THEN <<c>> ELSE LET t == x[1] + y[1] + c IN <<t % W>> \o AddC(Tail(x), Tail(y), t \div W)
SubC(x, y, b) == IF x = <<>> THEN <<b>> ELSE LET t == x[1] - y[1] - b IN <<IF t < 0 THEN t + W ELSE t>> \o SubC(Tail(x), Tail(y), IF t < 0 THEN 1 ELSE 0)
Add(x, y) == Take(AddC(x, y, 0), Len(x))
Sub(x, y) == Take(SubC(x, y, 0), Len(x))
AddCarry(x, y) == AddC(x, y, 0)[Len(x) + 1]
SubBorrow(x, y) == SubC(x, y, 0)[Len(x) + 1]
FromNat(n, k) == [i \in 1..k |-> IF i = 1 THEN n % W ELSE IF i = 2 THEN n \div W ELSE 0]
Zero(k) == [i \in 1..k |-> 0]
Ones(k) == [i \in 1..k |-> W - 1]
Inc(x) == Add(x, FromNat(1, Len(x)))
Dec(x) == Sub(x, FromNat(1, Len(x)))
=============================================================================
