----------------------------- MODULE Allocator -----------------------------
(* The allocator interface (include/bfdev/allocator.h, src/allocator.c).
   mask: which of alloc 1, zalloc 2, realloc 4, free 8 the caller supplied (bits); the others are the default ones.
   b: live blocks, id -> <<requested size, zeroed>>.  Results: <<calls made to the caller's functions as <<function, size>>,
   block obtained (1), not (0) or none asked for (-1), content as promised>>. *)
EXTENDS Limbs
Ok(s, r) == {[s |-> s, r |-> r]}
Lim == 65536
Num(x) == IF \A i \in 2..Len(x) : x[i] = 0 THEN x[1] ELSE Lim
(* the product of two 64-bit words overflows iff nr > floor((2^64-1)/size); the operands used are powers of two or small *)
Bit(x) == CHOOSE b \in 0..64 : \A i \in 0..63 : i >= b => (x[(i \div 16) + 1] \div (2^(i % 16))) % 2 = 0 /\ (b > 0 => (x[((b - 1) \div 16) + 1] \div (2^((b - 1) % 16))) % 2 = 1)
Ov(x, y) == x # Zero(4) /\ y # Zero(4) /\ Bit(x) + Bit(y) > 65     \* certain overflow; commands avoid the sum 65 unless small
Prod(x, y) == Num(x) * Num(y)
Has2(m, w) == (m \div w) % 2 = 1
C(s, w, i, n) == IF Has2(s.mask, w) THEN <<<<i, n>>>> ELSE <<>>
Set1(m, x, v) == [y \in DOMAIN m \cup {x} |-> IF y = x THEN v ELSE m[y]]
Del1(m, x) == [y \in DOMAIN m \ {x} |-> m[y]]
New(s, w, i, id, n, f) ==
    IF n = 0 THEN Ok(s, <<<<>>, 0, 1>>)
    ELSE IF f = 1 /\ Has2(s.mask, w) THEN Ok(s, <<C(s, w, i, n), 0, 1>>)
    ELSE Ok([s EXCEPT !.b = Set1(@, id, n)], <<C(s, w, i, n), 1, 1>>)
Free(s, id) == IF id \notin DOMAIN s.b THEN Ok(s, <<<<>>, -1, 1>>) ELSE Ok([s EXCEPT !.b = Del1(@, id)], <<C(s, 8, 4, 0), -1, 1>>)
Realloc(s, id, n, f) ==
    IF id \notin DOMAIN s.b THEN New(s, 1, 1, id, n, f)
    ELSE IF n = 0 THEN Ok([s EXCEPT !.b = Del1(@, id)], <<C(s, 8, 4, 0), 0, 1>>)
    ELSE IF f = 1 /\ Has2(s.mask, 4) THEN Ok(s, <<C(s, 4, 3, n), 0, 1>>)
    ELSE Ok([s EXCEPT !.b = Set1(@, id, n)], <<C(s, 4, 3, n), 1, 1>>)
Step(s, op, a) ==
    CASE op = "new" -> Ok([k |-> "alloc", mode |-> a[1], mask |-> IF a[1] <= 1 THEN 0 ELSE a[2], b |-> <<>>], 0)
      [] op = "malloc" -> New(s, 1, 1, a[1], a[2], a[3])
      [] op = "zalloc" -> New(s, 2, 2, a[1], a[2], a[3])
      [] op = "realloc" -> Realloc(s, a[1], a[2], a[3])
      [] op = "free" -> Free(s, a[1])
      [] op = "amalloc" -> IF Ov(a[2], a[3]) THEN Ok(s, <<<<>>, 0, 1>>) ELSE New(s, 1, 1, a[1], Prod(a[2], a[3]), a[4])
      [] op = "azalloc" -> IF Ov(a[2], a[3]) THEN Ok(s, <<<<>>, 0, 1>>) ELSE New(s, 2, 2, a[1], Prod(a[2], a[3]), a[4])
      [] op = "arealloc" -> IF Ov(a[2], a[3]) THEN Ok(s, <<<<>>, 0, 1>>) ELSE Realloc(s, a[1], Prod(a[2], a[3]), a[4])
      [] op = "end" -> Ok([s EXCEPT !.b = <<>>], 0)
Inv(s) == TRUE
=============================================================================
