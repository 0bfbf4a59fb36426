--------------------------------- MODULE Nat256 ---------------------------------
(* Exact arithmetic on natural numbers of any size: base-256 digits, least significant first, no leading zeros. *)
EXTENDS Lib
RECURSIVE Strip(_), Carry(_, _)
Strip(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Strip(SubSeq(x, 1, Len(x) - 1)) ELSE x
D(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0
(* columns to digits *)
Carry(cols, c) == IF cols = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o Carry(<<>>, c \div 256))
                  ELSE <<(Head(cols) + c) % 256>> \o Carry(Tail(cols), (Head(cols) + c) \div 256)
Digits(cols) == Strip(Carry(cols, 0))
MCmp(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1)
              ELSE LET d == {i \in 1..Len(x) : x[i] # y[i]} IN
                   IF d = {} THEN 0 ELSE IF x[MaxSet(d)] < y[MaxSet(d)] THEN -1 ELSE 1
MAdd(x, y) == Digits([i \in 1..Max2(Len(x), Len(y)) |-> D(x, i) + D(y, i)])
MSub(x, y) ==                                   \* x >= y
    LET f == Fold(LAMBDA acc, i : LET t == x[i] - D(y, i) - acc.b IN [d |-> Append(acc.d, t % 256), b |-> IF t < 0 THEN 1 ELSE 0],
                  [d |-> <<>>, b |-> 0], [i \in 1..Len(x) |-> i])
    IN Strip(f.d)
MMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE
    Digits([k \in 1..(Len(x) + Len(y) - 1) |-> SumSeq([j \in 1..Len(x) |-> x[j] * D(y, k + 1 - j)])])
MMulDigit(x, q) == IF q = 0 THEN <<>> ELSE Digits([i \in 1..Len(x) |-> x[i] * q])
RECURSIVE DigitBy(_, _, _, _)
DigitBy(r, y, lo, hi) ==                        \* the greatest q in lo..hi with q * y <= r, lo * y <= r
    IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN
    IF MCmp(MMulDigit(y, mid), r) <= 0 THEN DigitBy(r, y, mid, hi) ELSE DigitBy(r, y, lo, mid - 1)
MDivMod(x, y) ==                                \* schoolbook division, digit by digit from the top
    LET f == Fold(LAMBDA acc, i :
                    LET r == Strip(<<x[i]>> \o acc.r)
                        k == Max2(Len(y) - 2, 0)
                        R == D(r, k + 1) + 256 * D(r, k + 2) + 65536 * D(r, k + 3)           \* the top digits bound the quotient's
                        Y == D(y, k + 1) + 256 * D(y, k + 2)
                        q == IF MCmp(r, y) < 0 THEN 0 ELSE DigitBy(r, y, R \div (Y + 1), Min2(255, (R + 1) \div Y))
                    IN [q |-> <<q>> \o acc.q, r |-> MSub(r, MMulDigit(y, q))],
                  [q |-> <<>>, r |-> <<>>], Rev([i \in 1..Len(x) |-> i]))
    IN [q |-> Strip(f.q), r |-> f.r]
MShl(x, n) == IF x = <<>> THEN <<>> ELSE [i \in 1..(n \div 8) |-> 0] \o MMulDigit(x, 2 ^ (n % 8))
MShr(x, n) == Strip([i \in 1..Max2(0, Len(x) - n \div 8) |-> (D(x, i + n \div 8) + 256 * D(x, i + 1 + n \div 8)) \div (2 ^ (n % 8)) % 256])
MBit(x, n) == (D(x, n \div 8 + 1) \div (2 ^ (n % 8))) % 2
Pad(x, n) == [i \in 1..Max2(n, Len(x)) |-> D(x, i)]
MSet(x, n, v) == LET p == Pad(x, n \div 8 + 1)  i == n \div 8 + 1 IN
    Strip([p EXCEPT ![i] = @ + (v - MBit(x, n)) * 2 ^ (n % 8)])
MBits(x, y, Op(_, _)) == Strip([i \in 1..Max2(Len(x), Len(y)) |-> Op(D(x, i), D(y, i))])
=============================================================================
