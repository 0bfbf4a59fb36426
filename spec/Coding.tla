---- MODULE Coding ----
(* Text encodings: RFC 4648 base64 and base32 as regrouping of one bit string,
   Ascii85 as base-85 digits of big-endian 32-bit groups, a zero group written 'z'.
   The state holds the last message encoded and its text, so that the invariant
   "decoding an encoding gives the message back" is checked on the model itself. *)
EXTENDS Lib

Range2(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Alpha(w) == IF w = 6 THEN Range2(65, 90) \o Range2(97, 122) \o Range2(48, 57) \o <<43, 47>>
            ELSE Range2(65, 90) \o Range2(50, 55)
PadChar == 61
(* group sizes: bytes in, characters out *)
GIn(w) == IF w = 6 THEN 3 ELSE 5
GOut(w) == IF w = 6 THEN 4 ELSE 8
RoundUp(n, g) == (n + g - 1) \div g
EncLen(w, n) == RoundUp(n, GIn(w)) * GOut(w)
DecLen(w, n) == RoundUp(n, GOut(w)) * GIn(w)

Bit(x, i) == (x \div (2 ^ i)) % 2
(* the bits of a sequence of `w'-bit digits, most significant first *)
Bits(q, w) == [i \in 1..(Len(q) * w) |-> Bit(q[(i - 1) \div w + 1], w - 1 - ((i - 1) % w))]
(* the j-th w-bit digit (from 0) of a bit string, missing bits reading as zero *)
DigitAt(b, j, w) == LET v(i) == IF j * w + i <= Len(b) THEN b[j * w + i] ELSE 0
                    IN SumSeq([i \in 1..w |-> v(i) * 2 ^ (w - i)])

Encode(w, m) == LET b == Bits(m, 8)
                    n == RoundUp(Len(b), w)
                IN [j \in 1..EncLen(w, Len(m)) |-> IF j <= n THEN Alpha(w)[DigitAt(b, j - 1, w) + 1] ELSE PadChar]

Body(t) == IF Has(t, PadChar) THEN Take(t, Pos(t, PadChar) - 1) ELSE t
Value(w, c) == IF w = 6 THEN (CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4
                                [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1)
               ELSE (CASE c \in 65..90 -> c - 65 [] c \in 50..55 -> c - 24 [] OTHER -> -1)
Decode(w, t) == LET v == [i \in 1..Len(Body(t)) |-> Value(w, Body(t)[i])]
                    b == Bits(v, w)
                IN IF \E i \in DOMAIN v : v[i] = -1 THEN <<-1, <<>>>>
                   ELSE <<0, [j \in 1..(Len(b) \div 8) |-> DigitAt(b, j - 1, 8)]>>

(* Ascii85: numbers as four base-256 digits, most significant first *)
RECURSIVE DivRem(_, _, _, _)
DivRem(d, i, r, q) == IF i > Len(d) THEN <<q, r>> ELSE DivRem(d, i + 1, (r * 256 + d[i]) % 85, Append(q, (r * 256 + d[i]) \div 85))
RECURSIVE B85(_, _, _)
B85(d, k, acc) == IF k = 0 THEN acc ELSE LET qr == DivRem(d, 1, 0, <<>>) IN B85(qr[1], k - 1, <<33 + qr[2]>> \o acc)
Group85(d) == IF d = <<0, 0, 0, 0>> THEN <<122>> ELSE B85(d, 5, <<>>)
RECURSIVE Enc85(_)
Enc85(m) == IF m = <<>> THEN <<>>
            ELSE Group85([i \in 1..4 |-> IF i <= Len(m) THEN m[i] ELSE 0]) \o Enc85(Drop(m, Min2(4, Len(m))))
(* d * 85 + c on five base-256 digits *)
RECURSIVE MulAdd(_, _, _, _)
MulAdd(d, i, c, out) == IF i = 0 THEN out ELSE MulAdd(d, i - 1, (d[i] * 85 + c) \div 256, <<(d[i] * 85 + c) % 256>> \o out)
Val85(t) == Fold(LAMBDA acc, c : MulAdd(acc, 5, c - 33, <<>>), <<0, 0, 0, 0, 0>>, t)
RECURSIVE Dec85(_, _)
Dec85(t, out) ==
  IF t = <<>> THEN <<0, out>>
  ELSE IF t[1] = 122 THEN Dec85(Drop(t, 1), out \o <<0, 0, 0, 0>>)
  ELSE IF Len(t) < 5 THEN <<-1, <<>>>>
  ELSE LET g == Take(t, 5)
       IN IF \E i \in 1..5 : g[i] \notin 33..117 THEN <<-1, <<>>>>
          ELSE IF Val85(g)[1] # 0 THEN <<-1, <<>>>>
          ELSE Dec85(Drop(t, 5), out \o Drop(Val85(g), 1))
PadTo4(m) == [i \in 1..(RoundUp(Len(m), 4) * 4) |-> IF i <= Len(m) THEN m[i] ELSE 0]
Dec(w, t) == IF w = 85 THEN Dec85(t, <<>>) ELSE Decode(w, t)
Enc(w, m) == IF w = 85 THEN Enc85(m) ELSE Encode(w, m)


Step(s, op, a) ==
  CASE op = "enc" -> LET t == Enc(a[1], a[2]) IN {[s |-> [k |-> "on", w |-> a[1], m |-> a[2], t |-> t], r |-> t]}
    [] op = "dec" -> LET x == Dec(a[1], a[2])
                     IN {[s |-> s, r |-> x]}
    [] op = "fits" -> {[s |-> s, r |-> 1]}
    [] op = "lens" -> LET w == a[1] IN
         {[s |-> s, r |-> IF w = 85 THEN <<RoundUp(a[2], 4) * 5, RoundUp(a[2], 5) * 4>> ELSE <<EncLen(w, a[2]), DecLen(w, a[2])>>]}

(* what the interface promises, on the model: round trip and sufficient lengths *)
Inv(s) == s.k = "null" \/
  /\ Dec(s.w, s.t) = <<0, IF s.w = 85 THEN PadTo4(s.m) ELSE s.m>>
  /\ IF s.w = 85 THEN Len(s.t) <= RoundUp(Len(s.m), 4) * 5
     ELSE /\ Len(s.t) = EncLen(s.w, Len(s.m))
          /\ Len(s.m) <= DecLen(s.w, Len(s.t))
====
