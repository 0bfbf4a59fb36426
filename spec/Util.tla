---- MODULE Util ----
(* Small utilities: the seeded generator (a combined Tausworthe generator with four
   32-bit components, taus113), the PJW string hash, circular-buffer arithmetic,
   bit flags, run-once guards, actions, scope guards, bounded formatting, times,
   bit numbers, warnings, embedded members, and the counting/size/mapping macros.  The state is the generator's, with a count of
   draws that only bounds the model; the rest are functions. *)
EXTENDS Lib
LOCAL INSTANCE Bitwise

(* 32-bit words as <<low, high>> halves; 1 <= n < 32 *)
M == 65536
Shl(x, n) == IF n >= 16 THEN <<0, (x[1] * 2 ^ (n - 16)) % M>>
             ELSE <<(x[1] * 2 ^ n) % M, (x[2] * 2 ^ n + x[1] \div 2 ^ (16 - n)) % M>>
Shr(x, n) == IF n >= 16 THEN <<x[2] \div 2 ^ (n - 16), 0>>
             ELSE <<x[1] \div 2 ^ n + ((x[2] % 2 ^ n) * 2 ^ (16 - n)), x[2] \div 2 ^ n>>
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Add2(x, c) == <<(x[1] + c) % M, (x[2] + (x[1] + c) \div M) % M>>
(* the lowest k bits cleared, k < 16 *)
Clear(x, k) == <<x[1] - (x[1] % 2 ^ k), x[2]>>

(* taus113: per component the shifts and the number of bits that do not count *)
Par == <<[a |-> 6, b |-> 13, k |-> 1, d |-> 18], [a |-> 2, b |-> 27, k |-> 3, d |-> 2],
         [a |-> 13, b |-> 21, k |-> 4, d |-> 7], [a |-> 3, b |-> 12, k |-> 7, d |-> 13]>>
Taus(x, p) == Xor2(Shl(Clear(x, p.k), p.d), Shr(Xor2(Shl(x, p.a), x), p.b))
Advance(g) == <<Taus(g[1], Par[1]), Taus(g[2], Par[2]), Taus(g[3], Par[3]), Taus(g[4], Par[4])>>
Value(g) == Xor2(Xor2(g[1], g[2]), Xor2(g[3], g[4]))
RECURSIVE Warm(_, _)
Warm(g, n) == IF n = 0 THEN g ELSE Warm(Advance(g), n - 1)
AtLeast(x, m) == IF x[2] = 0 /\ x[1] < m THEN <<x[1] + m, 0>> ELSE x
(* a 64-bit seed (four halves) is folded to 32 bits; each component must keep some counting bit *)
Folded(l) == Xor2(Xor2(<<l[3], l[4]>>, Shl(<<l[1], l[2]>>, 10)), <<l[1], l[2]>>)
Seeded(l) == LET f == Folded(l) IN Warm(<<AtLeast(f, 2), AtLeast(f, 8), AtLeast(f, 16), AtLeast(f, 128)>>, 10)
Default == <<15369, 16524>>            \* 0x408c3c09
(* a sound generator state: every component keeps a bit that counts *)
Alive(g) == \A i \in 1..4 : g[i][2] # 0 \/ g[i][1] >= 2 ^ Par[i].k

(* PJW over a 32-bit word: the nibble shifted to the top is folded back into bits 4..7 *)
Pjw(m) == Fold(LAMBDA h, c : LET x == Add2(Shl(h, 4), c)
                                 top == x[2] \div 4096
                             IN <<x[1] ^^ (top * 16), x[2] % 4096>>, <<0, 0>>, m)

(* a circle of size 2^k holds the cells tail, tail+1, .. head-1; one cell stays free *)
Count(h, t, z) == (h - t) % z
Space(h, t, z) == (z - 1) - Count(h, t, z)
CountEnd(h, t, z) == Min2(Count(h, t, z), z - t)
SpaceEnd(h, t, z) == Min2(Space(h, t, z), z - h)

(* single-bit flags: `bits' is the set of bits that are on; the result is what the operation reports and the bits after *)
Flag(op, i, bits) ==
  LET on == i \in bits
      after == CASE op \in {"set", "test_set"} -> bits \cup {i} [] op \in {"clr", "test_clr"} -> bits \ {i}
                 [] op \in {"flip", "test_flip"} -> IF on THEN bits \ {i} ELSE bits \cup {i} [] OTHER -> bits
  IN <<IF op \in {"set", "clr", "flip"} THEN 0 ELSE B(on), SortSet(after)>>

(* actions: 1 x init with data x, 2 x update, 3 _ clear, 4 _ call (the function returns its data) *)
RECURSIVE Act(_, _, _, _)
Act(q, f, d, out) ==
  IF q = <<>> THEN out
  ELSE LET x == q[2]  r == Drop(q, 2)
       IN CASE q[1] = 1 -> Act(r, TRUE, x, out) [] q[1] = 2 -> Act(r, f, x, out)
            [] q[1] = 3 -> Act(r, FALSE, d, out) [] OTHER -> Act(r, f, d, Append(out, IF f THEN d ELSE -61))
(* run-once: the body runs at the first true condition only *)
Once(q) == [i \in 1..Len(q) |-> B(q[i] = 1 /\ \A j \in 1..(i - 1) : q[j] = 0)]

(* 64-bit times as four 16-bit limbs, two's complement: a total order, wherever the zero point is *)
Biased(x) == <<(x[4] + 32768) % M, x[3], x[2], x[1]>>
TimeCmp(x, y) == LET p == Biased(x)  r == Biased(y)  d == {i \in 1..4 : p[i] # r[i]}
                 IN IF d = {} THEN 0 ELSE LET i == MinSet(d) IN IF p[i] < r[i] THEN -1 ELSE 1
TimeOut(x, y) == LET c == TimeCmp(x, y) IN <<c, B(c > 0), B(c < 0), B(c >= 0), B(c <= 0)>>
RECURSIVE AddL(_, _, _)
AddL(x, y, c) == IF x = <<>> THEN <<>> ELSE LET v == Head(x) + Head(y) + c IN <<v % M>> \o AddL(Tail(x), Tail(y), v \div M)
Neg(x) == AddL([i \in 1..4 |-> 65535 - x[i]], <<0, 0, 0, 0>>, 1)
(* bit numbers against the widths of the basic types *)
Widths == <<8, 16, 32, 64, 8, 16, 32, 64, 64>>
BitNo(n) == [j \in 1..9 |-> n \div Widths[j]] \o [j \in 1..9 |-> n % Widths[j]] \o [j \in 1..9 |-> (n + Widths[j] - 1) \div Widths[j]]
(* a warning reports and goes on, a bug reports and ends the program; both are silent when the condition is false *)
Alert(bug, c) == IF c = 0 THEN <<0, 0, 0>> ELSE IF bug = 1 THEN <<-1, 1, 1>> ELSE <<1, 1, 0>>
Step(s, op, a) ==
  LET one(r) == {[s |-> s, r |-> r]}
      g == s.g
      go(g2, r) == {[s |-> [k |-> "gen", g |-> g2, n |-> IF op \in {"init", "seed"} THEN 0 ELSE s.n + 1], r |-> r]}
  IN CASE op = "init" -> go(<<Default, Default, Default, Default>>, 0)
       [] op = "seed" -> go(Seeded(a[1]), 0)
       [] op = "u32" -> LET h == Advance(g) IN go(h, Value(h))
       [] op \in {"u64", "long"} -> LET h == Advance(g)  l == Advance(h) IN go(l, Value(l) \o Value(h))
       [] op = "pjw" -> one(Pjw(a[1]) \o <<0, 0>>)
       [] op = "circle" -> LET z == 2 ^ a[3] IN one(<<Count(a[1], a[2], z), Space(a[1], a[2], z), CountEnd(a[1], a[2], z), SpaceEnd(a[1], a[2], z)>>)
       [] op = "free" -> LET z == 2 ^ a[3] IN one(<<Count(a[1], a[2], z), Space(a[1], a[2], z)>>)
       [] op = "flag" -> one(Flag(a[2], a[3], RangeOf(a[4])))
       [] op = "action" -> one(Act(a[1], FALSE, 0, <<>>))
       [] op = "once" -> one(<<Once(a[1]), Once(a[1]), a[1]>>)
       [] op = "clean" -> one(IF a[2] = 1 THEN <<a[1], <<>>>> ELSE <<-1, <<a[1]>>>>)
       [] op = "scn" -> one(IF a[1] = 0 THEN <<0, <<>>>> ELSE <<Min2(Len(a[2]), a[1] - 1), Take(a[2], a[1] - 1)>>)
       [] op = "scnbad" -> one(<<0, <<>>>>)
       [] op = "swap" -> one(<<a[2], a[1]>>)
       [] op = "cmp" -> one(IF a[1] = 0 THEN -1 ELSE 1)
       [] op = "time" -> one(TimeOut(a[1], a[2]))
       [] op = "shift" -> one(<<AddL(a[1], a[2], 0), AddL(a[1], Neg(a[2]), 0)>>)
       [] op = "bitno" -> one(BitNo(a[1]))
       [] op = "bit" -> one([i \in 1..4 |-> IF a[1] \div 16 = i - 1 THEN 2 ^ (a[1] % 16) ELSE 0])
       [] op = "assert" -> one(Alert(a[1], a[2]))
       [] op = "member" -> one(IF a[2] = 0 THEN <<a[1], -1>> ELSE <<a[1], a[1]>>)
       [] op = "group" -> one(<<a[1], a[2], a[3], a[1], a[2], 4, 8, 16>>)
       [] op = "repeat" -> one([i \in 1..4 |-> a[1] * 257])
       [] op = "consts" -> one(<<[i \in 1..13 |-> i - 1], [i \in 1..40 |-> i - 1], <<1, 21, 321, 4321, 54321, 654321>>, <<0, 1>>, <<1, 1, 1, 1, 0, 0, 0, 0>>>>)
       [] OTHER -> {}
Inv(s) == s.k = "null" \/ Alive(s.g)
====
