------------------------------ MODULE BitOps ------------------------------
(* Bit searches and walks over bit arrays, single-bit updates (plain and atomic), and word operations
   (bitwalk.h, bitops.h, popcount.h, bitrev.h). Registers and words are sets of bit positions. *)
EXTENDS Lib
Words == 16
Bits == 64 * Words
Full == 0..(Bits - 1)
(* byte-swapped word order *)
Sw(i) == 64 * (i \div 64) + 8 * (7 - ((i % 64) \div 8)) + (i % 8)
At(a) == IF a[2] >= 4 THEN Sw(a[1]) ELSE a[1]
Swap(x) == {Sw(i) : i \in x}
Dom(s, x, len, z) == IF z = 1 THEN {i \in 0..(len - 1) : i \notin x} ELSE {i \in x : i < len}   \* bits (z=0) or zeros (z=1)
MinOr(x, d) == IF x = {} THEN d ELSE MinSet(x)
MaxOr(x, d) == IF x = {} THEN d ELSE MaxSet(x)
Ret(s, v) == {[s |-> s, r |-> v]}
Asc(x) == SortSet(x)
Desc(x) == Rev(SortSet(x))
Upd(s, d, x, r) == {[s |-> [s EXCEPT !.r[d] = x], r |-> <<r, Asc(x)>>]}

(* a word of w bits *)
Inv0(x, w) == 0..(w - 1) \ x
Nth(x, n, up) == LET q == IF up THEN Asc(x) ELSE Desc(x) IN IF n < Len(q) THEN q[n + 1] ELSE 64

Step(s, op, a) ==
    IF op = "init" THEN
        {[s |-> [k |-> "live", r |-> [i \in 1..2 |-> RangeOf(a[i])]], r |-> 0]}
    ELSE CASE op = "popcount" -> Ret(s, Cardinality(RangeOf(a[2])))                  \* w value k(const/dynamic/macro)
           [] op = "parity" -> Ret(s, Cardinality(RangeOf(a[2])) % 2)
           [] op = "bitrev" -> Ret(s, Asc({a[1] - 1 - i : i \in RangeOf(a[2])}))
           [] op = "rol" -> Ret(s, Asc({(i + a[3]) % a[1] : i \in RangeOf(a[2])}))
           [] op = "ror" -> Ret(s, Asc({(i + a[1] - (a[3] % a[1])) % a[1] : i \in RangeOf(a[2])}))
           [] op \in {"ffs", "fls"} -> LET x == RangeOf(a[1]) IN Ret(s, IF x = {} THEN 0 ELSE 1 + (IF op = "ffs" THEN MinSet(x) ELSE MaxSet(x)))
           [] op \in {"ffz", "flz"} -> LET x == Inv0(RangeOf(a[1]), 64) IN Ret(s, IF x = {} THEN 0 ELSE 1 + (IF op = "ffz" THEN MinSet(x) ELSE MaxSet(x)))
           [] op \in {"ffsuf", "flsuf"} -> LET x == RangeOf(a[1]) IN IF x = {} THEN {} ELSE Ret(s, IF op = "ffsuf" THEN MinSet(x) ELSE MaxSet(x))
           [] op \in {"ffzuf", "flzuf"} -> LET x == Inv0(RangeOf(a[1]), 64) IN IF x = {} THEN {} ELSE Ret(s, IF op = "ffzuf" THEN MinSet(x) ELSE MaxSet(x))
           [] op = "ctz" -> LET x == RangeOf(a[1]) IN IF x = {} THEN {} ELSE Ret(s, MinSet(x))
           [] op = "clz" -> LET x == RangeOf(a[1]) IN IF x = {} THEN {} ELSE Ret(s, 63 - MaxSet(x))
           [] op = "ffns" -> Ret(s, Nth(RangeOf(a[1]), a[2], TRUE))                  \* value n: the n-th (from 0); >= 64: no such bit
           [] op = "flns" -> Ret(s, Nth(RangeOf(a[1]), a[2], FALSE))
           [] op = "ffnz" -> Ret(s, Nth(Inv0(RangeOf(a[1]), 64), a[2], TRUE))
           [] op = "flnz" -> Ret(s, Nth(Inv0(RangeOf(a[1]), 64), a[2], FALSE))
           [] s.k = "null" -> {}
           \* searches: z len k [offset]
           [] op = "first" -> Ret(s, MinOr(Dom(s, s.r[1], a[2], a[1]), a[2]))
           [] op = "last" -> Ret(s, MaxOr(Dom(s, s.r[1], a[2], a[1]), a[2]))
           [] op = "next" -> Ret(s, MinOr({i \in Dom(s, s.r[1], a[2], a[1]) : i >= a[4]}, a[2]))
           [] op = "prev" -> Ret(s, IF a[4] >= a[2] THEN a[2] ELSE MaxOr({i \in Dom(s, s.r[1], a[2], a[1]) : i <= a[4]}, a[2]))
           [] op = "next_and" -> Ret(s, MinOr({i \in Dom(s, s.r[1] \cap s.r[2], a[1], 0) : i >= a[3]}, a[1]))      \* len k offset
           [] op = "prev_and" -> Ret(s, IF a[3] >= a[1] THEN a[1] ELSE MaxOr({i \in Dom(s, s.r[1] \cap s.r[2], a[1], 0) : i <= a[3]}, a[1]))
           \* searches in byte-swapped words: z len offset
           [] op = "sfirst" -> Ret(s, MinOr(Dom(s, Swap(s.r[1]), a[2], a[1]), a[2]))
           [] op = "slast" -> Ret(s, MaxOr(Dom(s, Swap(s.r[1]), a[2], a[1]), a[2]))
           [] op = "snext" -> Ret(s, MinOr({i \in Dom(s, Swap(s.r[1]), a[2], a[1]) : i >= a[3]}, a[2]))
           [] op = "sprev" -> Ret(s, IF a[3] >= a[2] THEN a[2] ELSE MaxOr({i \in Dom(s, Swap(s.r[1]), a[2], a[1]) : i <= a[3]}, a[2]))
           \* walks: z len k [start]
           [] op = "each" -> Ret(s, Asc(Dom(s, s.r[1], a[2], a[1])))
           [] op = "each_rev" -> Ret(s, Desc(Dom(s, s.r[1], a[2], a[1])))
           [] op = "each_cont" -> Ret(s, Asc({i \in Dom(s, s.r[1], a[2], a[1]) : i > a[4]}))
           [] op = "each_rev_cont" -> Ret(s, IF a[4] > a[2] THEN <<>> ELSE Desc({i \in Dom(s, s.r[1], a[2], a[1]) : i < a[4]}))
           [] op = "each_form" -> Ret(s, IF a[4] >= a[2] THEN <<>> ELSE <<a[4]>> \o Asc({i \in Dom(s, s.r[1], a[2], a[1]) : i > a[4]}))
           [] op = "each_rev_form" -> Ret(s, IF a[4] >= a[2] THEN <<>> ELSE <<a[4]>> \o Desc({i \in Dom(s, s.r[1], a[2], a[1]) : i < a[4]}))
           \* one bit of register 1: i form; result: old value (0 for the silent forms) and the register
           \* form: 0 native, 1 native atomic, 2 and 3 little-endian, 4 and 5 big-endian bit numbering
           [] op = "set" -> Upd(s, 1, s.r[1] \cup {At(a)}, 0)
           [] op = "clr" -> Upd(s, 1, s.r[1] \ {At(a)}, 0)
           [] op = "flip" -> Upd(s, 1, (s.r[1] \ {At(a)}) \cup ({At(a)} \ s.r[1]), 0)
           [] op = "change" -> Upd(s, 1, (s.r[1] \ {At(a)}) \cup (IF a[3] = 1 THEN {At(a)} ELSE {}), 0)
           [] op = "test" -> Upd(s, 1, s.r[1], B(At(a) \in s.r[1]))
           [] op = "test_set" -> Upd(s, 1, s.r[1] \cup {At(a)}, B(At(a) \in s.r[1]))
           [] op = "test_clr" -> Upd(s, 1, s.r[1] \ {At(a)}, B(At(a) \in s.r[1]))
           [] op = "test_flip" -> Upd(s, 1, (s.r[1] \ {At(a)}) \cup ({At(a)} \ s.r[1]), B(At(a) \in s.r[1]))
           [] op = "test_change" -> Upd(s, 1, (s.r[1] \ {At(a)}) \cup (IF a[3] = 1 THEN {At(a)} ELSE {}), B(At(a) \in s.r[1]))
           [] OTHER -> {}
Inv(s) == s.k = "null" \/ \A i \in 1..2 : s.r[i] \subseteq Full
=============================================================================
