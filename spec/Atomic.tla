---- MODULE Atomic ----
(* Atomic words, atomic bits and reference counts.  The object is a 64-bit word w (four
   16-bit limbs; read as two's complement where signs matter), which also is the count of
   a reference counter, and a bit array b (eight limbs).  Every operation is indivisible
   in the sense of Conc.  A reference count answers TRUE to the release that takes the
   last references, refuses to come back from zero, and reports misuse: counting up from
   zero (0), from below zero (1), past the largest value (2); counting down from zero (3),
   from below zero (4), below zero (5); conditional counting up from below zero (6) and
   past the largest value (7). *)
EXTENDS Limbs
LOCAL INSTANCE Bitwise
Wd(f(_, _), x, y) == [i \in DOMAIN x |-> f(x[i], y[i])]
BAnd(x, y) == Wd(LAMBDA p, q : p & q, x, y)
BOr(x, y) == Wd(LAMBDA p, q : p | q, x, y)
BXor(x, y) == Wd(LAMBDA p, q : p ^^ q, x, y)
One == <<1, 0, 0, 0>>
Zero4 == <<0, 0, 0, 0>>
Neg(x) == x[4] >= 32768

(* arithmetic and logic: the value after *)
Arith(f, x, y) ==
  CASE f = "add" -> Add(x, y) [] f = "sub" -> Sub(x, y) [] f = "and" -> BAnd(x, y) [] f = "or" -> BOr(x, y) [] OTHER -> BXor(x, y)
Kinds == {"add", "sub", "and", "or", "xor"}

(* bit i of the array *)
BitOn(b, i) == (b[i \div 16 + 1] \div (2 ^ (i % 16))) % 2
BitPut(b, i, v) == [b EXCEPT ![i \div 16 + 1] = @ + (v - BitOn(b, i)) * 2 ^ (i % 16)]
BitAfter(op, old, v) ==
  CASE op \in {"bset", "btest_set"} -> 1 [] op \in {"bclr", "btest_clr"} -> 0
    [] op \in {"bflip", "btest_flip"} -> 1 - old [] op \in {"bchange", "btest_change"} -> v [] OTHER -> old

(* reference counting: n is added or taken (n > 0) *)
UpReport(x, n) == IF x = Zero4 THEN <<0>> ELSE IF Neg(x) THEN <<1>> ELSE IF Neg(Add(x, n)) THEN <<2>> ELSE <<>>
DownReport(x, n) == IF x = n THEN <<>> ELSE IF x = Zero4 THEN <<3>> ELSE IF Neg(x) THEN <<4>> ELSE IF Neg(Sub(x, n)) THEN <<5>> ELSE <<>>
NzReport(x, n) == IF x = Zero4 THEN <<>> ELSE IF Neg(x) THEN <<6>> ELSE IF Neg(Add(x, n)) THEN <<7>> ELSE <<>>
Up == {"radd", "rinc", "rfetch_add", "rfetch_inc"}
Down == {"rsub", "rdec", "rsub_test", "rdec_test", "rfetch_sub", "rfetch_dec", "rfetch_sub_test", "rfetch_dec_test"}
Nz == {"raddnz", "rincnz", "raddnz_test", "rincnz_test", "rfetch_addnz", "rfetch_incnz", "rfetch_addnz_test", "rfetch_incnz_test"}
Tests == {"rsub_test", "rdec_test", "rfetch_sub_test", "rfetch_dec_test", "raddnz_test", "rincnz_test", "rfetch_addnz_test", "rfetch_incnz_test"}
Fetches == {"rfetch_add", "rfetch_inc", "rfetch_sub", "rfetch_dec", "rfetch_sub_test", "rfetch_dec_test",
            "rfetch_addnz", "rfetch_incnz", "rfetch_addnz_test", "rfetch_incnz_test"}
ByOne == {"rinc", "rfetch_inc", "rdec", "rdec_test", "rfetch_dec", "rfetch_dec_test", "rincnz", "rincnz_test", "rfetch_incnz", "rfetch_incnz_test"}

ApplyAtomic(o, op, a) ==
  LET x == o.w
      to(v, r) == {[o |-> [o EXCEPT !.w = v], r |-> r]}
      n == IF op \in ByOne THEN One ELSE a[1]
      old == BitOn(o.b, a[1])
      cnt(v, yes, rep) == to(v, (IF op \in Tests THEN <<B(yes)>> ELSE <<>>) \o (IF op \in Fetches THEN x ELSE <<>>) \o rep)
  IN CASE op \in {"read", "rget"} -> to(x, x)
       [] op \in {"write", "rset"} -> to(a[1], <<>>)
       [] op \in Kinds -> to(Arith(op, x, a[1]), <<>>)
       [] op \in {"fetch_" \o f : f \in Kinds} -> to(Arith(CHOOSE f \in Kinds : op = "fetch_" \o f, x, a[1]), x)
       [] op \in {f \o "_fetch" : f \in Kinds} -> LET v == Arith(CHOOSE f \in Kinds : op = f \o "_fetch", x, a[1]) IN to(v, v)
       [] op = "xchg" -> to(a[1], x)
       [] op = "cmpxchg" -> to(IF x = a[1] THEN a[2] ELSE x, x)
       [] op = "try_cmpxchg" -> to(IF x = a[1] THEN a[2] ELSE x, <<B(x = a[1])>> \o x)
       [] op \in {"bset", "bclr", "bflip", "bchange"} -> {[o |-> [o EXCEPT !.b = BitPut(o.b, a[1], BitAfter(op, old, a[2]))], r |-> <<>>]}
       [] op \in {"btest", "btest_set", "btest_clr", "btest_flip", "btest_change"} -> {[o |-> [o EXCEPT !.b = BitPut(o.b, a[1], BitAfter(op, old, a[2]))], r |-> <<old>>]}
       [] op \in Up -> cnt(Add(x, n), FALSE, UpReport(x, n))
       [] op \in Down -> cnt(Sub(x, n), x = n, DownReport(x, n))
       [] op \in Nz -> cnt(IF x = Zero4 THEN x ELSE Add(x, n), x = Zero4, NzReport(x, n))
AC == INSTANCE Conc WITH Apply <- ApplyAtomic
Step(s, op, a) ==
  IF op = "start" THEN {[s |-> AC!Fresh([w |-> One, b |-> Zero(8)], a[1]), r |-> 0]}
  ELSE IF op = "end" THEN (IF AC!AllIdle(s) THEN {[s |-> s, r |-> s.o.w \o s.o.b]} ELSE {})
  ELSE AC!ConcStep(s, op, a)
Inv(s) == s.k = "null" \/ \A i \in DOMAIN s.o.w : s.o.w[i] \in 0..65535
====
