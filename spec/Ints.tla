---------------------------------- MODULE Ints ----------------------------------
(* The integer helpers, each a function of its operands.  An operand is the sequence of its bytes, least significant *)
(* first, as wide as its type; a signed one is read as two's complement.  Everything is computed exactly and then    *)
(* put back into the width of the result.  Results of macros whose type follows the operands are 8 bytes wide.       *)
EXTENDS Nat256
LOCAL INSTANCE Bitwise
L == INSTANCE Limbs
Wd(t) == CASE t \in {"u8", "s8"} -> 1 [] t \in {"u16", "s16"} -> 2 [] t \in {"u32", "s32"} -> 4 [] OTHER -> 8
Signed(t) == t \in {"s8", "s16", "s32", "s64"}
Zs(n) == [i \in 1..n |-> 0]
Fs(n) == [i \in 1..n |-> 255]
Nat2(w) == Append(Zs(w), 1)                                 \* 2^(8w)
Mod(x, w) == Strip(Take(x, w))                              \* modulo 2^(8w)
Fit(x, w) == Take(Pad(x, w), w)                             \* the w low bytes
P2(n) == Append(Zs(n \div 8), 2 ^ (n % 8))
N(n) == Strip(<<n % 256, (n \div 256) % 256, n \div 65536>>)
One == <<1>>
(* signed numbers: [p |-> 1 (not negative) or 0, m |-> magnitude] *)
Num(p, m) == [p |-> IF m = <<>> THEN 1 ELSE p, m |-> m]
Val(t, b) == IF Signed(t) /\ b[Len(b)] >= 128 THEN Num(0, MSub(Nat2(Len(b)), Strip(b))) ELSE Num(1, Strip(b))
Repr(x, w) == IF x.p = 1 THEN Fit(x.m, w) ELSE Fit(MSub(Nat2(w + Len(x.m)), x.m), w)
InType(x, t) == LET w == Wd(t) IN
    IF Signed(t) THEN (IF x.p = 1 THEN MCmp(x.m, P2(8 * w - 1)) < 0 ELSE MCmp(x.m, P2(8 * w - 1)) <= 0)
    ELSE x.p = 1 /\ MCmp(x.m, Nat2(w)) < 0
SNeg(x) == Num(1 - x.p, x.m)
SAdd(x, y) == IF x.p = y.p THEN Num(x.p, MAdd(x.m, y.m))
              ELSE IF MCmp(x.m, y.m) >= 0 THEN Num(x.p, MSub(x.m, y.m)) ELSE Num(y.p, MSub(y.m, x.m))
SMul(x, y) == Num(IF x.p = y.p THEN 1 ELSE 0, MMul(x.m, y.m))
SLess(x, y) == IF x.p # y.p THEN x.p = 0 ELSE IF x.p = 1 THEN MCmp(x.m, y.m) < 0 ELSE MCmp(x.m, y.m) > 0
Bits(x, y, Op(_, _)) == MBits(x, y, Op)
Top(x) == IF x = <<>> THEN -1 ELSE 8 * (Len(x) - 1) + MaxSet({i \in 0..7 : 2 ^ i <= x[Len(x)]})          \* floor of the logarithm
Low(x) == LET i == MinSet({j \in 1..Len(x) : x[j] # 0}) IN 8 * (i - 1) + MinSet({j \in 0..7 : (x[i] \div 2 ^ j) % 2 = 1})
Same(x, n) == [i \in 1..n |-> x]
(* rounding to a multiple of a power of two *)
Floor(x, y) == MMul(MDivMod(x, y).q, y)
Ceil(x, y) == LET d == MDivMod(x, y) IN IF d.r = <<>> THEN x ELSE MMul(MAdd(d.q, One), y)
(* division rounded to the nearest, ties away from zero *)
Near(x, y) == LET d == MDivMod(MAdd(MMul(x.m, <<2>>), y.m), MMul(y.m, <<2>>)) IN Num(IF x.p = y.p THEN 1 ELSE 0, d.q)
(* byte, half-word and word swaps, as the order in which the bytes come out *)
Swaps == [swab16 |-> <<2, 1>>, swab32 |-> <<4, 3, 2, 1>>, swab64 |-> <<8, 7, 6, 5, 4, 3, 2, 1>>, swahb32 |-> <<2, 1, 4, 3>>, swahw32 |-> <<3, 4, 1, 2>>,
          swahb64 |-> <<2, 1, 4, 3, 6, 5, 8, 7>>, swahw64 |-> <<3, 4, 1, 2, 7, 8, 5, 6>>, swahl64 |-> <<5, 6, 7, 8, 1, 2, 3, 4>>]
Order(x, o) == [i \in DOMAIN o |-> x[o[i]]]
Blocks(x, w) == [i \in 1..(Len(x) \div w) |-> SubSeq(x, (i - 1) * w + 1, i * w)]
Golden32 == <<71, 134, 200, 97>>                            \* 0x61c88647
Golden64 == <<235, 131, 181, 128, 70, 134, 200, 97>>        \* 0x61c8864680b583eb
Hash(x, w, bits) == LET h == Mod(MMul(x, IF w = 4 THEN Golden32 ELSE Golden64), w) IN [v |-> h, t |-> MShr(h, 8 * w - bits)]
(* Jenkins' lookup3 hash on words of two 16-bit limbs *)
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Rol(x, n) == LET y == IF n >= 16 THEN <<x[2], x[1]>> ELSE x  k == n % 16 IN
    <<((y[1] * 2 ^ k) % 65536) + y[2] \div 2 ^ (16 - k), ((y[2] * 2 ^ k) % 65536) + y[1] \div 2 ^ (16 - k)>>
(* one round on the triple: word i loses word j and is mixed with it rotated, word j gains word l *)
MixStep(s, i, j, l, n) == LET t == [s EXCEPT ![i] = Xor2(L!Sub(s[i], s[j]), Rol(s[j], n))] IN [t EXCEPT ![j] = L!Add(t[j], t[l])]
JMix(s) == Fold(LAMBDA t, k : MixStep(t, k[1], k[2], k[3], k[4]), s,
                <<<<1, 3, 2, 4>>, <<2, 1, 3, 6>>, <<3, 2, 1, 8>>, <<1, 3, 2, 16>>, <<2, 1, 3, 19>>, <<3, 2, 1, 4>>>>)
JFinal(s) == Fold(LAMBDA t, k : [t EXCEPT ![k[1]] = L!Sub(Xor2(t[k[1]], t[k[2]]), Rol(t[k[2]], k[3]))], s,
                  <<<<3, 2, 14>>, <<1, 3, 11>>, <<2, 1, 25>>, <<3, 2, 16>>, <<1, 3, 4>>, <<2, 1, 14>>, <<3, 2, 24>>>>)
Word(m, i) == LET b(k) == IF k <= Len(m) THEN m[k] ELSE 0 IN <<b(i + 1) + 256 * b(i + 2), b(i + 3) + 256 * b(i + 4)>>
AddIn(s, m, i) == <<L!Add(s[1], Word(m, i)), L!Add(s[2], Word(m, i + 4)), L!Add(s[3], Word(m, i + 8))>>
RECURSIVE JRun(_, _)
JRun(s, m) == IF Len(m) > 12 THEN JRun(JMix(AddIn(s, m, 0)), Drop(m, 12)) ELSE IF m = <<>> THEN s ELSE JFinal(AddIn(s, m, 0))
JHash(m, init) == LET a == L!Add(L!Add(<<48879, 57005>>, <<Len(m), 0>>), init) IN JRun(<<a, a, a>>, m)[3]   \* 0xdeadbeef + length + initval
(* the bits of a mask that are one run *)
RunOf(m) == LET w == Top(m) - Low(m) + 1 IN [lo |-> Low(m), w |-> w]
Result(op, a) ==
    CASE op = "add" -> LET x == SAdd(Val(a[1], a[2]), Val(a[1], a[3]))  ov == ~InType(x, a[1])  w == Wd(a[1]) IN
           <<<<B(ov)>>, Repr(x, w)>> \o Same(IF ov THEN Fs(w) ELSE Repr(x, w), 3)
      [] op = "sub" -> LET x == SAdd(Val(a[1], a[2]), SNeg(Val(a[1], a[3])))  ov == ~InType(x, a[1])  w == Wd(a[1]) IN
           <<<<B(ov)>>, Repr(x, w)>> \o Same(IF ov THEN Fs(w) ELSE Repr(x, w), 3)
      [] op = "mul" -> LET x == SMul(Val(a[1], a[2]), Val(a[1], a[3]))  ov == ~InType(x, a[1])  w == Wd(a[1]) IN
           <<<<B(ov)>>, Repr(x, w)>> \o Same(IF ov THEN Fs(w) ELSE Repr(x, w), 3)
      [] op = "round" ->                                    \* type, value, multiple: up (modulo the width of the result), down
           LET w == Max2(4, Wd(a[1]))  x == Strip(a[2])  y == Strip(a[3]) IN
           <<Fit(Mod(Ceil(x, y), w), 8), Fit(Floor(x, y), 8)>>
      [] op = "align" ->                                    \* types of value and alignment, value, alignment
           LET w == Max2(4, Max2(Wd(a[1]), Wd(a[2])))  x == Strip(a[3])  y == Strip(a[4])  lo == Floor(x, y)  hi == Mod(Ceil(x, y), w) IN
           <<<<B(lo = x)>>, Fit(lo, 8), Fit(hi, 8), Fit(lo, Wd(a[1])), Fit(hi, Wd(a[1]))>>
      [] op = "alignptr" ->
           LET x == Strip(a[2])  y == Strip(a[3])  lo == Floor(x, y)  hi == Mod(Ceil(x, y), 8) IN
           <<<<B(lo = x)>>, Fit(lo, 8), Fit(hi, 8), Fit(lo, 8), Fit(hi, 8)>>
      [] op = "divup" -> LET d == MDivMod(Strip(a[2]), Strip(a[3])) IN <<Fit(IF d.r = <<>> THEN d.q ELSE MAdd(d.q, One), 8)>>
      [] op = "near" -> <<Repr(Near(Val(a[1], a[2]), Val(a[1], a[3])), 8)>>
      [] op = "log" ->                                      \* type, value: logarithm; for words also the powers of two around it
           LET x == Strip(a[2])  l == Max2(Top(x), 0) IN
           <<Same(l, 3), <<B(x # <<>> /\ x = P2(Top(x)))>>>>
           \o Same(Fit(IF x = <<>> \/ x = P2(Top(x)) THEN x ELSE MShl(P2(Top(x)), 1), 8), 2)
           \o Same(Fit(IF x = <<>> THEN x ELSE P2(Top(x)), 8), 2)
      [] op = "klog" ->                                     \* the same for operands known to the compiler
           LET x == Strip(a[1])  l == Max2(Top(x), 0) IN
           <<Same(l, 2), <<B(x # <<>> /\ x = P2(Top(x)))>>,
             Fit(IF x = <<>> \/ x = P2(Top(x)) THEN x ELSE MShl(P2(Top(x)), 1), 8), Fit(IF x = <<>> THEN x ELSE P2(Top(x)), 8)>>
      [] op = "swap" -> Same(Order(a[2], Swaps[a[1]]), IF a[1] = "swab64" THEN 8 ELSE 5)   \* kind, value: every form of it
      [] op = "kswap" -> [i \in 1..8 |-> LET k == <<"swab16", "swab32", "swab64", "swahb32", "swahw32", "swahb64", "swahw64", "swahl64">>[i] IN Order(a[1], Swaps[k])]
      [] op = "swaparr" -> Flatten([i \in 1..(Len(a[2]) \div a[1]) |-> Rev(Blocks(a[2], a[1])[i])])
      [] op = "order" ->                                    \* value: to and from little-endian, to and from big-endian, in every form
           <<Same(a[1], 8), Same(Rev(a[1]), 8)>>
      [] op = "net" -> <<Rev(a[1]), Rev(a[1])>>
      [] op = "orderarr" ->                                 \* width, bytes: arrays to and from little-endian, to and from big-endian
           LET r == Flatten([i \in 1..(Len(a[2]) \div a[1]) |-> Rev(Blocks(a[2], a[1])[i])]) IN <<a[2], a[2], r, r>>
      [] op = "peek" ->                                     \* buffer, offset, width: native, little-endian, big-endian
           LET x == SubSeq(a[1], a[2] + 1, a[2] + a[3]) IN <<x, x, x, Rev(x)>>
      [] op = "poke" ->                                     \* buffer, offset, value, kind: the buffer afterwards
           LET v == IF a[4] = "be" THEN Rev(a[3]) ELSE a[3] IN Take(a[1], a[2]) \o v \o Drop(a[1], a[2] + Len(v))
      [] op = "bcd" -> <<(a[1] \div 10) * 16 + (a[1] % 10), (a[1] \div 10) * 16 + (a[1] % 10), (a[1] \div 10) * 16 + (a[1] % 10), a[1], a[1], a[1]>>
      [] op = "field" ->                                    \* type, mask, register, value, value of another width
           LET m == Strip(a[2])  rn == RunOf(m)  w == Wd(a[1]) IN
           <<Fit(MShr(Bits(m, Strip(a[3]), LAMBDA u, v : u & v), rn.lo), w),
             Fit(Bits(MShl(Strip(a[4]), rn.lo), m, LAMBDA u, v : u & v), w),
             <<B(Top(Strip(a[4])) < rn.w), B(Top(Strip(a[5])) < rn.w)>>,
             Fit(MShr(m, rn.lo), w)>>
      [] op = "minmax" ->                                   \* type, three values with the second not above the third
           LET x == Val(a[1], a[2])  lo == Val(a[1], a[3])  hi == Val(a[1], a[4])
               mn == IF SLess(x, lo) THEN a[2] ELSE a[3]  mx == IF SLess(lo, x) THEN a[2] ELSE a[3]
               cl == IF SLess(x, lo) THEN a[3] ELSE IF SLess(hi, x) THEN a[4] ELSE a[2] IN
           <<mn, mx, cl, mn, mx, cl>>
      [] op = "hash" -> LET w == Len(a[1])  h == Hash(Strip(a[1]), w, a[2]) IN <<Fit(h.v, w), Fit(h.t, w)>> \o (IF w = 8 THEN <<Fit(h.v, w), Fit(h.t, w)>> ELSE <<>>)
      [] op = "jhash" -> JHash(a[1], a[2])                  \* bytes, start value, distance of the bytes from an aligned address
      [] op = "bit" -> LET n == a[1] % 64 IN Same(Fit(P2(n), 8), 2) \o Same(Fit(MShl(Strip(a[2]), n), 8), 2)
      [] op = "range" -> Same(Fit(MSub(P2(a[1] + 1), P2(a[2])), 8), 2)
      [] op = "mask" -> <<Fit(MSub(P2(a[1]), One), 8), Fit(MSub(Nat2(8), P2(a[1] % 64)), 8)>>                    \* number of bits, 1..64
      [] op = "dadd" -> Blocks(Fit(MAdd(Strip(a[1]), Strip(a[2])), 16), 8)
      [] op = "dsub" -> Blocks(Fit(MSub(MAdd(Strip(a[1]), Nat2(16)), Strip(a[2])), 16), 8)
      [] op = "dmul" -> Blocks(Fit(MMul(Strip(a[1]), Strip(a[2])), 16), 8)
      [] op \in {"dqr", "ddiv", "ddivd"} ->                 \* 16-byte dividend, divisor: quotient, remainder
           LET d == MDivMod(Strip(a[1]), Strip(a[2])) IN
           CASE op = "dqr" -> <<Fit(d.q, 8), Fit(d.r, 8)>>
             [] op = "ddiv" -> <<Fit(d.q, 16), Fit(d.r, 8), Fit(d.q, 16), Fit(d.r, 8)>>
             [] OTHER -> <<Fit(d.q, 16), Fit(d.r, 16), Fit(d.q, 16), Fit(d.r, 16)>>
      [] OTHER -> <<-1>>
Step(s, op, a) == {[s |-> [k |-> "ready"], r |-> Result(op, a)]}
Inv(s) == s.k \in {"null", "ready"}
(* facts about the definitions themselves, checked on every operand pair of MC_Ints *)
Facts(x, y) ==
    LET X == Strip(x)  Y == Strip(y) IN
    /\ Y # <<>> => LET d == MDivMod(X, Y) IN MAdd(MMul(d.q, Y), d.r) = X /\ MCmp(d.r, Y) < 0
    /\ Y # <<>> => MCmp(Floor(X, Y), X) <= 0 /\ MCmp(X, Ceil(X, Y)) <= 0 /\ MCmp(MSub(Ceil(X, Y), Floor(X, Y)), Y) <= 0
    /\ \A t \in {"u8", "s8", "u16", "s16", "u32", "s32", "u64", "s64"} : Wd(t) = Len(x) =>
         Repr(Val(t, x), Wd(t)) = x /\ InType(Val(t, x), t)
         /\ (Len(y) = Len(x) => SAdd(SAdd(Val(t, x), Val(t, y)), SNeg(Val(t, y))) = Val(t, x)
             /\ (SLess(Val(t, x), Val(t, y)) <=> SAdd(Val(t, x), SNeg(Val(t, y))).p = 0))
    /\ X # <<>> => MCmp(P2(Top(X)), X) <= 0 /\ MCmp(X, MShl(P2(Top(X)), 1)) < 0 /\ MShl(MShr(X, Low(X)), Low(X)) = X
    /\ \A k \in DOMAIN Swaps : Len(Swaps[k]) = Len(x) => Order(Order(x, Swaps[k]), Swaps[k]) = x
=============================================================================
