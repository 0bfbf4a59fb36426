---- MODULE Crc ----
(* Cyclic redundancy checks by definition: a shift register of W bits, one message bit at a time.
   Registers are limb sequences, least significant limb first: 16-bit limbs, or one limb of W bits when W < 16.
   The state is one running register together with the message it has absorbed. *)
EXTENDS Lib
LOCAL INSTANCE Bitwise

Row(w, refl, poly) == [w |-> w, refl |-> refl, poly |-> poly]
V == [crc4 |-> Row(4, FALSE, <<7>>), crc7 |-> Row(8, FALSE, <<18>>), crc8 |-> Row(8, FALSE, <<7>>),
      crc16 |-> Row(16, TRUE, <<40961>>), ccitt |-> Row(16, TRUE, <<33800>>),                       \* 0xa001, 0x8408
      itut |-> Row(16, FALSE, <<4129>>), t10dif |-> Row(16, FALSE, <<35767>>),                      \* 0x1021, 0x8bb7
      crc32 |-> Row(32, TRUE, <<33568, 60856>>),                                                    \* 0xedb88320
      crc64 |-> Row(64, FALSE, <<13971, 43498, 57835, 17136>>),                                     \* 0x42f0e1eba9ea3693
      rocksoft |-> Row(64, TRUE, <<51637, 44107, 37673, 39532>>)]                                   \* 0x9a6c9329ac4bc9b5
LimbBits(w) == IF w < 16 THEN w ELSE 16
Xor2(x, y) == [i \in DOMAIN x |-> x[i] ^^ y[i]]
ShiftR(x) == [i \in DOMAIN x |-> x[i] \div 2 + (IF i < Len(x) THEN (x[i + 1] % 2) * 32768 ELSE 0)]
ShiftL(x, w) == LET m == 2 ^ LimbBits(w) IN
    [i \in DOMAIN x |-> ((2 * x[i]) % m) + (IF i > 1 THEN x[i - 1] \div 32768 ELSE 0)]
Top(x, w) == x[Len(x)] \div (2 ^ (LimbBits(w) - 1))
Bit(x, i) == (x \div (2 ^ i)) % 2

OneBit(v, c, b) ==
    IF v.refl THEN (IF (c[1] % 2) # b THEN Xor2(ShiftR(c), v.poly) ELSE ShiftR(c))
    ELSE (IF Top(c, v.w) # b THEN Xor2(ShiftL(c, v.w), v.poly) ELSE ShiftL(c, v.w))
OneByte(v, c, x) == Fold(LAMBDA acc, i : OneBit(v, acc, Bit(x, IF v.refl THEN i ELSE 7 - i)), c, <<0, 1, 2, 3, 4, 5, 6, 7>>)
Crc(name, c, m) == Fold(LAMBDA acc, x : OneByte(V[name], acc, x), c, m)
(* crc4 counts bits: of a last partial byte only the low bits are message, above them zeros *)
Cut(m, bits) == [i \in 1..((bits + 7) \div 8) |-> IF 8 * i <= bits THEN m[i] ELSE m[i] % (2 ^ (bits % 8))]


(* start: variant, initial register.  feed: misalignment of the data, the bytes, bits to use (crc4) *)
Step(s, op, a) ==
  CASE op = "start" -> {[s |-> [k |-> "on", v |-> a[1], init |-> a[2], c |-> a[2], m |-> <<>>], r |-> a[2]]}
    [] op = "feed" -> IF s.k = "null" THEN {} ELSE
         LET d == IF s.v = "crc4" THEN Cut(a[2], a[3]) ELSE a[2]
             c == Crc(s.v, s.c, d)
         IN {[s |-> [s EXCEPT !.c = c, !.m = @ \o d], r |-> c]}
(* a register fed in pieces equals the register of the whole message *)
Inv(s) == s.k = "null" \/ s.c = Crc(s.v, s.init, s.m)

Digits == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
Ones(w) == IF w < 16 THEN <<2 ^ w - 1>> ELSE [i \in 1..(w \div 16) |-> 65535]
Zeros(w) == IF w < 16 THEN <<0>> ELSE [i \in 1..(w \div 16) |-> 0]
(* published check values of these polynomials *)
ASSUME /\ Crc("crc7", <<0>>, Digits) = <<234>>
       /\ Crc("crc8", <<0>>, Digits) = <<244>>
       /\ Crc("crc16", <<0>>, Digits) = <<47933>>
       /\ Crc("ccitt", <<0>>, Digits) = <<8585>>
       /\ Crc("itut", <<0>>, Digits) = <<12739>>
       /\ Crc("t10dif", <<0>>, Digits) = <<53467>>
       /\ Crc("crc32", Ones(32), Digits) = <<50905, 13323>>
       /\ Crc("crc64", Zeros(64), Digits) = <<29511, 2889, 57183, 27712>>
       /\ Crc("rocksoft", Ones(64), Digits) = <<26487, 62854, 60281, 20852>>
====
