--------------------------------- MODULE Mpi ---------------------------------
(* Arbitrary precision integers in four registers.  A number is [p |-> sign, m |-> magnitude]: p is 1 for zero and  *)
(* above and 0 below; m is the sequence of base-256 digits, least significant first, without leading zeros.  The   *)
(* code keeps 64-bit words, so a register is observed as its sign and 8 digits for every word it needs.           *)
(* After a failed operation its destination holds some number, which becomes known when it is next looked at.     *)
EXTENDS Nat256
LOCAL INSTANCE Bitwise
(* signed numbers *)
Num(p, m) == [p |-> IF m = <<>> THEN 1 ELSE p, m |-> m]
Zero == Num(1, <<>>)
Unknown == [p |-> -1, m |-> <<>>]
Neg(x) == Num(1 - x.p, x.m)
SAdd(x, y) == IF x.p = y.p THEN Num(x.p, MAdd(x.m, y.m))
              ELSE IF MCmp(x.m, y.m) >= 0 THEN Num(x.p, MSub(x.m, y.m)) ELSE Num(y.p, MSub(y.m, x.m))
SSub(x, y) == SAdd(x, Neg(y))
SMul(x, y) == Num(IF x.p = y.p THEN 1 ELSE 0, MMul(x.m, y.m))
SQuot(x, y) == Num(IF x.p = y.p THEN 1 ELSE 0, MDivMod(x.m, y.m).q)         \* towards zero
SRem(x, y) == Num(x.p, MDivMod(x.m, y.m).r)
SCmp(x, y) == IF x.p # y.p THEN (IF x.p = 1 THEN 1 ELSE -1) ELSE IF x.p = 1 THEN MCmp(x.m, y.m) ELSE MCmp(y.m, x.m)
(* how a register is seen: sign and whole words *)
Seen(x) == <<x.p, Pad(x.m, ((Len(x.m) + 7) \div 8) * 8)>>
Canonical(o) == o[1] \in {0, 1} /\ Len(o[2]) % 8 = 0 /\ (\A i \in DOMAIN o[2] : o[2][i] \in 0..255)
                /\ (o[2] = <<>> => o[1] = 1) /\ (o[2] # <<>> => \E i \in (Len(o[2]) - 7)..Len(o[2]) : o[2][i] # 0)
NoMem == -1
DivZero == -2
Bin2(op, x, y) ==
    CASE op = "add" -> SAdd(x, y) [] op = "sub" -> SSub(x, y) [] op = "mul" -> SMul(x, y) [] op = "mod" -> SRem(x, y)
      [] op = "and" -> Num(1, MBits(x.m, y.m, LAMBDA u, v : u & v)) [] op = "or" -> Num(1, MBits(x.m, y.m, LAMBDA u, v : u | v))
      [] op = "xor" -> Num(1, MBits(x.m, y.m, LAMBDA u, v : u ^^ v))
Start == [k |-> "mpi", v |-> <<Zero, Zero, Zero, Zero>>, armed |-> FALSE, n |-> 0]
Imm(b) == Num(1, Strip(b))
(* the outcomes of an operation that writes the numbers ws to the registers ds *)
Out(s, ds, ws) ==
    LET V(vals) == [i \in 1..4 |-> IF Has(ds, i) THEN vals[Pos(ds, i)] ELSE s.v[i]]
        t == [s EXCEPT !.armed = FALSE, !.n = Min2(@ + 1, 3)] IN
    {[s |-> [t EXCEPT !.v = V(ws)], r |-> <<<<0>>>> \o [i \in 1..Len(ws) |-> <<Seen(ws[i])>>]]}
    \cup (IF s.armed THEN {[s |-> [t EXCEPT !.v = V([i \in 1..Len(ds) |-> Unknown])], r |-> <<<<NoMem>>>>]} ELSE {})
OutDiv(s, dq, dr, q, r) == IF dq = dr THEN Out(s, <<dq>>, <<q>>) ELSE Out(s, <<dq, dr>>, <<q, r>>)   \* the quotient wins
Fail(s, rc) == {[s |-> [s EXCEPT !.armed = FALSE, !.n = Min2(@ + 1, 3)], r |-> <<<<rc>>>>]}
Same(s, r) == {[s |-> [s EXCEPT !.armed = FALSE], r |-> r]}
Known(s, I) == \A i \in I : s.v[i] # Unknown
Step1(s, op, a) ==
    CASE op \in {"add", "sub", "mul", "and", "or", "xor"} ->         \* destination, operands
           IF ~Known(s, {a[2], a[3]}) THEN {} ELSE Out(s, <<a[1]>>, <<Bin2(op, s.v[a[2]], s.v[a[3]])>>)
      [] op = "mod" -> IF ~Known(s, {a[2], a[3]}) THEN {} ELSE
           IF s.v[a[3]] = Zero THEN Fail(s, DivZero) ELSE Out(s, <<a[1]>>, <<SRem(s.v[a[2]], s.v[a[3]])>>)
      [] op = "div" -> IF ~Known(s, {a[3], a[4]}) THEN {} ELSE            \* quotient, remainder, operands
           IF s.v[a[4]] = Zero THEN Fail(s, DivZero)
           ELSE OutDiv(s, a[1], a[2], SQuot(s.v[a[3]], s.v[a[4]]), SRem(s.v[a[3]], s.v[a[4]]))
      [] op \in {"addi", "subi", "muli"} -> IF ~Known(s, {a[2]}) THEN {} ELSE          \* destination, operand, immediate digits
           LET x == s.v[a[2]]  y == Imm(a[3]) IN
           Out(s, <<a[1]>>, <<IF op = "addi" THEN SAdd(x, y) ELSE IF op = "subi" THEN SSub(x, y) ELSE SMul(x, y)>>)
      [] op = "modi" -> IF ~Known(s, {a[2]}) THEN {} ELSE
           IF Imm(a[3]) = Zero THEN Fail(s, DivZero) ELSE Out(s, <<a[1]>>, <<SRem(s.v[a[2]], Imm(a[3]))>>)
      [] op = "divi" -> IF ~Known(s, {a[3]}) THEN {} ELSE
           IF Imm(a[4]) = Zero THEN Fail(s, DivZero)
           ELSE OutDiv(s, a[1], a[2], SQuot(s.v[a[3]], Imm(a[4])), SRem(s.v[a[3]], Imm(a[4])))
      [] op = "shl" -> IF ~Known(s, {a[2]}) THEN {} ELSE Out(s, <<a[1]>>, <<Num(s.v[a[2]].p, MShl(s.v[a[2]].m, a[3]))>>)
      [] op = "shr" -> IF ~Known(s, {a[2]}) THEN {} ELSE Out(s, <<a[1]>>, <<Num(s.v[a[2]].p, MShr(s.v[a[2]].m, a[3]))>>)
      [] op = "shrx" -> IF ~Known(s, {a[2]}) THEN {} ELSE Out(s, <<a[1]>>, <<Zero>>)    \* by more bits than any number here has
      [] op = "shlx" -> IF ~Known(s, {a[2]}) THEN {} ELSE                              \* by more bits than memory holds
           IF s.v[a[2]] = Zero THEN Out(s, <<a[1]>>, <<Zero>>)
           ELSE {[s |-> [s EXCEPT !.v[a[1]] = Unknown, !.armed = FALSE], r |-> <<<<NoMem>>>>]}
      [] op = "bset" -> IF ~Known(s, {a[1]}) THEN {} ELSE Out(s, <<a[1]>>, <<Num(s.v[a[1]].p, MSet(s.v[a[1]].m, a[2], 1))>>)
      [] op = "bclr" -> IF ~Known(s, {a[1]}) THEN {} ELSE Out(s, <<a[1]>>, <<Num(s.v[a[1]].p, MSet(s.v[a[1]].m, a[2], 0))>>)
      [] op = "btest" -> IF ~Known(s, {a[1]}) THEN {} ELSE Same(s, MBit(s.v[a[1]].m, a[2]))
      [] op = "cmp" -> IF ~Known(s, {a[1], a[2]}) THEN {} ELSE Same(s, SCmp(s.v[a[1]], s.v[a[2]]))
      [] op = "cmpi" -> IF ~Known(s, {a[1]}) THEN {} ELSE Same(s, SCmp(s.v[a[1]], Imm(a[2])))
      [] op = "seti" -> Out(s, <<a[1]>>, <<Imm(a[2])>>)
      [] op = "set" -> IF ~Known(s, {a[2]}) THEN {} ELSE Out(s, <<a[1]>>, <<s.v[a[2]]>>)
      [] op = "import" -> Out(s, <<a[1]>>, <<Num(a[2], Strip(a[3]))>>)                 \* register, sign, digits of whole words
      [] op = "release" -> Out(s, <<a[1]>>, <<Zero>>)
      [] op = "get" -> IF s.v[a[1]] # Unknown THEN Same(s, Seen(s.v[a[1]]))
           ELSE IF Len(a) < 2 \/ ~Canonical(a[2]) THEN {}
           ELSE {[s |-> [s EXCEPT !.v[a[1]] = Num(a[2][1], Strip(a[2][2])), !.armed = FALSE], r |-> a[2]]}
      [] op = "live" -> {[s |-> Start, r |-> 0]}                                      \* blocks still allocated once every register is released
      [] op = "arm" -> {[s |-> [s EXCEPT !.armed = TRUE], r |-> 0]}                    \* the k-th allocation from here fails
      [] OTHER -> {}
Step(s, op, a) == Step1(IF s.k = "null" THEN Start ELSE s, op, a)
InvNum(x) == x = Unknown \/ (x.p \in {0, 1} /\ (x.m = <<>> => x.p = 1) /\ (x.m # <<>> => x.m[Len(x.m)] # 0))
(* the arithmetic is one: sums and differences cancel, quotient and remainder give back the dividend *)
Inv(s) == s.k = "null" \/
    /\ \A i \in 1..4 : InvNum(s.v[i])
    /\ LET x == s.v[1]  y == s.v[2] IN (x # Unknown /\ y # Unknown /\ s.n = 2) =>
        /\ SSub(SAdd(x, y), y) = x /\ SAdd(x, y) = SAdd(y, x) /\ SMul(x, y) = SMul(y, x)
        /\ SCmp(x, y) = -SCmp(y, x) /\ SCmp(x, y) = SCmp(SSub(x, y), Zero)
        /\ y # Zero => LET q == SQuot(x, y)  r == SRem(x, y) IN
             SAdd(SMul(q, y), r) = x /\ MCmp(r.m, y.m) < 0 /\ (r = Zero \/ r.p = x.p)
        /\ y # Zero => SQuot(SMul(x, y), y) = x
=============================================================================
