------------------------------ MODULE BitMap ------------------------------
(* Bitmaps (bitmap.h): a register is the set of its one bits among Bits positions, in words of 64.
   Every operation takes a length `len` (the sources agree with the abstract result on [0,len) whatever the
   bits beyond it are) and a flag k: 0 when the length is a run-time value, 1 when it is a compile-time
   constant (another implementation in bitmap.h). A destination must hold the wanted set on [0,len); the bits
   between len and the end of that word are free, the words beyond are untouched.
   The last argument of a destination operation (absent in model commands) is the observed destination. *)
EXTENDS Lib
Words == 24
Bits == 64 * Words
Full == 0..(Bits - 1)

Up(len) == 64 * ((len + 63) \div 64)
Below(x, len) == {i \in x : i < len}
(* outcome of writing `want` (a subset of [0,len)) to register d; o: observed bits *)
Write(s, d, len, want, o, r) ==
    IF o = <<>> THEN {[s |-> [s EXCEPT !.r[d] = want \cup {i \in @ : i >= len}], r |-> r]}
    ELSE LET obs == RangeOf(o[1]) IN
         IF /\ obs \subseteq Full
            /\ Below(obs, len) = want
            /\ {i \in obs : i >= Up(len)} = {i \in s.r[d] : i >= Up(len)}
         THEN {[s |-> [s EXCEPT !.r[d] = obs], r |-> r]} ELSE {}
Obs(a, n) == SubSeq(a, n + 1, Len(a))      \* <<>> in model commands, <<observed>> in recorded ones
Ret(s, b) == {[s |-> s, r |-> B(b)]}

Step(s, op, a) ==
    IF op = "init" THEN
        {[s |-> [k |-> "live", r |-> [i \in 1..4 |-> RangeOf(a[i])]], r |-> 0]}
    ELSE IF s.k = "null" THEN {}
    ELSE CASE op \in {"and", "andnot", "or", "xor"} ->      \* d x y len k
                LET x == Below(s.r[a[2]], a[4])  y == Below(s.r[a[3]], a[4])
                    w == CASE op = "and" -> x \cap y [] op = "andnot" -> x \ y [] op = "or" -> x \cup y
                         [] OTHER -> (x \ y) \cup (y \ x)
                IN Write(s, a[1], a[4], w, Obs(a, 5), IF op \in {"and", "andnot"} THEN B(w # {}) ELSE 0)
           [] op \in {"shl", "shr"} ->                       \* d x shift len k
                LET x == Below(s.r[a[2]], a[4])
                    w == IF op = "shl" THEN Below({i + a[3] : i \in x}, a[4]) ELSE {i - a[3] : i \in {j \in x : j >= a[3]}}
                IN Write(s, a[1], a[4], w, Obs(a, 5), 0)
           [] op = "complement" -> Write(s, a[1], a[3], (0..(a[3] - 1)) \ s.r[a[2]], Obs(a, 4), 0)    \* d x len k
           [] op = "copy" -> Write(s, a[1], a[3], Below(s.r[a[2]], a[3]), Obs(a, 4), 0)
           [] op = "replace" ->                              \* d old new mask len
                Write(s, a[1], a[5], Below((s.r[a[2]] \ s.r[a[4]]) \cup (s.r[a[3]] \cap s.r[a[4]]), a[5]), Obs(a, 5), 0)
           [] op = "zero" -> Write(s, a[1], a[2], {}, Obs(a, 3), 0)                                     \* d len k
           [] op = "fill" -> Write(s, a[1], a[2], (0..(a[2] - 1)), Obs(a, 3), 0)
           [] op \in {"set", "clr"} ->                       \* d start n k: exact
                LET rg == a[2]..(a[2] + a[3] - 1)
                    w == IF op = "set" THEN s.r[a[1]] \cup rg ELSE s.r[a[1]] \ rg
                IN IF Obs(a, 4) = <<>> \/ RangeOf(Obs(a, 4)[1]) = w
                   THEN {[s |-> [s EXCEPT !.r[a[1]] = w], r |-> 0]} ELSE {}
           [] op = "empty" -> Ret(s, Below(s.r[a[1]], a[2]) = {})                                        \* x len k
           [] op = "full" -> Ret(s, (0..(a[2] - 1)) \subseteq s.r[a[1]])
           [] op = "equal" -> Ret(s, Below(s.r[a[1]], a[3]) = Below(s.r[a[2]], a[3]))                    \* x y len k
           [] op = "or_equal" -> Ret(s, Below(s.r[a[1]] \cup s.r[a[2]], a[4]) = Below(s.r[a[3]], a[4]))  \* x y z len k
           [] op = "intersects" -> Ret(s, Below(s.r[a[1]] \cap s.r[a[2]], a[3]) # {})
           [] op = "zalloc" -> {[s |-> s, r |-> <<g, 1, 0>>] : g \in IF a[1] = 0 THEN {0, 1} ELSE {1}}     \* len: got memory, all [0,len) zero, nothing left after free
           [] op = "alloc" -> {[s |-> s, r |-> <<g, 0>>] : g \in IF a[1] = 0 THEN {0, 1} ELSE {1}}        \* len: got memory for len bits, nothing left after free
           [] OTHER -> {}
Inv(s) == s.k = "null" \/ \A i \in 1..4 : s.r[i] \subseteq Full
=============================================================================
