------------------------------ MODULE Limiter ------------------------------
(* Rate limiter (ratelimit.h) and token bucket (tokenbucket.h). A time is a pair <<a,b>> standing for a*U + b with U
   larger than every b that occurs and a multiple of every token interval, which makes long idle times expressible.
   A count c < 0 stands for 2^32 + c. A time of zero is the library's "not started": times are positive. *)
EXTENDS Lib
Later(x, y) == x[1] > y[1] \/ (x[1] = y[1] /\ x[2] > y[2])
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Zero == <<0, 0>>
Gt(c, n) == c < 0 \/ c > n            \* count c exceeds the small number n
Out(s, r) == {[s |-> s, r |-> r]}
(* ---- rate limiter: at most `burst` within [begin, begin + interval] ---- *)
Rate(s, t) ==
    IF s.iv = Zero THEN Out(s, <<1, s.passed, s.missed>>)
    ELSE LET b0 == IF s.begin = Zero THEN t ELSE s.begin
             fresh == s.iv # <<-1, 0>> /\ Later(t, Plus(b0, s.iv))       \* <<-1,0>>: the largest interval there is
             n == [s EXCEPT !.begin = IF fresh THEN t ELSE b0, !.passed = IF fresh THEN 0 ELSE @]
         IN IF Gt(s.burst, n.passed)
            THEN LET m == [n EXCEPT !.passed = @ + 1] IN Out(m, <<1, m.passed, m.missed>>)
            ELSE LET m == [n EXCEPT !.missed = @ + 1] IN Out(m, <<0, m.passed, m.missed>>)
(* ---- token bucket: `used` tokens are missing from the full bucket ---- *)
TokB(s, t) ==
    IF s.iv = 0 THEN Out(s, <<1, s.passed, s.missed>>)
    ELSE LET s0 == IF s.last = Zero THEN [s EXCEPT !.used = 0, !.last = t] ELSE s
             da == t[1] - s0.last[1]  db == t[2] - s0.last[2]
             s1 == IF Later(s0.last, t) THEN s0                          \* no tokens for a clock that steps back
                   ELSE IF da > 0 THEN [s0 EXCEPT !.used = 0, !.last = <<t[1], t[2] - (db % s.iv)>>]
                   ELSE [s0 EXCEPT !.used = Max2(0, @ - (db \div s.iv)), !.last = <<@[1], @[2] + (db \div s.iv) * s.iv>>]
         IN IF Gt(s.cap, s1.used) THEN LET m == [s1 EXCEPT !.used = @ + 1, !.passed = @ + 1] IN Out(m, <<1, m.passed, m.missed>>)
            ELSE LET m == [s1 EXCEPT !.missed = @ + 1] IN Out(m, <<0, m.passed, m.missed>>)
Step(s, op, a) ==
    CASE op = "rate" -> Out([k |-> "rate", iv |-> a[1], burst |-> a[2], begin |-> Zero, passed |-> 0, missed |-> 0], <<0, 0, 0>>)
      [] op = "bucket" -> Out([k |-> "bucket", iv |-> a[1], cap |-> a[2], last |-> Zero, used |-> 0, passed |-> 0, missed |-> 0], <<0, 0, 0>>)
      [] s.k = "null" -> {}
      [] op = "call" -> IF a[1] = Zero THEN {} ELSE IF s.k = "rate" THEN Rate(s, a[1]) ELSE TokB(s, a[1])
      [] op = "reset" -> IF s.k = "rate" THEN Out([s EXCEPT !.begin = Zero, !.passed = 0, !.missed = 0], <<0, 0, 0>>)
                         ELSE Out([s EXCEPT !.last = Zero, !.passed = 0, !.missed = 0], <<0, 0, 0>>)
      [] op = "skip" ->     \* token bucket: the time up to now earns nothing
            IF s.k = "rate" \/ s.last = Zero \/ Later(s.last, a[1]) THEN {} ELSE Out([s EXCEPT !.last = a[1]], <<0, s.passed, s.missed>>)
      [] OTHER -> {}
Inv(s) == s.k = "null" \/ (s.passed >= 0 /\ s.missed >= 0 /\ (s.k = "rate" => s.burst < 0 \/ s.passed <= s.burst)
                           /\ (s.k = "bucket" => s.cap < 0 \/ s.used <= s.cap))
=============================================================================
