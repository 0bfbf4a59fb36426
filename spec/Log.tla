---- MODULE Log ----
(* Levelled logging.  The state holds two logs: 1 is the library's default log, 2 one of the caller's.  A log is its
   default and recording levels, its two flags and its output: 0 for the standard streams, otherwise a caller's
   function whose return value is out - 10.  Text is a sequence of bytes. *)
EXTENDS Lib
Buf == 512
SOH == 1
Esc == 27
Digit(n) == 48 + n
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<Digit(n)>> ELSE Dec(n \div 10) \o <<Digit(n % 10)>>
Name == <<<<101, 109, 101, 114, 103>>, <<97, 108, 101, 114, 116>>, <<99, 114, 105, 116>>, <<101, 114, 114, 111, 114>>,
          <<119, 97, 114, 110, 105, 110, 103>>, <<110, 111, 116, 105, 99, 101>>, <<105, 110, 102, 111>>,
          <<100, 101, 98, 117, 103>>, <<100, 101, 102, 97, 117, 108, 116>>>>       \* emerg alert crit error warning notice info debug default
Color == <<91, 31, 35, 33, 34, 96, 92, 90, 39>>
Default == 8

(* leading SOH-and-character pairs: digits set the level, other characters are skipped *)
RECURSIVE Parse(_, _, _)
Parse(t, i, lv) == IF i + 1 <= Len(t) /\ t[i] = SOH THEN Parse(t, i + 2, IF t[i + 1] \in 48..57 THEN t[i + 1] - 48 ELSE lv) ELSE <<lv, i - 1>>

(* what the format kinds print: literal text, %s, %d, [%s:%d], and a conversion that fails *)
Fmt(kind, t, n) == CASE kind = "lit" -> t [] kind = "s" -> t [] kind = "d" -> Dec(n)
                     [] kind = "sd" -> <<91>> \o t \o <<58>> \o Dec(n) \o <<93>> [] OTHER -> <<>>
Text(g, lv, body) ==
  LET all == (IF g.level THEN <<91>> \o Name[lv + 1] \o <<93, 32>> ELSE <<>>)
             \o (IF g.color THEN <<Esc, 91>> \o Dec(Color[lv + 1]) \o <<109>> ELSE <<>>)
             \o body \o (IF g.color THEN <<Esc, 91, 48, 109>> ELSE <<>>)
  IN Take(all, Min2(Len(all), Buf - 1))
(* return value, level and text seen by the caller's function, standard output, standard error *)
Record(g, asked, body) ==
  LET lv == IF asked >= Default THEN g.def ELSE asked
      t == Text(g, lv, body)
  IN IF lv > g.rec THEN <<0, -1, <<>>, <<>>, <<>>>>
     ELSE IF g.out # 0 THEN <<g.out - 10, lv, t, <<>>, <<>>>>
     ELSE <<0, -1, <<>>, IF lv > 4 THEN t ELSE <<>>, IF lv > 4 THEN <<>> ELSE t>>
Global == [def |-> 8, rec |-> 8, color |-> TRUE, level |-> TRUE, out |-> 0]
Started == [k |-> "on", g |-> <<Global, Global>>]
BoolInt(b) == IF b THEN 1 ELSE 0
Step1(s, op, a) ==
  CASE op = "init" -> {[s |-> [s EXCEPT !.g[a[1]] = [def |-> a[2], rec |-> a[3], color |-> a[4] % 2 = 1, level |-> a[4] \div 2 = 1, out |-> a[5]]], r |-> 0]}
    [] op = "flag" -> LET g == s.g[a[1]]  old == IF a[2] = 0 THEN g.color ELSE g.level      \* log, flag, action
                          new == CASE a[3] \in {"set", "test_set"} -> TRUE [] a[3] \in {"clr", "test_clr"} -> FALSE
                                   [] a[3] \in {"flip", "test_flip"} -> ~old [] OTHER -> old
                      IN {[s |-> IF a[2] = 0 THEN [s EXCEPT !.g[a[1]].color = new] ELSE [s EXCEPT !.g[a[1]].level = new],
                           r |-> IF a[3] \in {"set", "clr", "flip"} THEN 0 ELSE BoolInt(old)]}
    [] op = "level" -> LET x == Parse(a[1], 1, Default) IN {[s |-> s, r |-> IF a[2] = 0 THEN x ELSE <<x[1], -1>>]}
    [] op = "log" -> LET all == IF a[3] = "lit" THEN a[2] \o a[4] ELSE a[2]        \* log, prefix, kind, text, number
                         p == Parse(all, 1, Default)
                         rest == Drop(all, p[2])
                     IN IF a[3] # "lit" /\ rest # <<>> /\ rest[1] = SOH THEN {}
                        ELSE {[s |-> s, r |-> Record(s.g[a[1]], p[1], CASE a[3] = "fail" -> <<>> [] a[3] = "lit" -> rest [] OTHER -> rest \o Fmt(a[3], a[4], a[5]))]}
    [] op = "macro" -> {[s |-> s, r |-> IF a[2] > a[3] /\ a[2] # 8 THEN <<0, -1, <<>>, <<>>, <<>>>>        \* log, level, compiled-in limit, number
                                        ELSE Record(s.g[a[1]], a[2], <<77, 58, 32>> \o Dec(a[4]))]}
    [] op = "scn" -> LET t == Fmt(a[2], a[3], a[4])              \* buffer size, kind, text, number
                     IN {[s |-> s, r |-> IF a[1] = 0 THEN <<0, <<>>>> ELSE <<Min2(Len(t), a[1] - 1), Take(t, Min2(Len(t), a[1] - 1))>>]}
Step(s, op, a) == Step1(IF s.k = "null" THEN Started ELSE s, op, a)
Inv(s) == s.k = "null" \/ \A i \in 1..2 : s.g[i].def \in 0..8 /\ s.g[i].rec \in 0..9
====
