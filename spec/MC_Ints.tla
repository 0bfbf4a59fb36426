---- MODULE MC_Ints ----
EXTENDS Ints
CONSTANT Shifts, Small
U == {"u8", "u16", "u32", "u64"}
S == {"s8", "s16", "s32", "s64"}
(* boundary operands of w bytes *)
E(w) == {Fit(N(n), w) : n \in Small} \cup {Fit(P2(n), w) : n \in {4 * w, 8 * w - 1}}
        \cup {Fit(MSub(P2(n), k), w) : n \in {8 * w - 1, 8 * w}, k \in {One, <<2>>}} \cup {Fit(MAdd(P2(8 * w - 1), One), w)}
Pow(w) == {Fit(P2(n), w) : n \in {k \in Shifts : k < 8 * w}}
SmallPow(w, t) == {Fit(P2(n), w) : n \in {k \in Shifts : k < 8 * w - (IF Signed(t) THEN 1 ELSE 0)}}
M(t) == Max2(4, Wd(t))
PT(t) == IF Wd(t) >= 4 THEN t ELSE "s32"                    \* the type arithmetic on t is done in
NearOk(t, x, y) == LET X == Val(t, x)  Y == Val(t, y) IN
    Y.m # <<>> /\ InType(SAdd(X, Num(1, MShr(Y.m, 1))), PT(t)) /\ InType(SAdd(X, SNeg(Num(1, MShr(Y.m, 1)))), IF Signed(t) THEN PT(t) ELSE "s64")
    /\ InType(Near(X, Y), PT(t))
NearAll(t) == {<<"near", <<t, x, y>>>> : x \in E(Wd(t)), y \in E(Wd(t))}
Runs(w) == {<<lo, n>> \in (0..(8 * w - 1)) \X (1..(8 * w)) : lo + n <= 8 * w /\ lo \in Shifts /\ (n \in Shifts \/ lo + n = 8 * w)}
Doubles == {Fit(MAdd(MMul(x, Nat2(8)), y), 16) : x, y \in {<<>>, One, Fs(8), P2(63), MSub(P2(63), One)}}
Words == {Strip(x) : x \in E(8)}
All ==
    {<<op, <<t, x, y>>>> : op \in {"add", "sub", "mul"}, t \in {"u8", "s8"}, x, y \in E(1)}
    \cup UNION {{<<op, <<t, x, y>>>> : op \in {"add", "sub", "mul"}, x, y \in E(Wd(t))} : t \in (U \cup S) \ {"u8", "s8"}}
    \cup UNION {{<<"round", <<t, x, y>>>> : x \in E(Wd(t)), y \in Pow(Wd(t))} : t \in U}
    \cup UNION {{<<"align", <<t, v, x, y>>>> : x \in E(Wd(t)), y \in SmallPow(Wd(v), v)} : t \in U, v \in U \cup {"s32"}}
    \cup UNION {{<<"alignptr", <<v, x, y>>>> : x \in E(8), y \in SmallPow(Wd(v), v)} : v \in U \cup {"s32"}}
    \cup UNION {{<<"divup", <<t, x, y>>>> : x \in E(Wd(t)), y \in {z \in E(Wd(t)) : Strip(z) # <<>>}} : t \in U}
    \cup UNION {NearAll(t) : t \in U \cup S}
    \cup UNION {{<<"log", <<t, x>>>> : x \in {z \in E(Wd(t)) \cup Pow(Wd(t)) : MCmp(Strip(z), P2(63)) <= 0}} : t \in U}
    \cup {<<"swap", <<k, Take(<<1, 2, 3, 4, 5, 250, 7, 255>>, Len(Swaps[k]))>>>> : k \in DOMAIN Swaps}
    \cup {<<"order", <<Take(<<129, 2, 3, 4, 5, 250, 7, 255>>, w)>>>> : w \in {2, 4, 8}}
    \cup {<<"net", <<Take(<<129, 2, 3, 4>>, w)>>>> : w \in {2, 4}}
    \cup {<<"swaparr", <<w, [i \in 1..(w * n) |-> 7 * i]>>>> : w \in {2, 4, 8}, n \in 0..3}
    \cup {<<"orderarr", <<w, [i \in 1..(w * n) |-> 7 * i]>>>> : w \in {2, 4, 8}, n \in 0..3}
    \cup {<<"peek", <<[i \in 1..16 |-> 13 * i], at, w>>>> : at \in 0..8, w \in {2, 4, 8}}
    \cup {<<"poke", <<[i \in 1..16 |-> 13 * i], at, Take(<<129, 2, 3, 4, 5, 250, 7, 255>>, w), k>>>> : at \in 0..8, w \in {2, 4, 8}, k \in {"le", "be", "native", "word"}}
    \cup {<<"bcd", <<n>>>> : n \in 0..99}
    \cup UNION {{<<"field", <<t, Fit(MShl(MSub(P2(r[2]), One), r[1]), Wd(t)), x, v, wide>>>> : r \in Runs(Wd(t)), x \in {Fs(Wd(t)), Fit(N(90), Wd(t))},
                 v \in {Fit(One, Wd(t)), Fs(Wd(t))}, wide \in {Fit(P2(n), 8) : n \in Shifts}} : t \in U}
    \cup UNION {{<<"minmax", <<t, x, lo, hi>>>> : x \in E(Wd(t)), lo, hi \in {z \in E(Wd(t)) : Len(z) = Wd(t)}} : t \in {"u8", "s8", "s32", "u64"}}
    \cup {<<"hash", <<x, n>>>> : x \in E(4), n \in 1..32} \cup {<<"hash", <<x, n>>>> : x \in E(8), n \in 1..64}
    \cup {<<"jhash", <<[i \in 1..n |-> (i * 41) % 256], init, off>>>> : n \in 0..26, init \in {<<0, 0>>, <<1, 65535>>}, off \in 0..3}
    \cup {<<"bit", <<n, <<3, 0, 255, 0, 0, 0, 128, 1>>>>>> : n \in 0..130}
    \cup {<<"range", <<hi, lo>>>> : hi, lo \in Shifts}
    \cup {<<"mask", <<n>>>> : n \in 1..64}
    \cup {<<op, <<x, y>>>> : op \in {"dadd", "dsub"}, x, y \in Doubles}
    \cup {<<"dmul", <<x, y>>>> : x, y \in E(8)}
    \cup {<<"ddiv", <<x, y>>>> : x \in Doubles, y \in {z \in E(8) : Strip(z) # <<>>}}
    \cup {<<"ddivd", <<x, y>>>> : x \in Doubles, y \in {z \in Doubles : Strip(z) # <<>>}}
    \cup {<<"dqr", <<x, y>>>> : x \in Doubles, y \in {z \in E(8) : z[8] >= 128}}
Okay(c) == LET op == c[1]  a == c[2] IN
    CASE op = "near" -> NearOk(a[1], a[2], a[3])
      [] op = "divup" -> InType(Num(1, MSub(MAdd(Strip(a[2]), Strip(a[3])), One)), PT(a[1]))
      [] op = "minmax" -> ~SLess(Val(a[1], a[4]), Val(a[1], a[3]))
      [] op = "range" -> a[1] >= a[2]
      [] op = "dqr" -> MCmp(Strip(Drop(a[1], 8)), Strip(a[2])) < 0
      [] OTHER -> TRUE
Cmds(s) == IF s.k = "null" THEN {<<"mask", <<1>>>>} ELSE {c \in All : Okay(c)}
Bound(s) == TRUE
ASSUME \A w \in {1, 2, 4, 8} : \A x, y \in E(w) : Facts(x, y)
====
