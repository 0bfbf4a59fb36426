---- MODULE MC_Coding ----
EXTENDS Coding
CONSTANT Few, Dense
Ws == {6, 5, 85}
Sparse == {0, 1, 2, 85, 127, 128, 254, 255}
Msgs == UNION {[1..n -> Few] : n \in 0..4} \cup [1..1 -> 0..255] \cup (IF Dense THEN [1..2 -> 0..255] ELSE [1..2 -> Sparse] \cup [1..3 -> Sparse])
        \cup {[i \in 1..n |-> (i * 37 + n) % 256] : n \in 5..24} \cup {[i \in 1..n |-> 0] : n \in 5..12}
(* one group with every character at every place, and texts cut or continued *)
G(w) == IF w = 6 THEN <<81, 85, 74, 68>> ELSE IF w = 5 THEN <<74, 53, 50, 87, 67, 51, 84, 68>> ELSE <<56, 55, 99, 85, 82>>
Cs == 0..255
Texts(w) == UNION {{[G(w) EXCEPT ![i] = c], [G(w) EXCEPT ![i] = c] \o G(w), G(w) \o [G(w) EXCEPT ![i] = c]} : i \in 1..Len(G(w)), c \in IF Dense THEN Cs ELSE Cs}
            \cup {Take(G(w) \o G(w), i) : i \in 0..(2 * Len(G(w)))}
            \cup {Take(G(w), i) \o <<c>> \o G(w) : i \in 0..Len(G(w)), c \in {61, 122, 0}}
            \cup {<<115, 56, 87, 45, c>> : c \in 33..40} \cup {<<122, 122>>, <<122, 122, 33, 33, 33, 33, 33, 122>>, <<117, 117, 117, 117, 117>>}
NoZ(w) == {t \in Texts(w) : ~Has(t, 122)}
Cmds(s) == IF s.k = "null" THEN {<<"enc", <<w, m>>>> : w \in Ws, m \in Msgs}
           ELSE IF s.m = <<1>> THEN {<<"dec", <<s.w, t>>>> : t \in Texts(s.w)}
                                    \cup {<<"lens", <<s.w, n>>>> : n \in 0..40 \cup {1000000}}
                                    \cup (IF s.w = 85 THEN {<<"fits", <<85, t>>>> : t \in NoZ(85)} ELSE {})
           ELSE {<<"dec", <<s.w, s.t>>>>}
Bound(s) == TRUE
====
