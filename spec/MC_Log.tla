---- MODULE MC_Log ----
EXTENDS Log
CONSTANT Defs, Recs, MaxSize
Sizes == 0..MaxSize
Lit(n) == [i \in 1..n |-> 97 + (i % 26)]
Pre == {<<>>, <<SOH, 50, SOH, 120>>, <<SOH, 56>>, <<SOH, 57, SOH, 49>>} \cup {<<SOH, 48 + d>> : d \in 0..9}
Fixed == <<[def |-> 8, rec |-> 8, color |-> TRUE, level |-> TRUE, out |-> 0], [def |-> 5, rec |-> 7, color |-> TRUE, level |-> TRUE, out |-> 15]>>
Logs == {<<2, d, r, f, o>> : d \in Defs, r \in Recs, f \in 0..3, o \in {0, 10, 15}} \cup {}
Body == {<<"lit", Lit(3), 0>>, <<"sd", <<>>, -45>>, <<"d", <<>>, 1203>>, <<"fail", Lit(2), 0>>}
Cmds(s) == IF s.k = "null" THEN {<<"init", l>> : l \in Logs} \cup {<<"log", <<1, p, "s", Lit(2), 0>>>> : p \in Pre}
                            \cup {<<"level", <<p \o t, nul>>>> : p \in Pre, t \in {<<>>, <<49>>, <<SOH>>}, nul \in {0, 1}} \cup {<<"level", <<<<SOH>>, 0>>>>}
                            \cup {<<"scn", <<n, b[1], b[2], b[3]>>>> : n \in Sizes, b \in Body \cup {<<"s", Lit(9), 0>>}}
           ELSE IF s.g[1] # Global THEN {}
           ELSE {<<"log", <<2, p, b[1], b[2], b[3]>>>> : p \in Pre, b \in Body}
                \cup {<<"macro", <<2, v, 7, v + 7>>>> : v \in 0..8}
                \cup {<<"flag", <<2, w, x>>>> : w \in 0..1, x \in {"set", "clr", "flip", "test", "test_set", "test_clr", "test_flip"}}
                \cup (IF s.g[2].def = 6 THEN {<<"log", <<2, <<SOH, 51>>, "s", Lit(n), 0>>>> : n \in {400} \cup 490..514} ELSE {})
Bound(s) == TRUE
====
