---- MODULE MC_Util ----
EXTENDS Util
CONSTANT Depth, Log
Ones == 65535
Seeds == [1..4 -> {0, 1, 32768, Ones}] \cup {<<x, 0, 0, 0>> : x \in 0..140} \cup {<<x, y, 0, 0>> : x, y \in {2, 7, 15, 16, 127, 255, 4096}}
Strs == UNION {[1..n -> {1, 97, 255}] : n \in 0..5} \cup {[i \in 1..n |-> c] : n \in 6..12, c \in {15, 240, 255, 120}} \cup {<<c>> : c \in 1..255}
Q == UNION {[1..n -> {0, 1}] : n \in 0..5}
Acts == UNION {[1..(2 * n) -> {1, 2, 3, 4}] : n \in 0..3}
Ops == {"set", "clr", "flip", "test", "test_set", "test_clr", "test_flip"}
Sets == {<<>>, <<0>>, <<1>>, <<63>>, <<0, 1, 31, 32, 63>>, <<31>>, <<32>>}
Times == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<Ones, Ones, Ones, Ones>>, <<Ones, Ones, Ones, 32767>>, <<0, 0, 0, 32768>>, <<1, 0, 0, 32768>>, <<Ones, Ones, 0, 0>>, <<0, 0, 1, 0>>, <<Ones, Ones, Ones, 65534>>, <<5, 32768, 0, 0>>}
Pure == {<<"pjw", <<m>>>> : m \in Strs}
        \cup UNION {{<<"circle", <<h, t, l>>>> : h, t \in 0..(2 ^ l - 1)} : l \in 0..Log}
        \cup UNION {{<<"free", <<h, t, l>>>> : h, t \in (2 ^ l - 2)..(2 ^ l + 3)} : l \in 1..Log}
        \cup {<<"flag", <<v, o, i, b>>>> : v \in {"plain", "atomic", "struct", "satomic"}, o \in Ops, i \in {0, 1, 31, 32, 63}, b \in Sets}
        \cup {<<"flag", <<v, o, i, b>>>> : v \in {"plain", "atomic"}, o \in Ops, i \in {64, 127}, b \in {<<>>, <<0, 63>>, <<64>>, <<127>>, <<63, 64, 127>>}}
        \cup {<<"action", <<q>>>> : q \in Acts} \cup {<<"once", <<q>>>> : q \in Q}
        \cup {<<"clean", <<n, k>>>> : n \in {1, 5}, k \in {0, 1}}
        \cup {<<"scn", <<n, m>>>> : n \in 0..7, m \in UNION {[1..j -> {97, 37, 200}] : j \in 0..3} \cup {[i \in 1..j |-> 64 + j] : j \in 4..9}}
        \cup {<<"scnbad", <<n>>>> : n \in 0..3}
        \cup {<<"swap", <<x, y>>>> : x, y \in {-1, 0, 7}} \cup {<<"cmp", <<x>>>> : x \in {0, 1, 5}} \cup {<<"repeat", <<c>>>> : c \in 0..255} \cup {<<"consts", <<0>>>>}
        \cup {<<"time", <<x, y>>>> : x, y \in Times} \cup {<<"shift", <<x, y>>>> : x, y \in Times}
        \cup {<<"bitno", <<n>>>> : n \in 0..130} \cup {<<"bit", <<n>>>> : n \in 0..63} \cup {<<"assert", <<b, c>>>> : b, c \in {0, 1}}
        \cup {<<"member", <<k, c>>>> : k \in 0..3, c \in {0, 1}} \cup {<<"group", <<x, y, c>>>> : x, y \in {-5, 0, 70000}, c \in {0, 9}}
Draw == {<<"u32", <<0>>>>, <<"u64", <<0>>>>, <<"long", <<0>>>>}
Cmds(s) == IF s.k = "null" THEN Pure \cup {<<"init", <<0>>>>} \cup {<<"seed", <<l>>>> : l \in Seeds} ELSE Draw
Bound(s) == s.k = "null" \/ s.n < Depth
====
