---- MODULE MC_Text ----
EXTENDS Text
CONSTANT Far
L(x) == IF x >= 0 THEN <<x % 65536, x \div 65536>> ELSE <<(65536 - ((-x) % 65536)) % 65536, 65535 - (((-x) - 1) \div 65536)>>
Strs == UNION {[1..n -> {32, 97, 200}] : n \in 0..4}
Mems == UNION {[1..n -> {0, 97, 200}] : n \in 0..4}
Edge == {<<0, 0>>, <<1, 0>>, <<Ones, Ones>>, <<0, 32768>>, <<1, 32768>>, <<Ones, 32767>>, <<61440, Ones>>, <<61439, Ones>>, <<0, 1>>, <<22, 1>>, <<65514, 65534>>}
Ptrs == {p \in [1..4 -> {0, 1, 32768, Ones}] : TRUE} \cup {<<x, Ones, Ones, Ones>> : x \in 61430..61450 \cup 65500..65535} \cup {<<x, a, b, c>> : x \in {61440, 65530}, a, b, c \in {0, Ones}}
Cmds(s) ==
  
     {<<"class", <<c>>>> : c \in (-128)..255}
     \cup {<<op, <<m, n>>>> : op \in {"dup", "dupfail"}, m \in Strs, n \in (-2)..6} \cup {<<"dupnull", <<n>>>> : n \in (-2)..1}
     \cup {<<"strdiff", <<m, c>>>> : m \in Strs, c \in {32, 97, 200, -56, 0, 353}}
     \cup {<<"memdiff", <<m, n, c>>>> : m \in Mems, n \in 0..4, c \in {0, 97, 200, -56, 256}}
     \cup {<<"err", <<L(x)>>>> : x \in (-Far)..Far} \cup {<<"err", <<l>>>> : l \in Edge}
     \cup {<<"ptr", <<p>>>> : p \in Ptrs} \cup {<<"eptr", <<L(x)>>>> : x \in (-4100)..100} \cup {<<"eptr", <<l>>>> : l \in Edge}
     \cup {<<"halves", <<p>>>> : p \in [1..4 -> {0, 1, 32768, Ones}]}
Bound(s) == TRUE
====
