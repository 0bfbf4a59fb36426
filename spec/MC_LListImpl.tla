---- MODULE MC_LListImpl ----
EXTENDS LListImpl
CONSTANT Big
A(n) == <<"add", n, 0>>
Bt(x, y) == <<"batch", x, y>>
D == <<"del", 0, 0>>
X == <<"destroy", 0, 0>>
Progs == { << <<A(1), A(2)>>, <<A(3), A(4)>> >>,
           << <<A(1)>>, <<A(2)>>, <<A(3)>> >>,
           << <<A(1), A(2)>>, <<D, D, D>> >>,
           << <<Bt(1, 3)>>, <<A(4)>>, <<D, X>> >>,
           << <<A(1), D>>, <<Bt(2, 3)>>, <<A(4)>> >>,
           << <<A(1), X>>, <<A(2), X>> >>,
           << <<A(1), A(2)>>, <<X>>, <<X>> >>,
           << <<A(1), D, X>>, <<A(2), A(3)>> >>,
           << <<A(1), D>>, <<A(2), D>> >>,
           << <<A(1), A(2)>>, <<D>>, <<X>> >> }
         \cup (IF Big THEN { << <<A(1), A(2)>>, <<A(3), A(4)>>, <<D, D, X>> >>,
                             << <<A(1), X>>, <<A(2), X>>, <<Bt(3, 4), X>> >>,
                             << <<A(1)>>, <<A(2)>>, <<Bt(3, 5)>>, <<D, D>> >>,
                             << <<A(1), A(2), A(3)>>, <<D, D, A(4), D>> >>,
                             << <<A(1), A(2)>>, <<A(3), D, D>>, <<D, X>> >> } ELSE {})
Cmds(s) == IF s.k = "null" THEN {<<"prog", <<p>>>> : p \in Progs}
           ELSE {<<"step", <<t - 1>>>> : t \in {u \in DOMAIN s.prog : Busy(s, u)}}
Bound(s) == TRUE
====
