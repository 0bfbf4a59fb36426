---------------------------- MODULE MC_Notifier ----------------------------
EXTENDS Notifier
CONSTANT BEH
Prios == {<<1, 1, 2>>, <<3, 2, 1>>, <<0, -1, 0>>}
Cmds(s) ==
    IF s.k = "null" THEN {<<"new", <<p>>>> : p \in Prios}
    ELSE UNION {{<<"register", <<n>>>> : n \in {n \in Nodes(s) : ~Reg(s, n)}},
                {<<"unregister", <<n>>>> : n \in RangeOf(s.q)}, {<<"regnull", <<0>>>>},
                {<<"call", <<l, c, b>>>> : l \in -1..3, c \in {-1, 5}, b \in [1..3 -> BEH]}}
Bound(s) == TRUE
=============================================================================
