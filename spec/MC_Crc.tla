---- MODULE MC_Crc ----
EXTENDS Crc
CONSTANT Pieces, Long
Piece(n) == [i \in 1..n |-> (i * 73 + 29 * n + 5) % 256]
Names == DOMAIN V
One(w) == IF w < 16 THEN <<1>> ELSE [i \in 1..(w \div 16) |-> IF i = 1 THEN 1 ELSE 0]
Mix(w) == IF w < 16 THEN <<2 ^ (w - 1)>> ELSE [i \in 1..(w \div 16) |-> 4097 * i + 32768]
Starts(w) == {Zeros(w), Ones(w), One(w), Mix(w)}
Cmds(s) ==
  IF s.k = "null" THEN UNION {{<<"start", <<n, i>>>> : i \in Starts(V[n].w)} : n \in Names}
  ELSE {<<"feed", <<off, Piece(n), 8 * n>>>> : off \in IF s.m = <<>> THEN 0..3 ELSE {Len(s.m) % 4}, n \in Pieces}
       \cup (IF s.v = "crc4" THEN {<<"feed", <<0, Piece(n), 8 * n - cut>>>> : n \in Pieces \ {0}, cut \in 1..7} ELSE {})
       \cup (IF s.m = <<>> /\ s.init \in {Zeros(V[s.v].w), Ones(V[s.v].w)} THEN {<<"feed", <<0, <<x>>, 8>>>> : x \in 0..255} ELSE {})
Bound(s) == s.k = "null" \/ s.m = <<>> \/ \E n \in Pieces : s.m = Piece(n) /\ n <= Long
====
