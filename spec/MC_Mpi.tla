------------------------------- MODULE MC_Mpi -------------------------------
EXTENDS Mpi
CONSTANT Deep
Z8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
F8 == <<255, 255, 255, 255, 255, 255, 255, 255>>
O8 == <<1, 0, 0, 0, 0, 0, 0, 0>>
H8 == <<0, 0, 0, 0, 0, 0, 0, 128>>
M8 == <<255, 255, 255, 255, 0, 0, 0, 0>>
Mags == {<<>>, O8, F8, H8, Z8 \o O8, F8 \o F8, O8 \o H8, F8 \o H8, Z8 \o F8, Z8 \o Z8 \o O8, F8 \o F8 \o F8, F8 \o M8 \o O8}
    \cup (IF Deep THEN {M8, F8 \o O8, H8 \o O8, F8 \o Z8 \o H8, Z8 \o H8 \o H8, O8 \o F8 \o F8, Z8 \o F8 \o O8 \o H8} ELSE {})
Ops3 == {"add", "sub", "mul", "mod", "and", "or", "xor"}
Imms == {Z8, O8, F8, H8, M8}
Bits == {0, 1, 63, 64, 65, 127, 128, 191}
Cmds(s) ==
    IF s.k = "null" \/ s.n = 0 THEN {<<"import", <<1, p, m>>>> : p \in {0, 1}, m \in Mags}
    ELSE IF s.n = 1 THEN
        {<<"import", <<2, p, m>>>> : p \in {0, 1}, m \in Mags}
        \cup (UNION {{<<op, <<d, 1, i>>>> : op \in {"addi", "subi", "muli", "modi"}, d \in {1, 3}, i \in Imms},
                     {<<"divi", <<p[1], p[2], 1, i>>>> : p \in {<<1, 3>>, <<3, 1>>, <<3, 4>>, <<1, 1>>, <<3, 3>>}, i \in Imms},
                     {<<op, <<d, 1, n>>>> : op \in {"shl", "shr"}, d \in {1, 3}, n \in Bits},
                     {<<op, <<1, n>>>> : op \in {"bset", "bclr", "btest"}, n \in Bits},
                     {<<op, <<d, 1, i>>>> : op \in {"shlx", "shrx"}, d \in {1, 3}, i \in 1..3},
                     {<<"set", <<d, 1>>>> : d \in {1, 3}}, {<<"cmpi", <<1, i>>>> : i \in Imms},
                     {<<"seti", <<1, i>>>> : i \in Imms}, {<<"release", <<1>>>>}, {<<"get", <<1>>>>}})
    ELSE IF s.n = 2 THEN
        {<<op, <<d, x, y>>>> : op \in Ops3, d \in {1, 2, 3}, x \in {1}, y \in {1, 2}}
        \cup {<<"div", <<p[1], p[2], 1, 2>>>> : p \in {<<1, 2>>, <<2, 1>>, <<3, 4>>, <<1, 3>>, <<3, 2>>, <<1, 1>>, <<2, 2>>, <<3, 3>>}}
        \cup {<<"div", <<p[1], p[2], 1, 1>>>> : p \in {<<1, 2>>, <<3, 1>>}}
        \cup {<<"cmp", <<1, 2>>>>}
    ELSE {}
Bound(s) == TRUE
=============================================================================
