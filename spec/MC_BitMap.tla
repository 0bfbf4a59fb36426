------------------------------ MODULE MC_BitMap ------------------------------
EXTENDS BitMap
CONSTANT Deep
Pat == {{}, 0..191, {0}, {63}, {64}, {63, 64, 127, 128}, {i \in 0..191 : i % 3 = 0}}
       \cup (IF Deep = 1 THEN {{1, 62, 65, 126}, {127}, {i \in 0..191 : i % 2 = 1}, 0..64, 32..95} ELSE {})
Garbage == {{i \in 0..255 : i % 5 # 0}}
Lens == {0, 1, 2, 8, 63, 64, 65, 127, 128, 129} \cup (IF Deep = 1 THEN {7, 9, 31, 32, 33, 72, 96, 192} ELSE {})
Sh == {0, 1, 63, 64, 65, 128}
Cmds(s) ==
    IF s.k = "null" THEN {<<"init", <<SortSet(x), SortSet(y), SortSet(g), SortSet(y)>>>> : x \in Pat, y \in Pat, g \in Garbage}
    ELSE UNION {
        {<<o, <<d, 1, 2, n, k>>>> : o \in {"and", "andnot", "or", "xor"}, d \in {1, 2, 3}, n \in Lens, k \in 0..1},
        {<<"replace", <<3, 1, 2, 3, n>>>> : n \in Lens},
        {<<"replace", <<1, 3, 1, 2, n>>>> : n \in Lens},
        {<<o, <<1, 2, n, k>>>> : o \in {"equal", "intersects"}, n \in Lens, k \in 0..1},
        {<<"or_equal", <<1, 2, 3, n, k>>>> : n \in Lens, k \in 0..1},
        {<<"or_equal", <<1, 2, 2, n, k>>>> : n \in Lens, k \in 0..1},
        \* one source only: do not repeat for every second register
        IF s.r[2] # {} THEN {} ELSE UNION {
            {<<o, <<d, 1, h, n, k>>>> : o \in {"shl", "shr"}, d \in {1, 3}, h \in Sh, n \in Lens, k \in 0..1},
            {<<"complement", <<d, 1, n, k>>>> : d \in {1, 3}, n \in Lens, k \in 0..1},
            {<<"copy", <<3, 1, n, k>>>> : n \in Lens, k \in 0..1},
            {<<o, <<1, n, k>>>> : o \in {"zero", "fill", "empty", "full"}, n \in Lens, k \in 0..1},
            {<<o, <<1, b, n, k>>>> : o \in {"set", "clr"}, b \in {0, 1, 8, 63, 64, 65}, n \in Lens, k \in 0..1}},
        IF s.r[1] = {} /\ s.r[2] = {} THEN {<<o, <<n>>>> : o \in {"alloc", "zalloc"}, n \in Lens} ELSE {}}
Bound(s) == s.k = "null" \/ (s.r[1] \in Pat /\ s.r[2] \in Pat /\ s.r[3] \in Garbage)
=============================================================================
