------------------------------ MODULE MC_BitOps ------------------------------
EXTENDS BitOps
CONSTANT Deep
Pat == {{}, 0..191, {0}, {63}, {64}, {63, 64, 127, 128}, {i \in 0..191 : i % 3 = 0}, 0..191 \ {63}, 0..191 \ {64}, 0..191 \ {0}}
       \cup (IF Deep = 1 THEN {{1, 62, 65, 126}, {127}, {i \in 0..191 : i % 2 = 1}, 0..64, 32..95, 0..191 \ {127}} ELSE {})
Lens == {0, 1, 2, 63, 64, 65, 127, 128, 129} \cup (IF Deep = 1 THEN {7, 8, 9, 16, 31, 32, 33, 72, 96, 192} ELSE {})
Offs == {0, 1, 31, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192}
(* words: every single bit, every complement of one, every prefix, some dense ones *)
W(w) == {{}, 0..(w - 1), {i \in 0..(w - 1) : i % 2 = 0}, {i \in 0..(w - 1) : i % 3 = 1}}
        \cup {{b} : b \in 0..(w - 1)} \cup {0..(w - 1) \ {b} : b \in 0..(w - 1)} \cup {0..b : b \in 0..(w - 1)} \cup {b..(w - 1) : b \in 0..(w - 1)}
Wide == {8, 16, 32, 64}
Cmds(s) ==
    IF s.k = "null" THEN UNION {
        {<<"init", <<Asc(x), Asc(y)>>>> : x \in Pat, y \in {{}, {i \in 0..191 : i % 5 # 1}}},
        UNION {{<<o, <<w, Asc(x), k>>>> : o \in {"popcount", "parity", "bitrev"}, x \in W(w), k \in 0..2} : w \in Wide},
        UNION {{<<o, <<w, Asc(x), h>>>> : o \in {"rol", "ror"}, x \in {{0}, {w - 1}, {}, {0, 1, w - 2}}, h \in 0..(w + 1) \cup {200}} : w \in Wide},
        {<<o, <<Asc(x), v>>>> : o \in {"ffs", "fls", "ffz", "flz"}, x \in W(64), v \in 0..1},
        {<<o, <<Asc(x), v>>>> : o \in {"ffsuf", "flsuf", "ctz", "clz"}, x \in W(64) \ {{}}, v \in 0..1},
        {<<o, <<Asc(x), v>>>> : o \in {"ffzuf", "flzuf"}, x \in W(64) \ {0..63}, v \in 0..1},
        {<<o, <<Asc(x), n, v>>>> : o \in {"ffns", "flns", "ffnz", "flnz"}, x \in {{}, 0..63, {0}, {63}, {0, 63}, {i \in 0..63 : i % 3 = 1}, 0..62},
                                  n \in {0, 1, 2, 20, 21, 22, 42, 62, 63, 64}, v \in 0..1}}
    ELSE UNION {
        {<<o, <<z, n, k>>>> : o \in {"first", "last", "each", "each_rev"}, z \in 0..1, n \in Lens, k \in 0..1},
        {<<o, <<z, n, k, f>>>> : o \in {"next", "prev"}, z \in 0..1, n \in Lens, k \in 0..1, f \in Offs},
        {<<o, <<z, n, k, f>>>> : o \in {"each_cont", "each_rev_cont", "each_form", "each_rev_form"}, z \in 0..1, n \in Lens, k \in 0..1, f \in {0, 63, 64, 100}},
        {<<o, <<n, k, f>>>> : o \in {"next_and", "prev_and"}, n \in Lens, k \in 0..1, f \in Offs},
        {<<o, <<z, n>>>> : o \in {"sfirst", "slast"}, z \in 0..1, n \in Lens},
        {<<o, <<z, n, f>>>> : o \in {"snext", "sprev"}, z \in 0..1, n \in Lens, f \in Offs},
        {<<o, <<b, at>>>> : o \in {"set", "clr", "flip", "test", "test_set", "test_clr", "test_flip"}, b \in {0, 63, 64, 127}, at \in 0..5},
        {<<o, <<b, at, v>>>> : o \in {"change", "test_change"}, b \in {0, 63, 64, 127}, at \in 0..5, v \in 0..1}}
Bound(s) == s.k = "null" \/ s.r[1] \in Pat
=============================================================================
