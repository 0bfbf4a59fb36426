---- MODULE MC_AtomicImpl ----
EXTENDS AtomicImpl
CONSTANT Big
O(f, n) == <<f, n, 0>>
Inc == O("rfetch_inc", 0)
Dec == O("rfetch_dec_test", 0)
Nz(n) == O("rfetch_addnz_test", n)
X(n) == O("xchg", n)
Wr(n) == O("write", n)
Rd == O("read", 0)
Progs == { << <<Dec>>, <<Nz(1)>>, <<Nz(1)>> >>,
           << <<Inc, Dec>>, <<Nz(2)>>, <<Dec>> >>,
           << <<Nz(1), Dec>>, <<Dec>> >>,
           << <<Inc, Dec>>, <<Inc, Dec>>, <<Dec>> >>,
           << <<X(5), X(6)>>, <<X(7), X(8)>> >>,
           << <<X(5)>>, <<X(6)>>, <<X(7)>> >>,
           << <<X(3), Rd>>, <<Nz(4)>>, <<Wr(0)>> >>,
           << <<Nz(1)>>, <<Wr(0), Wr(2)>>, <<X(9)>> >> }
         \cup (IF Big THEN { << <<Nz(1), Dec>>, <<Nz(1), Dec>>, <<Dec>> >>,
                             << <<X(5), Nz(1)>>, <<X(0), X(2)>>, <<Nz(3), Rd>> >>,
                             << <<Nz(1)>>, <<Nz(2)>>, <<Nz(3)>>, <<Dec>> >> } ELSE {})
Cmds(s) == IF s.k = "null" THEN {<<"prog", <<p>>>> : p \in Progs}
           ELSE {<<"step", <<t - 1>>>> : t \in {u \in DOMAIN s.prog : Busy(s, u)}}
Bound(s) == TRUE
====
