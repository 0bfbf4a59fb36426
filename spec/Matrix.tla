------------------------------- MODULE Matrix -------------------------------
(* Matrices of 64-bit unsigned words in three registers, each [r, c, v]: rows, columns, and the row-major cells.   *)
(* A cell is its eight base-256 digits, least significant first; arithmetic wraps.                               *)
EXTENDS Lib
Wrap(cols) == LET f == Fold(LAMBDA acc, x : [d |-> Append(acc.d, (x + acc.c) % 256), c |-> (x + acc.c) \div 256], [d |-> <<>>, c |-> 0], cols) IN f.d
AddW(x, y) == Wrap([i \in 1..8 |-> x[i] + y[i]])
NegW(x) == AddW([i \in 1..8 |-> 255 - x[i]], <<1, 0, 0, 0, 0, 0, 0, 0>>)
SubW(x, y) == AddW(x, NegW(y))
MulW(x, y) == Wrap([k \in 1..8 |-> SumSeq([j \in 1..k |-> x[j] * y[k + 1 - j]])])
ZeroW == [i \in 1..8 |-> 0]
None == [r |-> 0, c |-> 0, v |-> <<>>]
Cell(m, i, j) == m.v[(i - 1) * m.c + j]
Make(r, c, Op(_, _)) == [r |-> r, c |-> c, v |-> [k \in 1..(r * c) |-> Op(((k - 1) \div c) + 1, ((k - 1) % c) + 1)]]
MAdd(x, y) == Make(x.r, x.c, LAMBDA i, j : AddW(Cell(x, i, j), Cell(y, i, j)))
MSub(x, y) == Make(x.r, x.c, LAMBDA i, j : SubW(Cell(x, i, j), Cell(y, i, j)))
MMul(x, y) == Make(x.r, y.c, LAMBDA i, j : Fold(LAMBDA acc, k : AddW(acc, MulW(Cell(x, i, k), Cell(y, k, j))), ZeroW, [k \in 1..x.c |-> k]))
MTrans(x) == Make(x.c, x.r, LAMBDA i, j : Cell(x, j, i))
Start == [k |-> "matrix", m |-> <<None, None, None>>, armed |-> FALSE]
NoMem == -1
Inval == -2
Seen(rc, m) == <<rc, m.r, m.c, Flatten(m.v)>>
Words(b) == [i \in 1..(Len(b) \div 8) |-> SubSeq(b, 8 * i - 7, 8 * i)]
Out(s, d, x) == LET t == [s EXCEPT !.armed = FALSE] IN
    {[s |-> [t EXCEPT !.m[d] = x], r |-> Seen(0, x)]} \cup (IF s.armed THEN {[s |-> t, r |-> Seen(NoMem, s.m[d])]} ELSE {})
Keep(s, d, rc) == {[s |-> [s EXCEPT !.armed = FALSE], r |-> Seen(rc, s.m[d])]}
Step1(s, op, a) ==
    CASE op = "import" -> IF a[2] < 1 \/ a[3] < 1 \/ Len(a[4]) # 8 * a[2] * a[3] THEN {}         \* register, rows, columns, cells
           ELSE Out(s, a[1], [r |-> a[2], c |-> a[3], v |-> Words(a[4])])
      [] op \in {"add", "sub"} -> LET x == s.m[a[2]]  y == s.m[a[3]] IN
           IF x = None \/ y = None THEN {}
           ELSE IF x.r # y.r \/ x.c # y.c THEN Keep(s, a[1], Inval)
           ELSE Out(s, a[1], IF op = "add" THEN MAdd(x, y) ELSE MSub(x, y))
      [] op = "mul" -> LET x == s.m[a[2]]  y == s.m[a[3]] IN
           IF x = None \/ y = None THEN {} ELSE IF x.c # y.r THEN Keep(s, a[1], Inval) ELSE Out(s, a[1], MMul(x, y))
      [] op = "trans" -> IF s.m[a[2]] = None THEN {} ELSE Out(s, a[1], MTrans(s.m[a[2]]))
      [] op = "set" -> IF s.m[a[2]] = None THEN {} ELSE Out(s, a[1], s.m[a[2]])
      [] op = "data" -> LET x == s.m[a[1]] IN                                                       \* row and column from 0
           {[s |-> s, r |-> IF a[2] < x.r /\ a[3] < x.c THEN Cell(x, a[2] + 1, a[3] + 1) ELSE <<>>]}
      [] op = "huge" -> Keep(s, a[1], NoMem)             \* import of 65536 x 65536 cells, product of a column and a row of 65536
      [] op = "release" -> {[s |-> [s EXCEPT !.m[a[1]] = None], r |-> Seen(0, None)]}
      [] op = "live" -> {[s |-> Start, r |-> 0]}          \* blocks still allocated once every register is released
      [] op = "arm" -> {[s |-> [s EXCEPT !.armed = TRUE], r |-> 0]}
      [] OTHER -> {}
Step(s, op, a) == Step1(IF s.k = "null" THEN Start ELSE s, op, a)
Inv(s) == s.k = "null" \/
    /\ \A i \in 1..3 : LET x == s.m[i] IN Len(x.v) = x.r * x.c /\ (x # None => MTrans(MTrans(x)) = x)
    /\ LET x == s.m[1]  y == s.m[2] IN (x # None /\ y # None) =>
         /\ (x.r = y.r /\ x.c = y.c) => (MSub(MAdd(x, y), y) = x /\ MAdd(x, y) = MAdd(y, x))
         /\ x.c = y.r => MTrans(MMul(x, y)) = MMul(MTrans(y), MTrans(x))
=============================================================================
