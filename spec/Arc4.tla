---- MODULE Arc4 ----
(* The ARC4 key stream: a permutation of 0..255 (box[x + 1] is S[x]) and two indices. *)
EXTENDS Lib
LOCAL INSTANCE Bitwise
Swap(f, x, y) == [f EXCEPT ![x] = f[y], ![y] = f[x]]
Key(key) == Fold(LAMBDA acc, i : LET j == (acc.j + acc.b[i + 1] + key[(i % Len(key)) + 1]) % 256
                                 IN [j |-> j, b |-> Swap(acc.b, i + 1, j + 1)],
                 [j |-> 0, b |-> [i \in 1..256 |-> i - 1]], [i \in 1..256 |-> i - 1]).b
Start(key) == [b |-> Key(key), i |-> 0, j |-> 0, out |-> <<>>]
Next1(st, x) == LET i == (st.i + 1) % 256
                    j == (st.j + st.b[i + 1]) % 256
                    b == Swap(st.b, i + 1, j + 1)
                IN [b |-> b, i |-> i, j |-> j, out |-> Append(st.out, x ^^ b[((b[i + 1] + b[j + 1]) % 256) + 1])]
Apply(st, data) == Fold(Next1, [st EXCEPT !.out = <<>>], data)


(* setkey: bytes; trans: bytes, in place or not *)
Step(s, op, a) ==
  CASE op = "setkey" -> {[s |-> [k |-> "on", st |-> Start(a[1]), n |-> 0], r |-> 0]}
    [] op = "trans" -> IF s.k = "null" THEN {} ELSE
         LET t == Apply(s.st, a[1]) IN {[s |-> [s EXCEPT !.st = [t EXCEPT !.out = <<>>], !.n = @ + Len(a[1])], r |-> t.out]}
Inv(s) == s.k = "null" \/
          /\ RangeOf(s.st.b) = 0..255                      \* always a permutation
          /\ s.st.i \in 0..255 /\ s.st.j \in 0..255 /\ s.n % 256 = s.st.i
ASSUME Apply(Start(<<75, 101, 121>>), <<80, 108, 97, 105, 110, 116, 101, 120, 116>>).out = <<187, 243, 22, 232, 217, 64, 175, 10, 211>>
ASSUME \A key \in {<<0>>, <<1, 2, 3>>, <<255, 0, 255, 7>>} : LET m == [i \in 1..40 |-> (i * 7) % 256]
          IN Apply(Start(key), Apply(Start(key), m).out).out = m           \* applying it twice restores the data
====
