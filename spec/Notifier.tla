------------------------------ MODULE Notifier ------------------------------
(* Notification chain (src/notifier.c): handlers ordered by ascending priority; a later registration goes before
   already registered handlers of the same priority. beh[n] is what handler n does when it is called:
   0 done, 1 ask to be removed, 2 stop, 3 remove and stop, 4 unregister itself then done, 5 unregister itself and stop,
   6 unregister the highest-numbered other registered handler that has already been passed (if any), done.           *)
EXTENDS Lib

Nodes(s) == 1..Len(s.prio)
Reg(s, n) == Has(s.q, n)
Res(s, ret) == {[s |-> s, r |-> <<ret, s.q>>]}
New(prio) == Res([k |-> "notifier", prio |-> prio, q |-> <<>>], <<0>>)
Rank(s, n) == Cardinality({i \in 1..Len(s.q) : s.prio[s.q[i]] < s.prio[n]})
Register(s, n) == Res([s EXCEPT !.q = InsertAt0(@, Rank(s, n), n)], <<0>>)
RegisterNull(s) == Res(s, <<-22>>)                       \* a node without an entry is refused
Unregister(s, n) == Res([s EXCEPT !.q = Without(@, n)], <<0>>)
(* run the chain: acc = <<next index into the starting chain, remaining limit, called, gone, ret, stopped>> *)
Removes(b) == b \in {1, 3, 4, 5}
Stops(b) == b \in {2, 3, 5}
Passed(called, n) == {x \in RangeOf(called) : x # n}
RECURSIVE Go(_, _, _, _, _)
Go(q, beh, lim, called, gone) ==
    IF q = <<>> \/ lim = 0 THEN <<called, gone, 0>>
    ELSE LET n == q[1]  b == beh[n]
             still == {x \in Passed(called, n) : x \notin gone}
             g1 == gone \cup (IF Removes(b) THEN {n} ELSE {}) \cup (IF b = 6 /\ still # {} THEN {MaxSet(still)} ELSE {})
             c1 == Append(called, n)
         IN IF Stops(b) THEN <<c1, g1, 2>> ELSE Go(Tail(q), beh, IF lim < 0 THEN lim ELSE lim - 1, c1, g1)
(* lim -1: no limit; cnt: initial value of the called counter, -1: none given *)
Call(s, lim, cnt, beh) ==
    LET g == Go(s.q, beh, lim, <<>>, {})
        t == [s EXCEPT !.q = SelectSeq(@, LAMBDA x : x \notin g[2])]
    IN Res(t, <<g[3], g[1], IF cnt < 0 THEN cnt ELSE cnt + Len(g[1])>>)
Step(s, op, a) ==
    CASE op = "new" -> New(a[1])
      [] op = "register" -> Register(s, a[1])
      [] op = "regnull" -> RegisterNull(s)
      [] op = "unregister" -> Unregister(s, a[1])
      [] op = "call" -> Call(s, a[1], a[2], a[3])
Inv(s) == s.k = "notifier" =>
    /\ \A i \in 1..(Len(s.q) - 1) : s.prio[s.q[i]] <= s.prio[s.q[i + 1]]
    /\ \A n \in Nodes(s) : CountIn(s.q, n) <= 1
=============================================================================
