------------------------------- MODULE Array -------------------------------
(* Dynamic array: a resizable sequence of cells (include/bfdev/array.h).
   State: the stored sequence and a lower bound of the capacity already obtained.
   Every operator below is one public call; it yields the set of allowed
   [s |-> next state, r |-> observable result].  r always ends with the projection
   <<index, size in bytes, content>> of the state after the call.                    *)
EXTENDS Lib

Mk(cell, seq, cap) == [k |-> "array", cell |-> cell, seq |-> seq, cap |-> cap]
Proj(s) == <<Len(s.seq), Len(s.seq) * s.cell, s.seq>>
Res(s, ret) == {[s |-> s, r |-> <<ret>> \o Proj(s)]}
Vals(n, v) == [i \in 1..n |-> (v + i - 1) % 251]

New(cell) == Res(Mk(cell, <<>>, 0), <<0>>)
Push(s, n, v) == Res(Mk(s.cell, s.seq \o Vals(n, v), Max2(s.cap, Len(s.seq) + n)), <<1>>)
Pop(s, n) ==
    IF n > Len(s.seq) THEN Res(s, <<-1>>)
    ELSE Res([s EXCEPT !.seq = SubSeq(s.seq, 1, Len(s.seq) - n)],
             SubSeq(s.seq, Len(s.seq) - n + 1, Len(s.seq)))
Peek(s, n) ==
    IF n > Len(s.seq) THEN Res(s, <<-1>>)
    ELSE Res(s, SubSeq(s.seq, Len(s.seq) - n + 1, Len(s.seq)))
Data(s, i) == Res(s, IF i < Len(s.seq) THEN <<s.seq[i + 1]>> ELSE <<-1>>)
Resize(s, n, v) ==
    Res(Mk(s.cell, IF n <= Len(s.seq) THEN SubSeq(s.seq, 1, n)
                   ELSE s.seq \o Vals(n - Len(s.seq), v), Max2(s.cap, n)), <<0>>)
Reserve(s, n) == Res([s EXCEPT !.cap = Max2(@, Len(s.seq) + n)], <<0>>)
Reset(s) == Res([s EXCEPT !.seq = <<>>], <<0>>)
Release(s) == {[s |-> Mk(s.cell, <<>>, 0), r |-> <<<<0>>, 0, 0, <<>>, 0>>]}     \* last 0: live blocks
\* requests whose byte size exceeds memory or overflows: refused, nothing changes
Huge(s, op) == Res(s, <<IF op \in {"hpush", "hpop", "hpeek", "hdata"} THEN -1 ELSE -2>>)

\* the first allocation made by the call fails; cap bounds when the call may not need one
Need(s, op, a) == CASE op \in {"push", "reserve"} -> Len(s.seq) + a[1]
                    [] op = "resize" -> a[1]
Oom(s, op, a, ok) ==
    {[s |-> x.s, r |-> <<<<0>>>> \o x.r] : x \in ok}
    \cup (IF Need(s, op, a) > s.cap
          THEN {[s |-> s, r |-> <<<<1>>, <<IF op = "push" THEN -1 ELSE -2>>>> \o Proj(s)]} ELSE {})

Call(s, op, a) ==
    CASE op = "push" -> Push(s, a[1], a[2])
      [] op = "pop" -> Pop(s, a[1])
      [] op = "peek" -> Peek(s, a[1])
      [] op = "data" -> Data(s, a[1])
      [] op = "resize" -> Resize(s, a[1], a[2])
      [] op = "reserve" -> Reserve(s, a[1])
      [] op = "reset" -> Reset(s)
      [] op = "release" -> Release(s)
      [] op \in {"hpush", "hpop", "hpeek", "hdata", "hresize", "hreserve"} -> Huge(s, op)

Step(s, op, a) ==
    IF op = "new" THEN New(a[1])
    ELSE IF op = "oom" THEN Oom(s, a[1], Tail(a), Call(s, a[1], Tail(a)))
    ELSE Call(s, op, a)

Inv(s) == s.k = "array" => s.cell > 0 /\ Len(s.seq) <= s.cap
=============================================================================
