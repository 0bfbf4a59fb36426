------------------------------- MODULE Queue -------------------------------
(* Bounded queue of elements or of records: specification of the fifo (include/bfdev/fifo.h, ring = 0)
   and of the overwriting ring buffer (include/bfdev/ringbuf.h, ring = 1).
   State: capacity size in elements, header size rec of a record (0: plain elements), and the queue q
   (a sequence of elements, or a sequence of records, each a sequence of elements).                 *)
EXTENDS Lib

Used(s) == IF s.rec = 0 THEN Len(s.q)
           ELSE Fold(LAMBDA acc, x : acc + s.rec + Len(x), 0, s.q)
Proj(s) == <<Used(s), B(Used(s) = 0), B(Used(s) >= s.size)>>
Res(s, ret) == {[s |-> s, r |-> ret \o Proj(s)]}

\* drop whole oldest records until n more elements fit
RECURSIVE MakeRoom(_, _)
MakeRoom(s, n) == IF Used(s) + n <= s.size \/ s.q = <<>> THEN s ELSE MakeRoom([s EXCEPT !.q = Tail(@)], n)

InRec(s, v) ==
    IF s.ring = 0
    THEN IF Len(v) + s.rec > s.size - Used(s) THEN Res(s, <<0>>)
         ELSE Res([s EXCEPT !.q = Append(@, v)], <<Len(v)>>)
    ELSE IF s.rec > s.size THEN Res(s, <<0>>)      \* not even a header fits
    ELSE LET w == Take(v, s.size - s.rec)
             t == MakeRoom(s, Len(w) + s.rec)
         IN Res([t EXCEPT !.q = Append(@, w)], <<Len(w)>>)
InFlat(s, v) ==
    IF s.ring = 0
    THEN LET n == Min2(Len(v), s.size - Len(s.q)) IN Res([s EXCEPT !.q = @ \o Take(v, n)], <<n>>)
    ELSE LET w == Take(v, s.size)
             all == s.q \o w
         IN Res([s EXCEPT !.q = Drop(all, IF Len(all) > s.size THEN Len(all) - s.size ELSE 0)], <<Len(w)>>)
In(s, v) == IF s.rec = 0 THEN InFlat(s, v) ELSE InRec(s, v)

Put(s, v) ==
    IF s.rec > 0 THEN InRec(s, <<v>>)
    ELSE IF s.ring = 0
    THEN IF Len(s.q) >= s.size THEN Res(s, <<0>>) ELSE Res([s EXCEPT !.q = Append(@, v)], <<1>>)
    ELSE LET full == Len(s.q) >= s.size     \* the answer says whether the oldest element was overwritten
         IN Res([s EXCEPT !.q = Append(IF full THEN Tail(@) ELSE @, v)], <<B(full)>>)

\* what the next read of at most n elements yields, and the queue without it
Head0(s, n) == IF s.q = <<>> THEN <<>> ELSE IF s.rec = 0 THEN Take(s.q, n) ELSE Take(Head(s.q), n)
Rest0(s, n) == IF s.q = <<>> THEN s.q ELSE IF s.rec = 0 THEN Drop(s.q, Min2(n, Len(s.q))) ELSE Tail(s.q)
Out(s, n) == Res([s EXCEPT !.q = Rest0(s, n)], <<Len(Head0(s, n)), Head0(s, n)>>)
OutPeek(s, n) == Res(s, <<Len(Head0(s, n)), Head0(s, n)>>)
One(f) == IF f = <<>> THEN <<0, -1>> ELSE <<1, f[1]>>
Get(s) == Res([s EXCEPT !.q = Rest0(s, 1)], One(Head0(s, 1)))
Peek(s) == Res(s, One(Head0(s, 1)))
(* 2^32 - a elements (headers included) passed through an empty queue: nothing remains *)
Pump(s) == IF s.q # <<>> THEN {} ELSE Res(s, <<0>>)
Clear(s) == Res([s EXCEPT !.q = <<>>], <<0>>)

\* dynamic buffers: size rounded up to a power of two, at least two elements
Idle(s) == [s EXCEPT !.size = 0, !.q = <<>>]
Alloc(s, n) ==
    LET z == Pow2Up(n, 1)
    IN IF n < 2 THEN {[s |-> Idle(s), r |-> <<-1, 0>>]}
       ELSE {[s |-> [s EXCEPT !.size = z, !.q = <<>>], r |-> <<z, 1>>]}
NoMem(s) == {[s |-> Idle(s), r |-> <<-2, 0>>]}
Free(s) == {[s |-> Idle(s), r |-> <<0, 0>>]}
New(size, rec, ring) == {[s |-> [k |-> "queue", size |-> size, rec |-> rec, ring |-> ring, q |-> <<>>], r |-> <<0, 0>>]}

\* linear-space arithmetic of the circular index macros (size a power of two)
Circle(h, t, z) ==
    LET cnt == (h - t) % z
        space == (t - (h + 1)) % z
        toend == z - t
    IN <<cnt, space, Min2(cnt, toend), Min2(space, z - h)>>

Step(s, op, a) ==
    CASE op = "new" -> New(a[2], a[3], a[4])
      [] op = "circle" -> {[s |-> s, r |-> Circle(a[1], a[2], a[3])]}
      [] op = "alloc" -> Alloc(s, a[1])
      [] op = "halloc" -> NoMem(s)
      [] op = "oomalloc" -> NoMem(s)
      [] op = "free" -> Free(s)
      [] op = "put" -> Put(s, a[1])
      [] op = "get" -> Get(s)
      [] op = "peek" -> Peek(s)
      [] op = "in" -> In(s, a[1])
      [] op = "out" -> Out(s, a[1])
      [] op = "outpeek" -> OutPeek(s, a[1])
      [] op \in {"reset", "homing"} -> Clear(s)
      [] op = "pump" -> Pump(s)

Inv(s) == s.k = "queue" => Used(s) <= s.size
=============================================================================
