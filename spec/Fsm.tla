------------------------------ MODULE Fsm ------------------------------
(* The state machine (fsm.h): a table of states 1..n (0 is no state) with a parent, an entry state, optional
   enter/exit callbacks and an exception handler, and transitions in declaration order. Handling an event runs
   the callbacks in order and ends in the declared state; any callback may fail and ends the handling there. *)
EXTENDS Lib

(* table record: par, ent, fl (1: has enter, 2: has exit), exc (0 none, 1 refuses, 2 answers with its transition),
   tr: sequence of [own, type, guard, next, cross, stack, act]; own < 0: the exception transition of state -own *)
Has1(x) == x % 2 = 1
Has2(x) == x \div 2 = 1
TrOf(m, st) == {t \in 1..Len(m.tr) : m.tr[t].own = st}
Declared(m, st) == TrOf(m, st) # {}
(* first declared transition accepting the event (type, p), else what the exception handler answers; 0: none *)
Accepts(tr, ev) == tr.type = ev.type /\ (tr.guard = -1 \/ tr.guard = ev.p)
FindTr(m, st, ev) ==
    LET c == {t \in TrOf(m, st) : Accepts(m.tr[t], ev)} IN
    IF c # {} THEN MinSet(c) ELSE IF m.exc[st] = 2 THEN MinSet(TrOf(m, -st)) ELSE 0
RECURSIVE Enter(_, _)
Enter(m, st) == IF m.ent[st] = 0 THEN st ELSE Enter(m, m.ent[st])
Final(m, st) == ~Declared(m, st) /\ m.exc[st] = 0

(* h: handling in progress: cur, prev (of the machine), stack, log of callbacks, cb: callbacks run so far.
   A callback is a log entry; the k-th one of the handling returns ev.code when ev.fail = k. *)
Call(h, ev, entry) == [h EXCEPT !.log = Append(@, entry), !.bad = (Len(h.log) + 1 = ev.fail)]
Goto(h, st) == [h EXCEPT !.prev = h.cur, !.cur = st]
Done(h, r) == {[h |-> h, r |-> r]}
EINVAL == -1
EOVERFLOW == -2
ENOENT == -3
EFAULT == -4
ENOMEM == -5
CHANGED == 100
NOCHANGE == 101
SELFLOOP == 102
FINISH == 103
GoError(m, h0, ev) ==
    LET h1 == Goto(h0, m.err)
        h2 == IF m.err # 0 /\ Has1(m.fl[m.err]) THEN Call(h1, ev, <<3, m.err>>) ELSE h1
    IN [h |-> h2, r |-> IF h2.bad THEN ev.code ELSE 0]
RECURSIVE Run(_, _, _, _)
(* st: the state (or ancestor) whose transitions are looked up; fuel: a machine that crosses for ever is no input *)
Run(m, h0, st, ev) ==
    IF st = 0 THEN Done(h0, NOCHANGE)
    ELSE IF h0.fuel = 0 THEN {}
    ELSE LET h == [h0 EXCEPT !.fuel = @ - 1]
             t == FindTr(m, st, ev) IN
    IF t = 0 THEN Run(m, h, m.par[st], ev)
    ELSE LET tr == m.tr[t]  pop == tr.next = 0 /\ tr.stack < 0 IN
    IF pop /\ Len(h.stack) < -tr.stack THEN Done(h, EOVERFLOW)
    ELSE LET h1 == IF pop THEN [h EXCEPT !.stack = Take(@, Len(@) + tr.stack)] ELSE h
             nx0 == IF pop THEN h.stack[Len(h.stack) + tr.stack + 1] ELSE tr.next IN
    IF nx0 = 0 THEN LET e == GoError(m, h1, ev) IN Done(e.h, IF e.r # 0 THEN e.r ELSE ENOENT)
    ELSE LET nx == Enter(m, nx0)
             h2 == IF st # nx /\ tr.stack <= 0 /\ Has2(m.fl[st]) THEN Call(h1, ev, <<1, st>>) ELSE h1 IN
    IF h2.bad THEN Done(h2, ev.code)
    ELSE LET h3 == IF tr.act = 1 THEN Call(h2, ev, <<2, t, st, nx>>) ELSE h2 IN
    IF h3.bad THEN Done(h3, ev.code)
    ELSE LET h4 == IF st # nx /\ tr.stack >= 0 /\ Has1(m.fl[nx]) THEN Call(h3, ev, <<3, nx>>) ELSE h3 IN
    IF h4.bad THEN Done(h4, ev.code)
    ELSE LET h5 == Goto(h4, nx) IN
    IF nx = m.err THEN Done(h5, EFAULT)
    ELSE IF st = nx THEN Done(h5, SELFLOOP)
    ELSE IF Final(m, nx) THEN Done(h5, FINISH)
    ELSE IF tr.stack > 0 /\ ev.oom = 1 /\ h5.room = 0 THEN Done(h5, ENOMEM)
    ELSE LET h6 == IF tr.stack > 0 THEN [h5 EXCEPT !.stack = Append(@, st), !.room = IF @ > 0 THEN @ - 1 ELSE 0] ELSE h5 IN
    IF tr.cross = 1 THEN Run(m, h6, nx, ev) ELSE Done(h6, CHANGED)

Start(s, room) == [cur |-> s.cur, prev |-> s.prev, stack |-> s.stack, log |-> <<>>, bad |-> FALSE, fuel |-> 12, room |-> room]
Keep(s, h) == [s EXCEPT !.cur = h.cur, !.prev = h.prev, !.stack = h.stack]
FinishedNow(s) == IF s.cur = 0 THEN 0 ELSE B(Final(s.m, s.cur))
Report(s, r, log) == [s |-> s, r |-> <<r, s.cur, s.prev, FinishedNow(s), log>>]

Row(f, i) == [own |-> f[7 * i - 6], type |-> f[7 * i - 5], guard |-> f[7 * i - 4], next |-> f[7 * i - 3],
              cross |-> f[7 * i - 2], stack |-> f[7 * i - 1], act |-> f[7 * i]]
Step(s, op, a) ==
    CASE op = "machine" ->      \* init err pars ents fls excs rows
            LET n == [k |-> "live", cur |-> a[1], prev |-> 0, stack |-> <<>>,
                      m |-> [err |-> a[2], par |-> a[3], ent |-> a[4], fl |-> a[5], exc |-> a[6],
                             tr |-> [i \in 1..(Len(a[7]) \div 7) |-> Row(a[7], i)]]]
            IN {Report(n, 0, <<>>)}
      [] s.k = "null" -> {}
      [] op = "handle" ->       \* type p fail code oom room
            LET ev == [type |-> a[1], p |-> a[2], fail |-> a[3], code |-> a[4], oom |-> a[5]] IN
            IF s.cur = 0 THEN {Report(s, EINVAL, <<>>)}
            \* the stack keeps spare room of its own choosing: with oom the next pushes may or may not need memory
            ELSE UNION {{Report(Keep(s, o.h), o.r, o.h.log) : o \in Run(s.m, Start(s, room), s.cur, ev)}
                        : room \in IF a[5] = 1 THEN (IF Len(a) > 5 THEN {a[6]} ELSE {0, 9}) ELSE {9}}
      [] op = "error" ->        \* type p fail code
            LET ev == [type |-> a[1], p |-> a[2], fail |-> a[3], code |-> a[4], oom |-> 0]
                e == GoError(s.m, Start(s, 9), ev)
            IN {Report(Keep(s, e.h), e.r, e.h.log)}
      [] op = "reset" -> {Report([s EXCEPT !.cur = a[1], !.prev = 0, !.stack = <<>>], 0, <<>>)}
      [] OTHER -> {}
Inv(s) == s.k = "null" \/
    /\ s.cur \in 0..Len(s.m.par)
    /\ \A i \in 1..Len(s.stack) : s.stack[i] \in 1..Len(s.m.par)
=============================================================================
