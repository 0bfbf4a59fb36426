------------------------------ MODULE MC_Fsm ------------------------------
EXTENDS Fsm
CONSTANT Depth
T(own, type, guard, next, cross, stack, act) == <<own, type, guard, next, cross, stack, act>>
(* machines: nested states with entry descent and fall-back to ancestors; stack push and pop; crossing; exceptions *)
Nested == <<"machine", <<2, 6, <<0, 1, 1, 0, 4, 0>>, <<0, 0, 0, 5, 0, 0>>, <<3, 3, 2, 3, 1, 1>>, <<0, 0, 0, 0, 0, 0>>,
    T(1, 1, -1, 4, 0, 0, 1) \o T(2, 2, 1, 3, 0, 0, 1) \o T(2, 2, -1, 2, 0, 0, 1) \o T(3, 2, -1, 0, 0, 0, 0) \o T(4, 1, 0, 1, 0, 0, 0)
    \o T(5, 2, 0, 2, 0, 0, 1) \o T(4, 2, -1, 6, 0, 0, 1)>>>>
Stacked == <<"machine", <<1, 5, <<0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0>>, <<3, 3, 3, 1, 0>>, <<0, 0, 0, 0, 1>>,
    T(1, 1, -1, 2, 0, 1, 1) \o T(2, 1, -1, 3, 0, 1, 0) \o T(2, 2, -1, 0, 0, -1, 1) \o T(3, 2, 0, 0, 0, -1, 1) \o T(3, 2, 1, 0, 0, -2, 0)
    \o T(3, 1, 0, 4, 0, 1, 1) \o T(1, 2, 1, 0, 0, -1, 0) \o T(3, 1, 1, 2, 0, -1, 1) \o T(1, 2, 0, 3, 0, 0, 0)>>>>
Crossing == <<"machine", <<1, 0, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<2, 3, 3, 1>>, <<0, 2, 0, 1>>,
    T(1, 1, -1, 2, 1, 0, 1) \o T(1, 2, -1, 3, 1, 1, 1) \o T(2, 1, 0, 3, 0, 0, 1) \o T(-2, 9, -1, 4, 0, 0, 1) \o T(3, 1, -1, 1, 0, -1, 0) \o T(3, 2, 1, 0, 0, -1, 0)>>>>
Machines == {Nested, Stacked, Crossing}
NS(s) == Len(s.m.par)
Cmds(s) ==
    IF s.k = "null" THEN Machines
    ELSE UNION {{<<"handle", <<t, p, f, c, 0>>>> : t \in 1..3, p \in 0..1, f \in 0..3, c \in {-77}},
                {<<"handle", <<t, 0, 1, 5, 0>>>> : t \in 1..2},
                {<<"error", <<1, 0, f, -77>>>> : f \in 0..1},
                {<<"reset", <<i>>>> : i \in 1..NS(s)}}
Bound(s) == s.k = "null" \/ Len(s.stack) <= Depth
=============================================================================
