------------------------------ MODULE TreeLib ------------------------------
(* Judging observed binary tree structures: a dump is a sequence of <<node, parent, colour (1 black), left, right,
   augmented value>> tuples in pre-order, 0 standing for "no node". val: the value of each node.               *)
EXTENDS Lib
NodeMap(d) == [n \in {d[i][1] : i \in 1..Len(d)} |-> d[Pos([i \in 1..Len(d) |-> d[i][1]], n)]]
RECURSIVE BH(_, _, _), InO(_, _), PreO(_, _), PostO(_, _), Mx(_, _, _)
BH(m, n, up) ==        \* black height, -1 when a rule is broken below n
    IF n = 0 THEN 1
    ELSE IF n \notin DOMAIN m THEN -1
    ELSE IF m[n][2] # up \/ (m[n][3] = 0 /\ up # 0 /\ m[up][3] = 0) THEN -1
    ELSE LET l == BH(m, m[n][4], n)  r == BH(m, m[n][5], n) IN IF l = -1 \/ l # r THEN -1 ELSE l + m[n][3]
InO(m, n) == IF n = 0 THEN <<>> ELSE InO(m, m[n][4]) \o <<n>> \o InO(m, m[n][5])
PreO(m, n) == IF n = 0 THEN <<>> ELSE <<n>> \o PreO(m, m[n][4]) \o PreO(m, m[n][5])
PostO(m, n) == IF n = 0 THEN <<>> ELSE PostO(m, m[n][4]) \o PostO(m, m[n][5]) \o <<n>>
Mx(val, m, n) ==         \* true subtree maximum, -1 when a stored value below n is wrong
    LET l == IF m[n][4] = 0 THEN 0 ELSE Mx(val, m, m[n][4])
        r == IF m[n][5] = 0 THEN 0 ELSE Mx(val, m, m[n][5])
        x == Max2(val[n], Max2(l, r))
    IN IF l = -1 \/ r = -1 \/ m[n][6] # x THEN -1 ELSE x
RBOk(d) == LET m == NodeMap(d)  root == d[1][1] IN Cardinality(DOMAIN m) = Len(d) /\ m[root][3] = 1 /\ BH(m, root, 0) > 0
=============================================================================
