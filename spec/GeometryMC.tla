----------------------------- MODULE GeometryMC -----------------------------
(* The transformation through three pairs of points, by determinants. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Emit, Coords
VARIABLES p, q, pc
Pts == {<<x, y>> : x \in Coords, y \in Coords}
Targets == {<< <<0, 0>>, <<4, 0>>, <<0, 4>> >>, << <<3, 1>>, <<1, 9>>, <<8, 2>> >>, << <<5, 5>>, <<5, 5>>, <<5, 5>> >>, << <<0, 0>>, <<2, 4>>, <<4, 8>> >>}
Init == p \in [1..3 -> Pts] /\ q \in Targets /\ pc = 0
Next == pc = 0 /\ pc' = 1 /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_<<p, q, pc>>
dx(i) == p[i][1] - p[1][1]
dy(i) == p[i][2] - p[1][2]
Delta == dy(2) * dx(3) - dx(2) * dy(3)
e(c, i) == q[i][c] - q[1][c]
\* entries times Delta
LinX(c) == e(c, 3) * dy(2) - e(c, 2) * dy(3)
LinY(c) == e(c, 2) * dx(3) - e(c, 3) * dx(2)
Off(c) == q[1][c] * Delta - LinX(c) * p[1][1] - LinY(c) * p[1][2]
Collinear == \E i \in 1..3 : LET a == p[i]  b == p[(i % 3) + 1]  c == p[((i + 1) % 3) + 1] IN
                (b[1] - a[1]) * (c[2] - a[2]) = (b[2] - a[2]) * (c[1] - a[1])
Solvable == (Delta = 0) <=> Collinear
Maps == Delta # 0 => \A i \in 1..3, c \in 1..2 : LinX(c) * p[i][1] + LinY(c) * p[i][2] + Off(c) = Delta * q[i][c]
Emitted == (Emit /\ pc = 0) => PrintT("SCEN" \o ToJson([p |-> p, q |-> q]))
=============================================================================
