------------------------------ MODULE BalanceMC ------------------------------
(* Small frames whose channels are tinted images of each other: the laws of the balance, and scenarios. *)
EXTENDS Balance, Json
CONSTANTS Skips, Blks, Emit
VARIABLES e, f, phase
vars == <<e, f, phase>>
W == 6
H == 4
\* brightness of the pattern: dark ground with a darker block, and two stars
Stars == <<[x |-> 1, y |-> 1, r |-> 1100], [x |-> 4, y |-> 2, r |-> 375]>>
Ground(k, x, y) == IF x \in 2..3 /\ y \in 0..1 THEN 400 + 50 * k ELSE IF k = 1 /\ x >= 4 /\ y >= 2 THEN 420 ELSE 900 + 30 * ((x + 2 * y) % 3)
At(k, x, y) == IF k = 3 THEN 700 ELSE IF <<x, y>> \in {<<1, 1>>} THEN 8000 ELSE IF <<x, y>> \in {<<0, 1>>, <<2, 1>>, <<1, 0>>, <<1, 2>>} THEN 5000 ELSE IF <<x, y>> = <<4, 2>> THEN 4000 + 1000 * k ELSE Ground(k, x, y)
Frame(g, a, k) == [c \in 1..3 |-> [i \in 1..(W * H) |-> Cut(a[c] + (At(k, (i - 1) % W, (i - 1) \div W) * g[c]) \div 8)]]
Gains == {<<8, 8, 8>>, <<6, 8, 11>>, <<9, 5, 18>>}
Tints == {<<<<8, 8, 8>>, <<8, 8, 8>>>>, <<<<8, 7, 10>>, <<8, 8, 8>>>>, <<<<8, 8, 8>>, <<8, 9, 7>>>>}
Init == e = <<>> /\ f = <<>> /\ phase = "none"
Next == \/ /\ phase = "none" /\ phase' = "some" /\ UNCHANGED e
           /\ \E g \in Gains, a \in {<<0, 0, 0>>, <<500, 0, 900>>}, k \in 0..3 : f' = Frame(g, a, k)
        \/ /\ phase = "some" /\ phase' = "taken" /\ UNCHANGED f
           /\ \E b \in Blks, bo \in {-1, 0, 2, 4}, br \in Skips, di \in Skips, t \in Tints, n \in {1, 2} :
                /\ bo = -1 => b = 2 /\ br = 0 /\ di = 0 /\ n = 2
                /\ n = 1 => br = 0 /\ di = 0
                /\ br = 10 => b = 2 /\ di = 0
                /\ e' = [w |-> W, h |-> H, f |-> f, stars |-> SubSeq(Stars, 1, n), block |-> b, border |-> bo, bright |-> br, dim |-> di, dark |-> t[1], light |-> t[2]]
        \/ /\ phase = "taken" /\ UNCHANGED e
           /\ LET s == First(e, f) IN IF s = {} THEN phase' = "refused" /\ f' = f ELSE phase' = "first" /\ f' \in s
        \/ /\ phase = "first" /\ UNCHANGED e
           /\ LET s == Second(e, f, 0) IN IF s = {} THEN phase' = "refused" /\ f' = f ELSE phase' = "done" /\ f' \in s
Spec == Init /\ [][Next]_vars
Done == phase = "done"
Near(a, b, t) == a - b \in (0 - t)..t
Neutral8 == <<8, 8, 8>>
\* what is darker stays darker in its channel
Ordered == phase \in {"first", "done"} => \A c \in 1..3 : \A i, j \in DOMAIN e.f[c] : e.f[c][i] <= e.f[c][j] => f[c][i] <= f[c][j]
\* a grey frame stays as it is if grey is what is wanted, but for rounding
Grey == (Done /\ e.f[1] = e.f[2] /\ e.f[2] = e.f[3] /\ e.dark = Neutral8 /\ e.light = Neutral8) =>
          \A c \in 1..3 : \A i \in DOMAIN e.f[c] : Near(f[c][i], e.f[c][i], 8)
\* channels which are images of each other under lines become the same, but for rounding and clipping
Union == (Done /\ e.dark = Neutral8 /\ e.light = Neutral8) =>
          \A i \in DOMAIN f[1] : (\A c \in 1..3 : f[c][i] \in 1..(U - 1)) => Near(f[1][i], f[2][i], 60) /\ Near(f[2][i], f[3][i], 60)
\* the darkest block has the tint of the shadows afterwards
Shadows == (Done /\ e.block = 2 /\ e.dark = <<8, 7, 10>>) =>
          \E d \in Darkest(f, W, H, 2, e.border, 300) : LET m == d[1] IN Near(d[2], (7 * m) \div 8, 20) /\ Near(d[3], (10 * m) \div 8, 20)
Swap(s) == <<s[3], s[1], s[2]>>
\* channels are treated alike
Alike == (phase = "first" /\ e.block = 2) =>
          LET e2 == [e EXCEPT !.dark = Swap(e.dark), !.light = Swap(e.light)]
          IN Second(e2, Swap(f), 0) = {Swap(r) : r \in Second(e, f, 0)}
\* what is refused, and what not
Refused == /\ (e # <<>> /\ phase = "done") => e.block \in 1..4 /\ e.border \in 0..8 /\ (Len(e.stars) * e.bright) \div 8 + (Len(e.stars) * e.dim) \div 8 < Len(e.stars)
           /\ (phase = "refused" /\ e.block \in {1, 2} /\ e.border = 0 /\ e.bright = 0 /\ e.dim = 0) => \A i, j \in DOMAIN e.f[1] : e.f[1][i] = e.f[1][j]
Emitted == IF Emit /\ phase = "taken" THEN PrintT("SCEN" \o ToJson(e)) ELSE TRUE
=============================================================================
