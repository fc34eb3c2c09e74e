------------------------------ MODULE DebandMC -------------------------------
(* Small banded frames: the laws of debanding, and scenarios. *)
EXTENDS Deband, Json
CONSTANTS Percents, Windows, Emit
VARIABLES e, r
vars == <<e, r>>
Shape(k, x, y, w) == CASE k = 0 -> 50
                       [] k = 1 -> 40 + ((x * 7 + y * 5) % 9)
                       [] k = 2 -> 20 + 5 * y + 3 * x
                       [] k = 3 -> IF x = 2 THEN 0 ELSE IF y = 2 THEN 200 ELSE 30 + x
                       [] OTHER -> ((x * 3 + y * 11) % 13) - 4
Band(b, y) == CASE b = 0 -> 1 [] b = 1 -> 1 + (y % 2) [] b = 2 -> IF y = 1 THEN 3 ELSE 1 [] OTHER -> 1 + ((y * y) % 3)
Plane(k, b, w, h) == [i \in 1..(w * h) |-> LET x == (i - 1) % w y == (i - 1) \div w IN Shape(k, x, y, w) * Band(b, y)]
Sizes == {<<1, 1>>, <<4, 1>>, <<1, 5>>, <<3, 4>>, <<4, 5>>, <<3, 7>>}
Init == e = <<>> /\ r = <<>>
Next == \/ /\ e = <<>> /\ UNCHANGED r
           /\ \E z \in Sizes, k \in 0..4, b \in 0..3 : e' = [w |-> z[1], h |-> z[2], f |-> Plane(k, b, z[1], z[2]), o |-> <<>>, thr |-> 0]
        \/ /\ e # <<>> /\ r = <<>>
           /\ \E p \in Percents, n \in Windows, s \in {0, 1}, hz \in BOOLEAN :
                LET o == [p |-> p, win |-> n, sig |-> s, horiz |-> hz]
                IN /\ e' = [e EXCEPT !.o = o, !.thr = 6050]
                   /\ r' = IF Off(o) THEN [i \in DOMAIN e.f |-> e.f[i] * 100] ELSE Corrected(e.f, e.w, e.h, o, 6050, 100)
Spec == Init /\ [][Next]_vars
Did == r # <<>>
On == Did /\ ~Off(e.o)
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Turn(p) == [i \in 1..(e.w * e.h) |-> LET x == (i - 1) % e.h y == (i - 1) \div e.h IN p[x * e.w + y + 1]]
\* columns of the transposed frame are its rows
Transposed == On => Corrected(Turn(e.f), e.h, e.w, [e.o EXCEPT !.horiz = ~@], e.thr, 100) = Turn(r)
V == Percentiles(e.f, e.w, e.h, e.o, e.thr)
\* lines of the same percentile stay, all of them
Even == (On /\ \A i, j \in DOMAIN V : V[i] = V[j]) => r = [i \in DOMAIN e.f |-> e.f[i] * 100]
\* a window of one line changes nothing
Single == (On /\ e.o.win = 1) => r = [i \in DOMAIN e.f |-> e.f[i] * 100]
\* what is twice as bright comes out twice as bright, but for rounding
Doubled == (On /\ e.o.sig = 0) => LET q == Corrected([i \in DOMAIN e.f |-> 2 * e.f[i]], e.w, e.h, e.o, 0, 100) IN \A i \in DOMAIN r : Abs(q[i] - 2 * r[i]) <= 2
\* within a line, ratios stay
Ratios == On => LET ls == Lines(e.f, e.w, e.h, e.o.horiz) ms == Lines(r, e.w, e.h, e.o.horiz)
                IN \A k \in DOMAIN ls : \A i, j \in DOMAIN ls[k] : Abs(ls[k][i] * ms[k][j] - ls[k][j] * ms[k][i]) <= Abs(ls[k][i]) + Abs(ls[k][j])
\* every line's percentile becomes its goal, if nothing is left out
Reached == (On /\ e.o.sig = 0) =>
             LET v == V l == WinLen(e.o, Len(v)) g == Goals(v, l) ms == Lines(r, e.w, e.h, e.o.horiz)
             IN \A k \in DOMAIN v : (v[k] > 0 /\ g[k] > 0) => Abs(Percentile(ms[k], e.o.p, FALSE, 0) * 8 * l - 100 * g[k]) <= 8 * l
\* bands which hit less than half of the lines of each window are gone: a flat frame comes back
Restored == (On /\ e.o.horiz /\ e.o.win = 5 /\ e.h = 5 /\ e.o.sig = 0 /\ (\E b \in {50} : \A i \in DOMAIN e.f : e.f[i] \in {b, 3 * b} /\ (e.f[i] = 3 * b <=> (i - 1) \div e.w = 1))) =>
              \A i \in DOMAIN r : (i - 1) \div e.w = 2 => r[i] = 5000
Idle == (Did /\ Off(e.o)) => r = [i \in DOMAIN e.f |-> e.f[i] * 100]
Emitted == IF Emit /\ Did THEN PrintT("SCEN" \o ToJson(e)) ELSE TRUE
=============================================================================
