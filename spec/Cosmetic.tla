------------------------------- MODULE Cosmetic -----------------------------
(* Cosmetic correction (property C19) on mono frames (ch = "") and on one colour of a mosaic.
   p = [w, h, ch, cfa, lo, hi]: lo, hi are the multiples of the spread, doubled.
   All values are integers; medians and deviations are kept doubled.                                   *)
EXTENDS Mosaic
LOCAL INSTANCE OrderStat
X(p, i) == (i - 1) % p.w
Y(p, i) == (i - 1) \div p.w
Site(p, i) == p.ch = "" \/ Colour(p.cfa, X(p, i), Y(p, i)) = p.ch
Sites(p) == {i \in 1..(p.w * p.h) : Site(p, i)}
Edge(p, i) == X(p, i) = 0 \/ Y(p, i) = 0 \/ X(p, i) = p.w - 1 \/ Y(p, i) = p.h - 1
Square(s) == {<<i * s, j * s>> : i \in -1..1, j \in -1..1}
Rhomb == {<<0, -2>>, <<-1, -1>>, <<1, -1>>, <<-2, 0>>, <<0, 0>>, <<2, 0>>, <<-1, 1>>, <<1, 1>>, <<0, 2>>}
(* The neighbourhood of a site, itself included: the nine nearest of its colour, as far as they lie in the
   frame. Border pixels of mono frames have no full neighbourhood and stand for themselves.            *)
Hood(p, i) ==
   IF p.ch = "" /\ Edge(p, i) THEN {i}
   ELSE LET D == CASE p.ch = "" -> Square(1) [] p.ch = "G" -> Rhomb [] OTHER -> Square(2)
        IN {(Y(p, i) + o[2]) * p.w + X(p, i) + o[1] + 1 : o \in {o \in D : Inside(p.w, p.h, <<X(p, i) + o[1], Y(p, i) + o[2]>>)}}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
MedAt(d, p, i) == LET L == Listed(Hood(p, i)) IN Med2([j \in 1..Len(L) |-> d[L[j]]])
Deltas(d, p) == TLCEval([i \in Sites(p) |-> 2 * d[i] - MedAt(d, p, i)])
Spread(D) == LET n == Cardinality(DOMAIN D)
                 s == MapThenSumSet(LAMBDA i : D[i], DOMAIN D)
                 q == MapThenSumSet(LAMBDA i : D[i] * D[i], DOMAIN D)
             IN [v |-> q - ((s * s) \div n), exact |-> (s * s) % n = 0, n |-> n]
\* "yes", "no" or "either": within rounding of the threshold
Outlier(D, S, p, i) ==
   LET k == IF D[i] < 0 THEN p.lo ELSE p.hi
       lhs == 4 * D[i] * D[i] * S.n
       rhs == k * k * S.v
       eps == (rhs \div 5000) + (IF S.exact THEN 0 ELSE k * k)
   IN IF D[i] = 0 THEN "no" ELSE IF Abs(lhs - rhs) <= eps THEN "either" ELSE IF lhs > rhs THEN "yes" ELSE "no"
Active(p) == p.lo # 0 /\ p.hi # 0
\* Mono frames are repaired in reading order, seeing earlier repairs; mosaic frames all at once.
Repair(d, out, p, i) == IF p.ch # "" THEN MedAt(d, p, i)
   ELSE LET L == Listed(Hood(p, i)) IN Med2([j \in 1..Len(L) |-> IF L[j] < i THEN out[L[j]] \div 2 ELSE d[L[j]]])
(* out: the resulting frame, doubled *)
Judge(d, p, out) ==
   IF Len(out) # Len(d) THEN "wrong size"
   ELSE IF ~Active(p) THEN IF \A i \in 1..Len(d) : out[i] = 2 * d[i] THEN "" ELSE "disabled correction changed the frame"
   ELSE IF Sites(p) = {} THEN IF \A i \in 1..Len(d) : out[i] = 2 * d[i] THEN "" ELSE "frame without such sites changed"
   ELSE LET D == Deltas(d, p) S == TLCEval(Spread(D))
            Ok(i) == IF i \notin DOMAIN D THEN out[i] = 2 * d[i]
                     ELSE LET o == Outlier(D, S, p, i) IN
                          \/ (o # "yes" /\ out[i] = 2 * d[i])
                          \/ (o # "no" /\ out[i] = Repair(d, out, p, i))
            bad == {i \in 1..Len(d) : ~Ok(i)}
        IN IF bad = {} THEN "" ELSE LET i == Min(bad) IN
           IF i \notin DOMAIN D THEN "pixel of another colour changed: " \o ToString(i)
           ELSE IF Outlier(D, S, p, i) = "no" THEN "pixel within limits changed: " \o ToString(i)
           ELSE IF out[i] = 2 * d[i] THEN "outlier kept: " \o ToString(i) ELSE "outlier not replaced by the median: " \o ToString(i)
Changed(d, out) == Cardinality({i \in 1..Len(d) : out[i] # 2 * d[i]})
=============================================================================
