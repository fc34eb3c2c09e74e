------------------------------- MODULE Tone --------------------------------
(* Tone operators (property C20). Pixel values of frames normalised to [0,1] are integers in units of 1/S.
   Every operator is a curve: the value it gives a pixel depends on the pixel's own value, the settings and
   (for those placed relative to the background) location and spread of the frame, and on nothing else.
   Laws are stated on pairs <<x, y>> of a pixel before and after, with tolerances for the rounding to 1/S. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 10000
Abs(i) == IF i < 0 THEN -i ELSE i
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN S ELSE IF n = 1 THEN x ELSE (x * Pow(x, n - 1)) \div S
RECURSIVE Bisect(_, _, _, _)
\* the largest y in lo..hi with y^n <= v
Bisect(v, n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Pow(m, n) <= v THEN Bisect(v, n, m, hi) ELSE Bisect(v, n, lo, m - 1)
------------------------------------------------------------------------------
\* The curves, rounded down to the lattice
Gamma(x, a, b) == IF x <= 0 THEN 0 ELSE Bisect(Pow(x, b), a, 0, S)                 \* x^(b/a), gamma being a/b
PartGamma(x, from, a, b) == IF x <= from \/ x >= S THEN x ELSE from + (Gamma(((x - from) * S) \div (S - from), a, b) * (S - from)) \div S
Mid(x, m) == IF x = 0 THEN 0 ELSE ((S - m) * x) \div (m + ((S - 2 * m) * x) \div S)
Midtones(x, m, k) == IF x <= k THEN 0 ELSE IF x >= S THEN S ELSE LET c == Min2(Mid(k, m), S - 1) IN Max2(0, Min2(S, ((Mid(x, m) - c) * S) \div (S - c)))
ScaleBlack(x, loc, to) == IF loc <= to \/ loc >= S THEN x ELSE LET d == ((S - x) * (S - to)) \div (S - loc) IN IF d >= S THEN 0 ELSE S - d
Normal(x, lo, hi) == IF lo = hi THEN x ELSE ((x - lo) * S) \div (hi - lo)
\* HSLuv lightness of linear grey v, and the grey of a lightness
LumToGrey6(t) == IF t <= 800 THEN (t * 100000) \div 9033                        \* in millionths, for a precise inverse
                 ELSE LET u == ((t + 1600) * 100) \div 116 IN IF u < 4600 THEN (((u * u) \div 100) * u) \div 10000 ELSE 100 * Pow(u, 3)
LumToGrey(t) == LumToGrey6(t) \div 100
Lum(v) == LET RECURSIVE B(_, _) B(a, b) == IF a = b THEN a ELSE LET m == (a + b) \div 2 IN IF LumToGrey6(m) >= 100 * v THEN B(a, m) ELSE B(m + 1, b) IN B(0, S)
------------------------------------------------------------------------------
\* The laws for recorded pairs
GammaLaw(x, y, a, b, t) == Abs(Pow(y, a) - Pow(x, b)) <= (a + b + 2) * t
PartLaw(x, y, same, from, a, b) ==
   IF x < from - 1 \/ x > S THEN same
   ELSE (Abs(x - from) <= 1 /\ Abs(x - y) <= S \div 4) \/ (x >= S - 1 /\ Abs(x - y) <= 60)
        \/ (x >= from /\ y >= from - 1 /\ GammaLaw(((x - from) * S) \div (S - from), (Max2(0, y - from) * S) \div (S - from), a, b, 1 + ((2 * S) \div (S - from))))
MidLaw(x, y, m, k) ==
   IF x < k - 2 THEN y = 0
   ELSE IF x > S THEN Abs(y - S) <= 1
   ELSE LET c == Mid(k, m)
            z == c + ((y * (S - c)) \div S)
            den == m + (((S - 2 * m) * x) \div S)
        IN (x <= k + 2 /\ y <= S \div 4) \/ Abs(z * den - (S - m) * x) <= 4 * (z + den + S)
BlackLaw(x, y, loc, to) == LET want == (S - x) * (S - to) IN
   /\ y > 0 => Abs((S - y) * (S - loc) - want) <= 5 * S
   /\ y = 0 => want >= S * (S - loc) - 5 * S
   /\ y >= 0
\* t: 0 for frames of integers, 1 where the recorded inputs are rounded
NormLaw(x, y, lo, hi, t) == LET fl == IF t = 1 THEN 0 ELSE Max2(Abs(lo), Abs(hi)) \div 250 IN   \* single precision of values far from zero
   /\ Abs(y * (hi - lo) - (x - lo) * S) <= 2 * (hi - lo) + 2 * S * t + fl
   /\ t = 0 /\ x = lo => Abs(y) <= 1 + (fl \div (hi - lo))
   /\ t = 0 /\ x = hi => Abs(y - S) <= 1 + (fl \div (hi - lo))
LinearLaw(x, y, num, off) == y = x * num + off     \* x an integer, y, num and off in quarters
------------------------------------------------------------------------------
\* What every curve has to satisfy; p = [x, y, r, q, same, zero, one] with r and q the ranks of x and y among all values
Pointwise(ps) == \A i, j \in DOMAIN ps : ps[i].r = ps[j].r => ps[i].q = ps[j].q
Monotone(ps) == \A i \in 2..Len(ps) : ps[i - 1].q <= ps[i].q \/ ps[i].y >= ps[i - 1].y - 1
Range(ps) == \A i \in DOMAIN ps : ps[i].x \in 0..S => ps[i].y \in 0..S
Ends(ps) == \A i \in DOMAIN ps : /\ ps[i].zero => ps[i].y = 0
                                 /\ ps[i].one => ps[i].y >= S - 1
Same(ps) == \A i \in DOMAIN ps : ps[i].same
=============================================================================
