----------------------------- MODULE StatsCache ------------------------------
(* What the statistics of a frame are, over integer pixel values. Shared by the design
   specification (StatsCacheMC) and the trace specification (StatsCacheTrace). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE FoldSum(_, _, _)
FoldSum(F(_), a, b) == IF a > b THEN 0
                       ELSE IF a = b THEN F(a)
                       ELSE LET m == (a + b) \div 2 IN FoldSum(F, a, m) + FoldSum(F, m + 1, b)
Sum(s) == FoldSum(LAMBDA i : s[i], 1, Len(s))
MinOf(s) == LET R == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in R : \A y \in R : x <= y
MaxOf(s) == LET R == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in R : \A y \in R : y <= x
\* floor of the mean, and the mean squared deviation (rounded down; the true value is within 1 of it)
MeanFloor(s) == Sum(s) \div Len(s)
Var(s) == LET m == MeanFloor(s) IN FoldSum(LAMBDA i : (s[i] - m) * (s[i] - m), 1, Len(s)) \div Len(s)
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m)
SqrtFloor(x) == Isqrt(x, 0, 46340)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
\* median of an odd number of values
MedianOdd(s) == Sorted(s)[(Len(s) \div 2) + 1]
MadOdd(s) == LET m == MedianOdd(s) IN MedianOdd([i \in 1..Len(s) |-> Abs(s[i] - m)])
\* Immerkaer's estimate: sqrt(pi/2)/6 times the mean absolute response of the mask
\*  1 -2  1 / -2  4 -2 / 1 -2  1  over the inner pixels; 0 if there are none
Conv(s, w, i) == s[i - w - 1] - 2 * s[i - w] + s[i - w + 1] - 2 * s[i - 1] + 4 * s[i] - 2 * s[i + 1]
                 + s[i + w - 1] - 2 * s[i + w] + s[i + w + 1]
Noise(s, w) == LET h == Len(s) \div w IN
   IF w < 3 \/ h < 3 THEN 0
   ELSE LET RowSum(y) == FoldSum(LAMBDA x : Abs(Conv(s, w, (y * w) + x)), 2, w - 1)
            t == FoldSum(RowSum, 1, h - 2)
            n == (w - 2) * (h - 2)
        IN ((t \div n) * 2089 + (((t % n) * 2089) \div n)) \div 10000
=============================================================================
