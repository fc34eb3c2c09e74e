------------------------------ MODULE Estimators -----------------------------
(* What location and scale of a set of pixels are, by the estimators one can select: mean and standard deviation,
   median and MAD, iterative k-sigma, sigma-clipped median and Qn, and the peak of the histogram. Pixels are
   integers. Where the code samples, the spec bounds the share of the pixels (of their distances) below the answer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumUp(_, _)
SumUp(s, k) == IF k = 0 THEN 0 ELSE SumUp(s, k - 1) + s[k]
Total(s) == SumUp(s, Len(s))
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
MulDiv(a, b, c) == (a \div c) * b + (((a % c) * b) \div c)
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m)
SqrtFloor(x) == Isqrt(x, 0, 46340)
Share(S, P(_)) == Cardinality({i \in S : P(i)})
\* ---- the histogram: nb bins from the least to the greatest pixel
BinOf(q, nb, mn, mx) == [i \in DOMAIN q |-> (2 * (q[i] - mn) * (nb - 1) + (mx - mn)) \div (2 * (mx - mn))]
Bins(q, nb, mn, mx) == LET b == TLCEval(BinOf(q, nb, mn, mx))  hit == {b[i] : i \in DOMAIN q}
                       IN [k \in 0..(nb - 1) |-> IF k \in hit THEN Cardinality({i \in DOMAIN q : b[i] = k}) ELSE 0]
\* the first of the fullest inner bins; the outer ones may be distorted by clipping
Peak(h, nb) == LET all == {k \in 1..(nb - 2) : h[k] > 0}
                   most == CHOOSE x \in {h[k] : k \in all} : \A k \in all : h[k] <= x
                   top == {k \in all : h[k] = most}
               IN IF all = {} THEN 0 ELSE CHOOSE k \in top : \A j \in top : k <= j
\* the bins around the peak, as many on either side, which hold 68.27% of the pixels, or reach the nearer end
Goal(n) == (n * 6827) \div 10000
Least2(a, b) == IF a < b THEN a ELSE b
HistPeak(q, nb, mn, mx) ==
  LET b == TLCEval(BinOf(q, nb, mn, mx))  p == TLCEval(Peak(Bins(q, nb, mn, mx), nb))
      far == Sorted([i \in DOMAIN q |-> Abs(b[i] - p)])
      reach == IF Goal(Len(q)) = 0 THEN 0 ELSE far[Goal(Len(q))]
  IN [p |-> p, w |-> 2 * Least2(reach, Least2(p, nb - 1 - p)) + 1, clear |-> p > 0]
\* ---- iterative k-sigma: shares in ten thousandths, deviations in hundredths
Upper(s) == s[(Len(s) \div 2) + 1]
Slice(s, a, b) == [i \in 1..(b - a + 1) |-> s[a + i - 1]]
\* twice the median distance
MedianAbs(s, m) == LET t == TLCEval(Sorted([i \in DOMAIN s |-> Abs(s[i] - m)]))  k == Len(s) \div 2
                   IN IF Len(s) % 2 = 1 THEN 2 * t[k + 1] ELSE t[k] + t[k + 1]
\* biweight deviation around m: -1 if hardly any pixel counts
Biweight(s, m) ==
  LET mad == TLCEval(MedianAbs(s, m))  D == 9 * mad  n == Len(s) IN
  IF mad = 0 THEN 0
  ELSE LET y2 == TLCEval([i \in 1..n |-> IF 2 * Abs(s[i] - m) >= D THEN 10000 ELSE LET t == (Abs(s[i] - m) * 20000) \div D IN (t * t) \div 10000])
           u == TLCEval([i \in 1..n |-> 10000 - y2[i]])
           num == Total([i \in 1..n |-> IF u[i] = 0 THEN 0 ELSE LET u2 == (u[i] * u[i]) \div 10000 IN MulDiv((s[i] - m) * (s[i] - m), (u2 * u2) \div 10000, 100)])
           den == Total([i \in 1..n |-> (u[i] * (10000 - 5 * y2[i])) \div 10000]) \div n
       IN IF den < 2000 THEN -1
          ELSE LET v == MulDiv(MulDiv(num \div n, 10000, den), 10000, den) IN
               IF v < 20000 THEN SqrtFloor(v * 10000) \div 10 ELSE IF v < 2000000 THEN (SqrtFloor(v * 1000) * 316) \div 1000 ELSE SqrtFloor(v) * 10
\* what remains within k sigmas of m; sorted pixels
Within(s, m, d, k) == SelectSeq(s, LAMBDA x : Abs(x - m) * 100 <= k * d)
Clear(s, m, d) == Within(s, m, (d * 97) \div 100, 4) = Within(s, m, (d * 103) \div 100 + 10, 4)
\* [ok: decided here; m; d]
RECURSIVE KSigma(_, _)
KSigma(s, before) ==
  LET m == Upper(s)  d == TLCEval(Biweight(s, m)) IN
  IF d = -1 THEN [ok |-> FALSE, m |-> m, d |-> 0]
  ELSE IF d = 0 THEN [ok |-> MedianAbs(s, m) = 0, m |-> m, d |-> 0]
  ELSE LET t == TLCEval(Within(s, m, d, 4)) IN
       IF t = s THEN [ok |-> Clear(s, m, d), m |-> m, d |-> d]
       ELSE IF before > 0 /\ d * 100 > before * 98 THEN [ok |-> FALSE, m |-> m, d |-> d]
       ELSE IF ~Clear(s, m, d) THEN [ok |-> FALSE, m |-> m, d |-> d]
       ELSE KSigma(t, d)
\* ---- sampled estimators: f parts to a pixel; percentages
Median(q, f, v, lo, hi) == /\ 100 * Share(DOMAIN q, LAMBDA i : q[i] * f < v - 2) <= hi * Len(q)
                           /\ 100 * Share(DOMAIN q, LAMBDA i : q[i] * f <= v + 2) >= lo * Len(q)
Mad(q, f, m, v) == LET d == TLCEval([i \in DOMAIN q |-> (Abs(q[i] * f - m) * 1483) \div 1000])  e == 4 + v \div 1000
                   IN /\ 100 * Share(DOMAIN q, LAMBDA i : d[i] < v - e) <= 51 * Len(q)
                      /\ 100 * Share(DOMAIN q, LAMBDA i : d[i] <= v + e) >= 49 * Len(q)
Pairs(q) == {p \in (DOMAIN q) \X (DOMAIN q) : p[1] < p[2]}
Qn(q, f, v) == LET P == TLCEval(Pairs(q))  e == 4 + v \div 1000
                   D(p) == (Abs(q[p[1]] - q[p[2]]) * f * 2219) \div 1000
               IN /\ 1000 * Cardinality({p \in P : D(p) < v - e}) <= 262 * Cardinality(P)
                  /\ 1000 * Cardinality({p \in P : D(p) <= v + e}) >= 238 * Cardinality(P)
==============================================================================
