----------------------------- MODULE PixelStack -----------------------------
(* Combining the samples of one pixel position (property C05).
   Samples are integers, NaN is the code 999999999. A header h describes the
   stack: mode 0..6 (median, mean, sigma, winsorized sigma, MAD sigma, linear
   fit, auto), wk 0..3 (weights: none, exposure, inverse noise, inverse HFR),
   wv the per-frame exposure/noise/HFR, sl/sh the multiples in eighths, fill,
   n frames. Results are recorded in hundredths.

   Rejection compares real numbers; the implementation uses float32. Where the
   exact comparison is within a small margin of equality either outcome is
   accepted, so the operators below return the SET of possible survivors.      *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE TLC
NaN == 999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumF(_, _)
SumF(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumF(f, k - 1)
SeqSum(f) == SumF(f, Len(f))

AutoMode(n) == IF n >= 25 THEN 5 ELSE IF n >= 15 THEN 3 ELSE IF n >= 6 THEN 2 ELSE 1
Mode(h) == IF h.mode = 6 THEN AutoMode(h.n) ELSE h.mode

(* frame weights, scaled; equal values give equal weights *)
Weight(h, i) ==
  CASE h.wk = 0 -> 1
    [] h.wk = 1 -> h.wv[i]
    [] OTHER    -> IF h.wv[i] = NaN THEN 400        \* no stars found: as little as the worst frame
                   ELSE LET S == {h.wv[k] : k \in 1..h.n} \ {NaN}
                       d == SetMax(S) - SetMin(S)
                   IN IF d = 0 THEN 2000
                      ELSE (2000 * d) \div (d + 4 * (h.wv[i] - SetMin(S)))
WeightSlack(h) == h.wk >= 2

(* the valid samples as <<value, weight>>, sorted by value *)
Valid(h, v, ws) == LET f == SelectSeq([i \in 1..h.n |-> <<v[i], ws[i]>>], LAMBDA p : p[1] # NaN)
                   IN SortSeq(f, LAMBDA a, b : a[1] < b[1])
Vals(s) == [k \in 1..Len(s) |-> s[k][1]]

(* twice the median of a sorted sequence *)
Med2(y) == LET n == Len(y) IN IF n % 2 = 1 THEN 2 * y[(n + 1) \div 2] ELSE y[n \div 2] + y[n \div 2 + 1]
(* n^2 times the variance; shift invariant *)
Var(y) == LET n == Len(y)
              d == [k \in 1..n |-> y[k] - y[1]]
              s == SeqSum(d)
          IN n * SeqSum([k \in 1..n |-> d[k] * d[k]]) - s * s

(* "a > b" with margin: 1 certainly, 0 certainly not, 2 either *)
Gt(a, b, slack) == IF a > b + slack THEN 1 ELSE IF a < b - slack \/ a = 0 THEN 0 ELSE 2

(* survivors when the samples below/above an interval are rejected: the sorted
   samples with status vectors lo, hi (1 reject, 0 keep, 2 either)             *)
Count(f, S) == Cardinality({k \in DOMAIN f : f[k] \in S})
Cut(s, lo, hi) ==
  LET n == Len(s) IN
  {SubSeq(s, a + 1, n - b) : a \in {Count(lo, {1}), Count(lo, {1, 2})},
                             b \in {Count(hi, {1}), Count(hi, {1, 2})}}

(* ---- sigma: exact comparison of squares ---- *)
SigmaStatus(y, sn, sgn) ==
  LET n == Len(y)  m == Med2(y)  rhs == 4 * sn * sn * Var(y) IN
  [k \in 1..n |-> LET d == sgn * (m - 2 * y[k]) IN
                  IF d <= 0 THEN 0 ELSE Gt(d * d * n * n * 64, rhs, rhs \div 20000)]
SigmaStep(s, h) == LET y == Vals(s) IN Cut(s, SigmaStatus(y, h.sl, 1), SigmaStatus(y, h.sh, -1))

(* ---- winsorized sigma: fixed point; values in 1/k, deviations in 1/(4k), with
   k as large as the integers allow; the margin covers the rounding ---- *)
RECURSIVE ISqrtR(_, _)
ISqrtR(v, x) == LET x2 == (x + v \div x) \div 2 IN IF x2 >= x THEN x ELSE ISqrtR(v, x2)
ISqrt(v) == IF v = 0 THEN 0 ELSE ISqrtR(v, IF v > 46340 THEN 46340 ELSE v)
Sd4(yk) == LET n == Len(yk) IN (4 * ISqrt(Var(yk)) + n \div 2) \div n
RECURSIVE Winsorize(_, _, _, _)
Winsorize(w, medk, sd, it) ==
  LET b == (3 * sd + 4) \div 8
      w2 == [k \in 1..Len(w) |-> IF w[k] < medk - b THEN medk - b
                                 ELSE IF w[k] > medk + b THEN medk + b ELSE w[k]]
      sd2 == (1134 * Sd4(w2) + 500) \div 1000
  IN IF w2 = w \/ 2000 * Abs(sd2 - sd) <= sd \/ it = 0 THEN sd2 ELSE Winsorize(w2, medk, sd2, it - 1)
WinStatus(y, sn, sgn) ==
  LET n == Len(y)
      range == y[n] - y[1]
      k == 2 * (480 \div (range + 1))
      yk == [q \in 1..n |-> k * y[q]]
      m == Med2(y)
      sd == Winsorize(yk, (k * m) \div 2, Sd4(yk), 60)
      bound == sn * sd
  IN [q \in 1..n |-> LET d == sgn * (m - 2 * y[q]) IN      \* in 1/2
                     IF d <= 0 THEN 0 ELSE Gt(16 * k * d, bound, bound \div 50 + 8 * sn)]
WinStep(s, h) == LET y == Vals(s) IN Cut(s, WinStatus(y, h.sl, 1), WinStatus(y, h.sh, -1))

(* repeat until nothing is removed, or at most one is left *)
RECURSIVE Survive(_, _, _)
Survive(s, h, mode) ==
  UNION {IF Len(t) = Len(s) \/ Len(t) = 0 THEN {s} ELSE IF Len(t) = 1 THEN {t} ELSE Survive(t, h, mode)
         : t \in (IF mode = 2 THEN SigmaStep(s, h) ELSE WinStep(s, h))}

(* ---- MAD sigma: one pass ---- *)
MADSurvive(s, h) ==
  LET y == Vals(s)  n == Len(y)  m == Med2(y)
      ad == SortSeq([k \in 1..n |-> Abs(2 * y[k] - m)], LAMBDA a, b : a < b)
      ad4 == Med2(ad)
      St(sn, sgn) == [k \in 1..n |-> LET d == sgn * (m - 2 * y[k])
                                         rhs == sn * 14826 * ad4
                                     IN IF d <= 0 THEN 0 ELSE Gt(d * 160000, rhs, rhs \div 20000)]
  IN {IF Len(t) = 0 THEN s ELSE t : t \in Cut(s, St(h.sl, 1), St(h.sh, -1))}

(* ---- linear fit: line through the sorted samples (ordinate scaled by D/sc) ---- *)
RECURSIVE LinSurvive(_, _)
LinSurvive(s, h) ==
  LET y == Vals(s)  n == Len(y)
      D == n * (n + 1) * (n * n - 1)
      sy == SeqSum(y)
      A == n * SeqSum([k \in 1..n |-> (k - 1) * y[k]]) - ((n * (n - 1)) \div 2) * sy
      sc == IF n <= 12 THEN 1 ELSE IF n <= 18 THEN 4 ELSE 16      \* keeps the integers small
      diff == [k \in 1..n |-> (y[k] * D - sy * (n + 1) * (n * n - 1) - 6 * A * (2 * (k - 1) - n + 1)) \div sc]
      tot == SeqSum([k \in 1..n |-> Abs(diff[k])])
      St(k) == IF diff[k] < 0 THEN Gt(-diff[k] * n * 8, h.sl * tot, (h.sl * tot) \div 1000)
               ELSE Gt(diff[k] * n * 8, h.sh * tot, (h.sh * tot) \div 1000)
      st == [k \in 1..n |-> IF tot = 0 THEN 0 ELSE St(k)]
      must == {k \in 1..n : st[k] = 1}
      may == {k \in 1..n : st[k] = 2}
      Left(R) == IF R = {} \/ n < 3 THEN {s}
                 ELSE LET keep == SelectSeq([k \in 1..n |-> k], LAMBDA k : k \notin R)
                      IN LinSurvive([j \in 1..Len(keep) |-> s[keep[j]]], h)
  IN UNION {Left(must \cup R) : R \in (IF Cardinality(may) <= 3 THEN SUBSET may ELSE {{}, may})}

(* ---- result ---- *)
MeanOk(t, r100, weighted, slack) ==
  LET W == IF weighted THEN [k \in 1..Len(t) |-> t[k][2]] ELSE [k \in 1..Len(t) |-> 1]
      sw == SeqSum(W)
      sv == SeqSum([k \in 1..Len(t) |-> t[k][1] * W[k]])
  IN Abs(r100 * sw - 100 * sv) <= (IF slack THEN 15 * sw ELSE 2 * sw)
Outcomes(s, h) ==
  LET m == Mode(h) IN
  CASE m \in {0, 1} -> {s}
    [] m \in {2, 3} -> Survive(s, h, m)
    [] m = 4        -> MADSurvive(s, h)
    [] OTHER        -> LinSurvive(s, h)
PixelOk(h, v, ws, r100) ==
  LET s == Valid(h, v, ws)  m == Mode(h) IN
  IF Len(s) = 0 THEN r100 = 100 * h.fill
  ELSE IF m = 0 THEN r100 = 50 * Med2(Vals(s))
  ELSE /\ r100 >= 100 * s[1][1] - 1 /\ r100 <= 100 * s[Len(s)][1] + 1
       /\ \E t \in Outcomes(s, h) : MeanOk(t, r100, m \in {1, 2, 3}, WeightSlack(h) /\ m \in {1, 2, 3})

(* requests that must be refused *)
Refuse(h) == \/ h.n = 0 \/ h.samedims = 0
             \/ h.mode \notin 0..6 \/ h.wk \notin 0..3
             \/ h.wk = 1 /\ \E i \in 1..h.n : h.wv[i] = 0
             \/ Mode(h) = 4 /\ h.wk # 0
=============================================================================
