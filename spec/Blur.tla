-------------------------------- MODULE Blur ---------------------------------
(* Gaussian blur and unsharp masking. A frame is a sequence of planes, a plane a sequence of values in
   hundredths. Sigma is in tenths; the kernels of the sigmas in use, in 1/10000, are tabulated: integrals
   of the Gaussian over each pixel, normalised to one. Beyond its edges a plane continues as its mirror
   image, and that as the mirror image of the mirror image, and so on. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kernels == (0 :> <<10000>>) @@ (-10 :> <<10000>>) @@ (2 :> <<10000>>) @@ (3 :> <<10000>>) @@ (5 :> <<10000>>)
   @@ (8 :> <<2508, 4984, 2508>>) @@ (10 :> <<2790, 4420, 2790>>) @@ (13 :> <<1026, 2390, 3168, 2390, 1026>>)
   @@ (15 :> <<1226, 2331, 2886, 2331, 1226>>) @@ (20 :> <<285, 672, 1240, 1790, 2026, 1790, 1240, 672, 285>>)
   @@ (30 :> <<188, 345, 566, 832, 1095, 1292, 1364, 1292, 1095, 832, 566, 345, 188>>)
   @@ (50 :> <<73, 111, 162, 227, 307, 397, 495, 592, 680, 752, 798, 812, 798, 752, 680, 592, 495, 397, 307, 227, 162, 111, 73>>)
Kernel(s) == Kernels[s]
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
MaxOf(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= v
MinOf(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : v <= s[i]
\* coordinate i of a line of n pixels, for all i
Mirror(n, i) == LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
Round(v, d) == (v + d \div 2) \div d
\* along lines of n pixels, the pixel before and after being step away
Line(p, w, h, kern, alongX) ==
   LET r == Len(kern) \div 2 IN
   [i \in 1..(w * h) |->
      LET x == (i - 1) % w y == (i - 1) \div w
      IN Round(Sum([k \in 1..Len(kern) |-> kern[k] * (IF alongX THEN p[y * w + Mirror(w, x + k - 1 - r) + 1] ELSE p[Mirror(h, y + k - 1 - r) * w + x + 1])]), 10000)]
Blurred(p, w, h, s) == LET a == TLCEval(Line(p, w, h, Kernel(s), TRUE)) IN Line(a, w, h, Kernel(s), FALSE)
\* gain in quarters; thr is absolute, in hundredths; lo and hi are the extremes of the frame
Sharp(v, b, gain, lo, hi) == LET r == v + Round((v - b) * gain, 4) IN IF r < lo THEN lo ELSE IF r > hi THEN hi ELSE r
Masked(p, w, h, s, gain, lo, hi, thr) ==
   LET b == TLCEval(Blurred(p, w, h, s))
   IN [i \in DOMAIN p |-> IF p[i] < thr THEN p[i] ELSE Sharp(p[i], b[i], gain, lo, hi)]
Off(o) == o.s <= 0 \/ (o.t # "blur" /\ o.g = 0)
\* background and spread of a frame, mean and standard deviation, in hundredths
Mean(s) == Round(Sum(s), Len(s))
RECURSIVE Root(_, _, _)
Root(n, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN Root(n, m, b) ELSE Root(n, a, m)
Dev(s) == LET m == TLCEval(Mean(s)) n == Len(s) IN 10 * Root(Sum([i \in DOMAIN s |-> (((s[i] - m) \div 10) * ((s[i] - m) \div 10)) \div n]), 0, 46340)
RECURSIVE Flatten(_)
Flatten(f) == IF f = <<>> THEN <<>> ELSE Head(f) \o Flatten(Tail(f))
\* one step on a frame: "blur" and "usm" on each plane by itself, "husm" on the third plane alone
Of(o, f) == IF o.t = "husm" THEN f[3] ELSE Flatten(f)
Apply(o, f, w, h) ==
   IF Off(o) THEN f
   ELSE LET all == TLCEval(Of(o, f)) lo == TLCEval(MinOf(all)) hi == TLCEval(MaxOf(all)) thr == TLCEval(Mean(all) + (Dev(all) * o.th) \div 10)
        IN [c \in DOMAIN f |-> IF o.t = "blur" THEN Blurred(f[c], w, h, o.s)
                               ELSE IF o.t = "husm" /\ c # 3 THEN f[c]
                               ELSE Masked(f[c], w, h, o.s, o.g, lo, hi, thr)]
=============================================================================
