------------------------------- MODULE Balance -------------------------------
(* Colour balance of a frame of three channels: each channel goes through two straight lines, clamped to
   the range of values. The first moves its background and three spreads above it to the mean of the
   channels, the second does the same with the darkest block and the mean colour of the stars; tints
   say what counts as neutral. Values are in units of 1/U, tints in eighths, border and skipped
   fractions of the stars in eighths. Stars are [x, y, r] with r the radius in thousandths.
   A job is refused as soon as something it needs is missing: a block inside the border, a star which is
   not skipped, a pixel of a star which is not clipped, or contrast to stretch. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
U == 20000
Cut(v) == IF v < 0 THEN 0 ELSE IF v > U THEN U ELSE v
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
Max(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= v
\* ------------------------------------------------------------------ background and spread of a channel
Mean(s) == (Sum(s) + Len(s) \div 2) \div Len(s)
RECURSIVE Root(_, _, _)
Root(n, a, b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m * m <= n THEN Root(n, m, b) ELSE Root(n, a, m)
\* three standard deviations
Dev3(s) == LET m == TLCEval(Mean(s))
               v == TLCEval((Sum([i \in DOMAIN s |-> ((s[i] - m) * (s[i] - m))  \div 100]) \div Len(s)) * 100)
           IN 3 * Root(v, 0, 20001)
Loc(f) == [c \in 1..3 |-> Mean(f[c])]
Three(f) == [c \in 1..3 |-> Mean(f[c]) + Dev3(f[c])]
\* ------------------------------------------------------------------ a line
\* cur, target: per channel; the averages over the channels, tinted, are what is to come out
Aim(cur, tint) == LET m == Sum(cur) \div 3 IN [c \in 1..3 |-> (tint[c] * m) \div 8]
Line(v, lo, hi, lo2, hi2) == Cut(lo2 + ((v - lo) * (hi2 - lo2)) \div (hi - lo))
Contrast(lo, hi) == \A c \in 1..3 : hi[c] > lo[c]
Through(f, lo, hi, dark, light) ==
   LET lo2 == TLCEval(Aim(lo, dark)) hi2 == TLCEval(Aim(hi, light))
   IN [c \in 1..3 |-> [i \in DOMAIN f[c] |-> Line(f[c][i], lo[c], hi[c], lo2[c], hi2[c])]]
\* ------------------------------------------------------------------ darkest block
Edge(size, block, border) == LET a == (((size * border) \div 8) \div block) * block IN [from |-> a, to |-> ((size - a) \div block) * block]
Blocks(w, h, block, border) ==
   IF block <= 0 \/ border < 0 \/ border > 8 THEN {}
   ELSE LET x == Edge(w, block, border) y == Edge(h, block, border) IN
        {p \in {<<i * block, j * block>> : i \in 0..(w \div block), j \in 0..(h \div block)} :
           p[1] \in x.from..(x.to - 1) /\ p[2] \in y.from..(y.to - 1)}
BlockSum(ch, w, block, at) == Sum([k \in 1..(block * block) |-> ch[(at[2] + (k - 1) \div block) * w + at[1] + ((k - 1) % block) + 1]])
BlockMean(f, w, block, at) == [c \in 1..3 |-> BlockSum(f[c], w, block, at) \div (block * block)]
\* all blocks which are the darkest but for rounding
Darkest(f, w, h, block, border, margin) ==
   LET m == TLCEval([b \in Blocks(w, h, block, border) |-> BlockMean(f, w, block, b)])
   IN {m[b] : b \in {b \in DOMAIN m : \A d \in DOMAIN m : Sum(m[b]) <= Sum(m[d]) + margin}}
\* ------------------------------------------------------------------ stars
Fraction(a) == a \in 0..8
Chosen(stars, bright, dim) ==
   LET n == Len(stars) a == (n * bright) \div 8 z == n - ((n * dim) \div 8)
   IN IF ~Fraction(bright) \/ ~Fraction(dim) \/ a >= z THEN <<>> ELSE SubSeq(stars, a + 1, z)
Disc(s, w, h) ==
   LET n == (s.r + 500) \div 1000 q == (s.r + 10) * (s.r + 10)
   IN SelectSeq([k \in 1..((2 * n + 1) * (2 * n + 1)) |-> <<s.x - n + ((k - 1) % (2 * n + 1)), s.y - n + ((k - 1) \div (2 * n + 1))>>],
        LAMBDA p : /\ p[1] \in 0..(w - 1) /\ p[2] \in 0..(h - 1)
                   /\ ((p[1] - s.x) * (p[1] - s.x) + (p[2] - s.y) * (p[2] - s.y)) * 1000000 <= q)
RECURSIVE Discs(_, _, _)
Discs(ss, w, h) == IF ss = <<>> THEN <<>> ELSE Disc(Head(ss), w, h) \o Discs(Tail(ss), w, h)
\* pixels of stars none of whose channels reaches nine tenths of its maximum
Limit(f) == [c \in 1..3 |-> (Max(f[c]) * 9) \div 10]
Below(f, w, p, lim, margin) == \A c \in 1..3 : f[c][p[2] * w + p[1] + 1] < lim[c] + margin
StarPixels(f, w, h, ss, margin) == LET lim == TLCEval(Limit(f)) IN SelectSeq(Discs(ss, w, h), LAMBDA p : Below(f, w, p, lim, margin))
StarMean(f, w, ps) == [c \in 1..3 |-> Sum([i \in DOMAIN ps |-> f[c][ps[i][2] * w + ps[i][1] + 1]]) \div Len(ps)]
\* ------------------------------------------------------------------ the steps: taken, first, done or refused
First(e, f) == LET lo == TLCEval(Loc(f)) hi == TLCEval(Three(f)) IN
   IF e.stars # <<>> /\ Contrast(lo, hi) THEN {Through(f, lo, hi, e.dark, e.light)} ELSE {}
Second(e, f, margin) ==
   LET ps == TLCEval(StarPixels(f, e.w, e.h, Chosen(e.stars, e.bright, e.dim), 0))
   IN IF ps = <<>> THEN {}
      ELSE LET s == TLCEval(StarMean(f, e.w, ps)) IN
           {Through(f, d, s, e.dark, e.light) : d \in {d \in Darkest(f, e.w, e.h, e.block, e.border, margin) : Contrast(d, s)}}
=============================================================================
