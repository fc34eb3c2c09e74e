----------------------------- MODULE Background -----------------------------
(* Background extraction: the frame is covered by a grid of cells, each cell is the median of its pixels
   away from stars and without upward outliers, holes are filled from their neighbours, the brightest
   cells may be replaced likewise, the cells are smoothed and interpolated between their centres, and
   the result is subtracted. Frames are sequences of whole numbers, row by row; stars are
   [x, y, r] with position and radius in halves of a pixel. Smoothed cells and the
   background are in thousandths. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
None == 999999999      \* a cell without value
\* ------------------------------------------------------------------ grid
Cells(size, grid) == LET n == (size + grid \div 2) \div grid IN IF n < 2 THEN 2 ELSE n
Start(size, n, i) == (2 * i * size + n) \div (2 * n)                   \* first pixel of cell i = 0..n
Centre(size, n, i) == IF i < 0 THEN 0 - ((size + n) \div (2 * n)) ELSE ((2 * i + 1) * size + n) \div (2 * n)
\* ------------------------------------------------------------------ cells
Masked(stars, x, y) == \E i \in DOMAIN stars : LET s == stars[i] IN (2 * x - s.x) * (2 * x - s.x) + (2 * y - s.y) * (2 * y - s.y) <= s.r * s.r
Less(a, b) == a < b
Sorted(s) == SortSeq(s, Less)
\* twice the median of a sorted sequence
Median2(s) == LET n == Len(s) m == n \div 2 IN IF n % 2 = 1 THEN 2 * s[m + 1] ELSE s[m] + s[m + 1]
Dev(v, m2) == IF 2 * v > m2 THEN 2 * v - m2 ELSE m2 - 2 * v
\* twice the median of the values which are not more than sigma (in quarters) deviations above the median
Trimmed2(vs, sigma) ==
   LET s == TLCEval(Sorted(vs))
       m2 == TLCEval(Median2(s))
       mad4 == TLCEval(Median2(Sorted([i \in DOMAIN s |-> Dev(s[i], m2)])))
       kept == SelectSeq(s, LAMBDA v : (2 * v - m2) * 80000 <= sigma * 14826 * mad4)
   IN Median2(kept)
RECURSIVE Gather(_, _, _, _, _, _)
\* the pixels of columns x0..x1-1 from row y on, up to row y1, away from stars
Gather(d, w, stars, xs, y, y1) ==
   IF y >= y1 THEN <<>>
   ELSE LET row == SelectSeq([i \in 1..(xs[2] - xs[1]) |-> xs[1] + i - 1], LAMBDA x : ~Masked(stars, x, y))
        IN [i \in DOMAIN row |-> d[y * w + row[i] + 1]] \o Gather(d, w, stars, xs, y + 1, y1)
Fit(d, w, h, nx, ny, stars, sigma, c) ==
   LET x == c % nx y == c \div nx
       vs == TLCEval(Gather(d, w, stars, <<Start(w, nx, x), Start(w, nx, x + 1)>>, Start(h, ny, y), Start(h, ny, y + 1)))
   IN IF vs = <<>> THEN None ELSE Trimmed2(vs, sigma)
\* ------------------------------------------------------------------ holes
Around == <<<<-1, -1>>, <<0, -1>>, <<1, -1>>, <<-1, 0>>, <<1, 0>>, <<-1, 1>>, <<0, 1>>, <<1, 1>>>>
Near(cs, nx, ny, c) ==
   LET x == c % nx y == c \div nx
       ok == SelectSeq(Around, LAMBDA o : x + o[1] \in 0..(nx - 1) /\ y + o[2] \in 0..(ny - 1) /\ cs[(y + o[2]) * nx + x + o[1] + 1] # None)
   IN [i \in DOMAIN ok |-> cs[(y + ok[i][2]) * nx + x + ok[i][1] + 1]]
Holes(cs) == {i \in DOMAIN cs : cs[i] = None}
\* cells are in sixteenths from here; further averages are rounded to them
Half(v) == (v + 1) \div 2
RECURSIVE Pass(_, _, _, _, _)
Pass(cs, nx, ny, k, c) ==
   IF c >= nx * ny THEN cs
   ELSE IF cs[c + 1] # None THEN Pass(cs, nx, ny, k, c + 1)
   ELSE LET n == TLCEval(Near(cs, nx, ny, c)) IN
        IF Len(n) >= k /\ Len(n) > 0 THEN Pass([cs EXCEPT ![c + 1] = Half(Median2(Sorted(n)))], nx, ny, k, c + 1)
        ELSE Pass(cs, nx, ny, k, c + 1)
RECURSIVE Fill(_, _, _, _)
\* holes with most neighbours first
Fill(cs, nx, ny, k) ==
   IF Holes(cs) = {} \/ k = 0 THEN cs
   ELSE LET t == TLCEval(Pass(cs, nx, ny, k, 0)) IN
        IF t = cs THEN Fill(cs, nx, ny, k - 1) ELSE Fill(t, nx, ny, k)
Filled(cs, nx, ny) == IF Cardinality(Holes(cs)) = Len(cs) THEN [i \in DOMAIN cs |-> 0] ELSE Fill(cs, nx, ny, 8)
\* the k brightest cells, and all which are as bright as they are, become holes unless no cell would be left
Clipped(cs, nx, ny, k) ==
   IF k <= 0 THEN cs
   ELSE LET s == TLCEval(Sorted(cs))
            t == s[IF k > Len(s) THEN 1 ELSE Len(s) - k + 1]
        IN IF t = s[1] THEN cs ELSE Filled([i \in DOMAIN cs |-> IF cs[i] >= t THEN None ELSE cs[i]], nx, ny)
\* ------------------------------------------------------------------ smoothing and interpolation
Weight(dx, dy) == <<46859, 10797, 2488>>[1 + dx * dx + dy * dy]
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Sum1(s) == Sum(s, 1)
Nine == <<<<0, 0>>>> \o Around
\* cells in units of 1/16, result in thousandths
Smooth(cs, nx, ny, c) ==
   LET x == c % nx y == c \div nx
       ok == SelectSeq(Nine, LAMBDA o : x + o[1] \in 0..(nx - 1) /\ y + o[2] \in 0..(ny - 1))
       ws == TLCEval(Sum1([i \in DOMAIN ok |-> Weight(ok[i][1], ok[i][2])]))
       s == TLCEval(Sum1([i \in DOMAIN ok |-> Weight(ok[i][1], ok[i][2]) * cs[(y + ok[i][2]) * nx + x + ok[i][1] + 1]]))
       q == s \div ws r == s % ws                 \* value in 1/16 is q + r/ws
   IN (q * 1000 + (r * 1000) \div ws) \div 16
\* grid of smoothed cells of a frame
Grid(d, w, h, o) ==
   LET nx == Cells(w, o.grid) ny == Cells(h, o.grid)
       fit == TLCEval([i \in 1..(nx * ny) |-> LET v == Fit(d, w, h, nx, ny, o.stars, o.sigma, i - 1) IN IF v = None THEN None ELSE 8 * v])
       full == TLCEval(Filled(fit, nx, ny))
       clip == TLCEval(Clipped(full, nx, ny, o.clip))
   IN [i \in 1..(nx * ny) |-> Smooth(clip, nx, ny, i - 1)]
\* between which centres a pixel lies, and where: <<cell, steps, of>>
Place(size, n, p) ==
   LET k == CHOOSE j \in (-1)..(n - 1) : Centre(size, n, j) <= p /\ (j = n - 1 \/ Centre(size, n, j + 1) > p)
       lo == IF k < 0 THEN 0 ELSE IF k > n - 2 THEN n - 2 ELSE k
       of == Centre(size, n, k + 1) - Centre(size, n, k)
   IN <<lo, (k - lo) * of + p - Centre(size, n, k), of>>
Mix(a, b, num, of) == (a * (of - num) + b * num) \div of
At(g, nx, px, py) ==
   LET l == px[1] + 1 + py[1] * nx IN
   Mix(Mix(g[l], g[l + 1], px[2], px[3]), Mix(g[l + nx], g[l + nx + 1], px[2], px[3]), py[2], py[3])
\* the background at every pixel
Render(d, w, h, o) ==
   LET nx == Cells(w, o.grid) ny == Cells(h, o.grid)
       g == TLCEval(Grid(d, w, h, o))
       px == TLCEval([x \in 0..(w - 1) |-> Place(w, nx, x)])
       py == TLCEval([y \in 0..(h - 1) |-> Place(h, ny, y)])
   IN [i \in 1..(w * h) |-> At(g, nx, px[(i - 1) % w], py[(i - 1) \div w])]
=============================================================================
