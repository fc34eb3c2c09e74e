------------------------------- MODULE Deband --------------------------------
(* Removal of horizontal or vertical bands. Each line (row or column) of each plane is multiplied so that a
   percentile of its samples becomes the median of the percentiles of the lines around it. Samples above a
   threshold do not count, unless the whole line is above it. A window which reaches beyond the edge of the
   plane is completed by the straight line through the medians of its two halves. Lines whose percentile
   is zero stay. A plane is a sequence of values, thr in hundredths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Off(o) == o.p <= 0 \/ o.p >= 100 \/ o.win <= 0
\* lines of a plane
Lines(p, w, h, horiz) ==
   IF horiz THEN [y \in 1..h |-> [x \in 1..w |-> p[(y - 1) * w + x]]]
   ELSE [x \in 1..w |-> [y \in 1..h |-> p[(y - 1) * w + x]]]
Larger(a, b) == IF a > b THEN a ELSE b
Percentile(line, p, limited, thr) ==
   LET low == SelectSeq(line, LAMBDA v : ~limited \/ v * 100 <= thr)
       use == TLCEval(Sorted(IF low = <<>> THEN line ELSE low))
   IN use[Larger(1, (Len(use) * p) \div 100)]
\* twice the median
Median2(s) == LET t == TLCEval(Sorted(s)) n == Len(t) IN IF n % 2 = 1 THEN 2 * t[n \div 2 + 1] ELSE t[n \div 2] + t[n \div 2 + 1]
\* the window around line i (from 1) of n, l lines long: 4l times the values, completed beyond the edges
Window(v, i, n, l) ==
   LET start == i - (l \div 2)
       from == IF start < 1 THEN 1 ELSE IF start + l - 1 > n THEN n - l + 1 ELSE start
       missing == start - from
       s == TLCEval([k \in 1..l |-> v[from + k - 1]])
       half == l \div 2
   IN IF missing = 0 THEN [k \in 1..l |-> 4 * l * s[k]]
      ELSE LET left == TLCEval(Median2(SubSeq(s, 1, half))) right == TLCEval(Median2(SubSeq(s, half + 1, l)))
               Beyond(pos) == (left + right) * l + (right - left) * 2 * (2 * pos - l)
           IN [k \in 1..l |-> IF missing < 0 THEN (IF k > l + missing THEN Beyond(k - 1 - l) ELSE 4 * l * s[k])
                              ELSE (IF k <= missing THEN Beyond(k - 1 + l) ELSE 4 * l * s[k])]
WinLen(o, n) == IF o.win > n THEN n ELSE o.win
\* 8l times the percentile each line should have
Goals(v, l) == LET n == Len(v) IN [i \in 1..n |-> Median2(Window(v, i, n, l))]
Percentiles(p, w, h, o, thr) == LET ls == TLCEval(Lines(p, w, h, o.horiz)) IN TLCEval([i \in DOMAIN ls |-> Percentile(ls[i], o.p, o.sig # 0, thr)])
LineOf(i, w, horiz) == IF horiz THEN ((i - 1) \div w) + 1 ELSE ((i - 1) % w) + 1
Count(w, h, horiz) == IF horiz THEN h ELSE w
\* unit times the corrected value
Corrected(p, w, h, o, thr, unit) ==
   LET v == TLCEval(Percentiles(p, w, h, o, thr)) l == WinLen(o, Len(v)) g == TLCEval(Goals(v, l))
   IN [i \in DOMAIN p |-> LET k == LineOf(i, w, o.horiz) d == v[k] * 8 * l
                          IN IF v[k] = 0 THEN p[i] * unit
                             ELSE IF d > 0 THEN (p[i] * g[k] * unit + d \div 2) \div d ELSE (0 - p[i] * g[k] * unit + (0 - d) \div 2) \div (0 - d)]
=============================================================================
