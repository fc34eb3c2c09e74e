----------------------------- MODULE BalanceTrace -----------------------------
(* Recorded colour balances against the specification. Records hold the job e, the frame which came out,
   and whether the job was refused. Tolerances follow the rounding of values to units through both lines. *)
EXTENDS Balance, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Larger(a, b) == IF a > b THEN a ELSE b
Up(a, b) == IF a <= 0 THEN 1 ELSE (a + b - 1) \div b
\* uncertainty of the result of a line, for input v known to ev, and ends known to el and eh
Unsure(v, ev, lo, hi, el, eh, lo2, hi2) ==
   LET sl == Up(Abs(hi2 - lo2), hi - lo)
   IN 2 + el + sl * (el + ev) + (Abs(v - lo) * ((el + eh + 1) + (el + eh) * sl)) \div (hi - lo)
E1(e, lo, hi) ==
   LET lo2 == TLCEval(Aim(lo, e.dark)) hi2 == TLCEval(Aim(hi, e.light))
   IN [c \in 1..3 |-> [i \in DOMAIN e.f[c] |-> Unsure(e.f[c][i], 0, lo[c], hi[c], 1, 2, lo2[c], hi2[c])]]
FirstRises(e, lo, hi) == LET lo2 == TLCEval(Aim(lo, e.dark)) hi2 == TLCEval(Aim(hi, e.light)) IN \A c \in 1..3 : hi2[c] > lo2[c] + 10
At(w, p) == p[2] * w + p[1] + 1
BlockPixels(w, block, b) == {At(w, <<b[1] + ((k - 1) % block), b[2] + (k - 1) \div block>>) : k \in 1..(block * block)}
MaxOf(S) == CHOOSE v \in S : \A u \in S : u <= v
LeastOf(S) == CHOOSE v \in S : \A u \in S : v <= u
\* a frame after the first line: its uncertainty, its darkest blocks and star pixels, and whether the latter are certain
Seen(e, lo, hi) ==
   LET f == TLCEval(Through(e.f, lo, hi, e.dark, e.light))
       er == TLCEval(E1(e, lo, hi))
       bl == TLCEval(Blocks(e.w, e.h, e.block, e.border))
       m == TLCEval([b \in bl |-> BlockMean(f, e.w, e.block, b)])
       eb == TLCEval([b \in bl |-> [c \in 1..3 |-> 1 + MaxOf({er[c][i] : i \in BlockPixels(e.w, e.block, b)})]])
       least == TLCEval(LeastOf({Sum(m[d]) + Sum(eb[d]) : d \in bl}))
       dk == TLCEval({b \in bl : Sum(m[b]) - Sum(eb[b]) <= least})
       ps == TLCEval(Discs(Chosen(e.stars, e.bright, e.dim), e.w, e.h))
       mx == TLCEval([c \in 1..3 |-> Max(f[c])])
       em == TLCEval([c \in 1..3 |-> MaxOf({er[c][i] : i \in {i \in DOMAIN f[c] : f[c][i] = mx[c]}})])
       In(p, k) == \A c \in 1..3 : f[c][At(e.w, p)] + k * (er[c][At(e.w, p)] + em[c] + 2) < (mx[c] * 9) \div 10
       sure == TLCEval(SelectSeq(ps, LAMBDA p : In(p, 1)))
       may == TLCEval(SelectSeq(ps, LAMBDA p : In(p, -1)))
   IN [f |-> f, er |-> er, rises |-> FirstRises(e, lo, hi), m |-> m, eb |-> eb, dark |-> dk, certain |-> sure = may, none |-> may = <<>>,
       s |-> IF sure = <<>> THEN <<0, 0, 0>> ELSE StarMean(f, e.w, sure),
       es |-> IF sure = <<>> THEN <<0, 0, 0>> ELSE [c \in 1..3 |-> 1 + MaxOf({er[c][At(e.w, sure[i])] : i \in DOMAIN sure})]]
\* contrast between block d and the stars: 1 certain, 0 unsure, -1 there is none
Sure(z, b) ==
   IF \A c \in 1..3 : z.s[c] - z.es[c] > z.m[b][c] + z.eb[b][c] THEN 1
   ELSE IF \E c \in 1..3 : z.s[c] + z.es[c] <= z.m[b][c] - z.eb[b][c] THEN -1 ELSE 0
Big == 600
Matches(e, g, z, b) ==
   LET lo2 == TLCEval(Aim(z.m[b], e.dark)) hi2 == TLCEval(Aim(z.s, e.light))
   IN \A c \in 1..3 : \A i \in DOMAIN g[c] :
        LET t == Unsure(z.f[c][i], z.er[c][i], z.m[b][c], z.s[c], z.eb[b][c], z.es[c], lo2[c], hi2[c])
        IN t > Big \/ Abs(g[c][i] - Line(z.f[c][i], z.m[b][c], z.s[c], lo2[c], hi2[c])) <= t
Rising(e, z, b) == LET lo2 == TLCEval(Aim(z.m[b], e.dark)) hi2 == TLCEval(Aim(z.s, e.light)) IN \A c \in 1..3 : hi2[c] > lo2[c] + z.es[c] + z.eb[b][c]
\* both lines keep the order of values in a channel; compared for some pairs of pixels
InOrder(a, g) == \A c \in 1..3 : \A i \in DOMAIN a[c] : \A k \in {1, 2, 5, 11, 17} :
                   LET j == ((i + k) % Len(a[c])) + 1 IN IF a[c][i] <= a[c][j] THEN g[c][i] <= g[c][j] ELSE g[c][i] >= g[c][j]
InRange(g) == \A c \in 1..3 : \A i \in DOMAIN g[c] : g[c][i] \in 0..U
Flat(f) == \E c \in 1..3 : \A i \in DOMAIN f[c] : f[c][i] = f[c][1]
Finish(e, z, r) ==
   IF z.none THEN (IF r.err = "" THEN "was not refused without pixels of stars" ELSE "")
   ELSE IF ~z.certain THEN (IF r.err = "" /\ ~InRange(r.g) THEN "out of range" ELSE "")
   ELSE IF r.err # "" THEN (IF \E b \in z.dark : Sure(z, b) # 1 THEN "" ELSE "refused: " \o r.err)
   ELSE IF ~InRange(r.g) THEN "out of range"
   ELSE LET ok == {b \in z.dark : Sure(z, b) # -1} IN
        IF ok = {} THEN "was not refused without contrast between ground and stars"
        ELSE IF \E b \in ok : Sure(z, b) = 0 THEN ""
        ELSE IF ~\E b \in ok : Matches(e, r.g, z, b) THEN "not as the settings say: darkest block " \o ToString(z.m[CHOOSE b \in ok : TRUE]) \o " stars " \o ToString(z.s)
        ELSE IF (\A b \in ok : Rising(e, z, b)) /\ z.rises /\ ~InOrder(e.f, r.g) THEN "what was darker is not darker any more"
        ELSE ""
Why(r) ==
   LET e == r.e IN
   IF r.panic # "" THEN "crash: " \o r.panic
   ELSE IF r.planes # 3 THEN (IF r.err = "" THEN "was not refused without three channels" ELSE "")
   ELSE IF r.err = "" /\ ~r.same THEN "identity or size of the frame changed, or its statistics are old"
   ELSE IF e.stars = <<>> \/ Flat(e.f) \/ Blocks(e.w, e.h, e.block, e.border) = {} \/ Chosen(e.stars, e.bright, e.dim) = <<>>
        THEN (IF r.err = "" THEN "was not refused" ELSE "")
   ELSE LET lo == TLCEval(Loc(e.f)) hi == TLCEval(Three(e.f)) IN
        IF \E c \in 1..3 : hi[c] - lo[c] < 300 THEN (IF r.err = "" /\ ~InRange(r.g) THEN "out of range" ELSE "")
        ELSE Finish(e, TLCEval(Seen(e, lo, hi)), r)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
