------------------------------ MODULE BlurTrace ------------------------------
(* Recorded blurs and unsharp masks against the specification. Records hold the step o, the frame before
   (a) and after (g), in hundredths, and which samples are the same bit for bit (eq). *)
EXTENDS Blur, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Abs(v) == IF v < 0 THEN 0 - v ELSE v
\* rounding of tabulated weights in two passes
Tol(s, lo, hi) == 3 + (Len(Kernel(s)) * ((hi - lo) \div 100)) \div 100
PlaneWhy(e, c, lo, hi, thr) ==
   LET o == e.o
       b == TLCEval(Blurred(e.a[c], e.w, e.h, o.s))
       t == TLCEval(Tol(o.s, lo, hi))
       margin == 20 + 3 * Abs(o.th)
       Why(i) == LET v == e.a[c][i] x == e.g[c][i] same == e.eq[c][i] = 1
                     sharp == Abs(x - Sharp(v, b[i], o.g, lo, hi)) <= t + (t * Abs(o.g)) \div 4 + 2
                 IN IF x \notin (lo - 1)..(hi + 1) THEN "left the range of values: " \o ToString(<<x, lo, hi>>)
                    ELSE IF o.t = "blur" THEN (IF Abs(x - b[i]) <= t THEN "" ELSE "not the blurred value: " \o ToString(<<c, i, v, x, b[i]>>))
                    ELSE IF v < thr - margin THEN (IF same THEN "" ELSE "changed below the threshold: " \o ToString(<<c, i, v, x, thr>>))
                    ELSE IF v < thr + margin THEN (IF same \/ sharp THEN "" ELSE "neither kept nor sharpened: " \o ToString(<<c, i, v, x, b[i]>>))
                    ELSE IF sharp THEN "" ELSE "not sharpened as asked for: " \o ToString(<<c, i, v, x, b[i]>>)
       bad == {i \in DOMAIN e.a[c] : Why(i) # ""}
   IN IF bad = {} THEN "" ELSE Why(CHOOSE i \in bad : TRUE)
Kept(e, c) == \A i \in DOMAIN e.eq[c] : e.eq[c][i] = 1
StepWhy(e) ==
   LET o == e.o n == Len(e.a) IN
   IF Off(o) THEN (IF e.err # "" THEN "refused: " \o e.err ELSE IF \E c \in 1..n : ~Kept(e, c) THEN "changed although switched off" ELSE "")
   ELSE IF o.t = "husm" /\ n # 3 THEN (IF e.err = "" THEN "was not refused" ELSE "")
   ELSE IF e.err # "" THEN "refused: " \o e.err
   ELSE IF ~e.same THEN "identity or size of the frame changed, or its statistics are old"
   ELSE IF Kernel(o.s) = <<10000>> /\ \E c \in 1..n : ~Kept(e, c) THEN "changed by a kernel of one pixel"
   ELSE LET all == TLCEval(Of(o, e.a)) lo == TLCEval(MinOf(all)) hi == TLCEval(MaxOf(all))
            thr == TLCEval(Mean(all) + (Dev(all) * o.th) \div 10)
            W(c) == IF o.t = "husm" /\ c # 3 THEN (IF Kept(e, c) THEN "" ELSE "changed hue or saturation") ELSE PlaneWhy(e, c, lo, hi, thr)
            w == TLCEval([c \in 1..n |-> W(c)])
            bad == {c \in 1..n : w[c] # ""}
        IN IF bad = {} THEN "" ELSE w[CHOOSE c \in bad : TRUE]
Why(e) == IF e.panic # "" THEN "crash: " \o e.panic ELSE StepWhy(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
