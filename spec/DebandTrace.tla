----------------------------- MODULE DebandTrace -----------------------------
(* Recorded debandings against the specification. Records hold the step o, the frame before (a) in units and
   after (g) in tenths, the threshold thr in hundredths, and which samples are the same bit for bit (eq). *)
EXTENDS Deband, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Kept(e, c) == \A i \in DOMAIN e.eq[c] : e.eq[c][i] = 1
PlaneWhy(e, c) ==
   LET x == TLCEval(Corrected(e.a[c], e.w, e.h, e.o, e.thr, 10))
       bad == {i \in DOMAIN x : Abs(e.g[c][i] - x[i]) > 2 + Abs(x[i]) \div 10000}
       v == TLCEval(Percentiles(e.a[c], e.w, e.h, e.o, e.thr))
       moved == {i \in DOMAIN x : v[LineOf(i, e.w, e.o.horiz)] = 0 /\ e.eq[c][i] # 1}
   IN IF bad # {} THEN (LET i == CHOOSE i \in bad : TRUE IN "not the corrected value: " \o ToString(<<c, i, e.a[c][i], e.g[c][i], x[i]>>))
      ELSE IF moved # {} THEN "changed a line without a level: " \o ToString(<<c, CHOOSE i \in moved : TRUE>>)
      ELSE ""
Unclear(e) == e.o.sig # 0 /\ \E c \in DOMAIN e.a : \E i \in DOMAIN e.a[c] : Abs(e.a[c][i] * 100 - e.thr) <= 2
StepWhy(e) ==
   LET n == Len(e.a) IN
   IF e.err # "" THEN "refused: " \o e.err
   ELSE IF ~e.same THEN "identity or size of the frame changed, or its statistics are old"
   ELSE IF Off(e.o) THEN (IF \E c \in 1..n : ~Kept(e, c) THEN "changed although switched off" ELSE "")
   ELSE IF Unclear(e) THEN ""
   ELSE LET w == TLCEval([c \in 1..n |-> PlaneWhy(e, c)])
            bad == {c \in 1..n : w[c] # ""}
        IN IF bad = {} THEN "" ELSE w[CHOOSE c \in bad : TRUE]
Why(e) == IF e.panic # "" THEN "crash: " \o e.panic ELSE StepWhy(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
