---------------------------- MODULE CosmeticTrace ---------------------------
EXTENDS Cosmetic, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Why(e) ==
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF e.must = "error" THEN IF e.err = "" THEN "accepted although " \o e.what ELSE ""
   ELSE IF e.err # "" THEN "refused: " \o e.err
   ELSE IF e.meta # "" THEN e.meta
   ELSE LET j == Judge(e.d, e.p, e.out) IN IF j # "" THEN j
   ELSE IF e.count >= 0 /\ e.count # Changed(e.d, e.out) THEN "wrong number of corrections reported" ELSE ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
