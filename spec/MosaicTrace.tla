----------------------------- MODULE MosaicTrace ----------------------------
EXTENDS Mosaic, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Why(e) ==
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF e.must = "error" THEN IF e.err = "" THEN "accepted although " \o e.what ELSE ""
   ELSE IF e.err # "" THEN "refused: " \o e.err
   ELSE IF e.pix # Len(e.out) THEN "pixel count of the frame does not match its data"
   ELSE IF e.meta # "" THEN e.meta
   ELSE IF e.op = "debayer" THEN Debayered(e.d, e.w, e.h, e.cfa, e.ch, e.ow, e.oh, e.out)
   ELSE Binned(e.d, e.w, e.h, e.planes, e.n, e.ow, e.oh, e.oplanes, e.out)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
