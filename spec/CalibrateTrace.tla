--------------------------- MODULE CalibrateTrace ---------------------------
EXTENDS Calibrate, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, sc                                \* sc: the session's masters, with the flat's maximum
LightOk(s, e) ==
   IF e.panic # "" THEN "crash"
   ELSE IF Refused(s.dark, s.flat, e.d) THEN (IF e.err = 1 THEN "" ELSE "uncalibrated frame passed")
   ELSE IF e.err = 1 THEN "frame refused"
   ELSE IF e.od # e.d \/ Len(e.out) # Len(e.q) \/ e.sameid # 1 THEN "frame replaced"
   ELSE IF \E i \in 1..Len(e.q) :
             IF e.q[i] = NaN THEN e.out[i] # NaN
             ELSE e.out[i] = NaN \/ ~IsPixel(e.out[i], Pixel(s.dark, s.flat, s.mx, e.q[i], i), 1000)
        THEN "pixels" ELSE ""
Why(s, e) == CASE e.ev = "light" -> LightOk(s, e)
               [] e.ev = "shared" ->           \* the session's masters afterwards
                    IF Unusable(s.dark, s.flat) THEN ""
                    ELSE IF s.dark.kind = "ok" /\ e.dark # s.dark.q THEN "dark frame changed"
                    ELSE IF s.flat.kind = "ok" /\ e.flat # s.flat.q THEN "flat frame changed" ELSE ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.new = 1 THEN sc' = [dark |-> e.dark, flat |-> e.flat, mx |-> IF e.flat.kind = "ok" THEN MaxSeq(e.flat.q) ELSE 0]
           ELSE sc' = sc /\ LET w == Why(sc, e) IN w = "" \/ PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ sc = [dark |-> 0] /\ [][Next]_<<l, sc>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
