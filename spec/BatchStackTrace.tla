-------------------------- MODULE BatchStackTrace ---------------------------
EXTENDS BatchStack, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, skip
tvars == <<bvars, l, skip>>
TraceInit == /\ sc = [n |-> 0] /\ sizes = << >> /\ used = << >> /\ cur = {} /\ done = TRUE
             /\ l = 1 /\ skip = TRUE
Load0(e) == /\ sc' = e /\ sizes' = << >> /\ used' = [i \in 1..e.n |-> FALSE] /\ cur' = {} /\ done' = FALSE
Match(e) == \/ e.ev = "load" /\ (PreLoad(e.i) \/ Load(e.i))
            \/ e.ev = "batch" /\ Batch(e.size)
            \/ e.ev = "result" /\ Result(e.err, e.t, e.exp, e.px)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.new = 1 THEN Load0(e) /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED bvars /\ skip' = TRUE
           ELSE IF ENABLED Match(e) THEN Match(e) /\ skip' = FALSE
           ELSE /\ PrintT(<<"MISMATCH", l, e.ev>>) /\ UNCHANGED bvars /\ skip' = TRUE
TraceSpec == TraceInit /\ [][Next]_tvars
TraceInv == Once
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
