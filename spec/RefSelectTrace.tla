-------------------------- MODULE RefSelectTrace ---------------------------
EXTENDS RefSelect, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, skip
tvars == <<rvars, l, skip>>
TraceInit == /\ n = 0 /\ m = 0 /\ sels = << >> /\ kind = << >> /\ stars = << >> /\ hfr = << >> /\ loc = << >>
             /\ started = << >> /\ ended = << >> /\ dem = {} /\ ref = << >> /\ alw = << >> /\ phase = "closed"
             /\ l = 1 /\ skip = TRUE
Load(e) == /\ n' = e.n /\ m' = e.m /\ sels' = e.sels /\ kind' = e.kinds /\ stars' = e.stars
           /\ hfr' = e.hfr /\ loc' = e.loc
           /\ started' = [i \in 1..(e.n + e.m) |-> 0] /\ ended' = [i \in 1..(e.n + e.m) |-> 0]
           /\ dem' = {} /\ ref' = [k \in 1..Len(e.sels) |-> 0] /\ phase' = "run"
           /\ alw' = [k \in 1..Len(e.sels) |-> AllowedOf(e.sels[k], e.n, e.kinds, e.stars, e.hfr, e.loc)]
Match(e) == \/ e.ev = "demand" /\ Demand(e.i)
            \/ e.ev = "start" /\ EvalStart(e.i)
            \/ e.ev = "end" /\ EvalEnd(e.i)
            \/ e.ev = "result" /\ Result(e.i, e.what, e.owner, e.seen)
            \/ e.ev = "close" /\ Close
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.new = 1 THEN Load(e) /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED rvars /\ skip' = TRUE
           ELSE IF ENABLED Match(e) THEN Match(e) /\ skip' = FALSE
           ELSE /\ PrintT(<<"MISMATCH", l, e.ev>>) /\ UNCHANGED rvars /\ skip' = TRUE
TraceSpec == TraceInit /\ [][Next]_tvars
TraceInv == Once
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
