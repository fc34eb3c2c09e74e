-------------------------- MODULE MaterializeTrace -------------------------
(* Traces recorded from the real executor, validated against Materialize. *)
EXTENDS Materialize, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, skip
tvars == <<mvars, l, skip>>
ToSet(s) == {s[k] : k \in DOMAIN s}

TraceInit == /\ CallWith(0, 1, << >>, FALSE) /\ l = 1 /\ skip = TRUE
Load(e) == /\ n' = e.n /\ lim' = e.lim /\ kind' = e.kinds /\ forget' = (e.forget = 1)
           /\ st' = [i \in 1..e.n |-> "wait"] /\ ret' = FALSE
Match(e) == \/ e.ev = "start" /\ Start(e.i)
            \/ e.ev = "end" /\ Finish(e.i)
            \/ e.ev = "ret" /\ Return /\ ResultOk(e.outs, e.failed = 1, ToSet(e.texts))
            \/ e.ev = "close" /\ ret /\ UNCHANGED mvars
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.new = 1 THEN Load(e) /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED mvars /\ skip' = TRUE
           ELSE IF ENABLED Match(e) THEN Match(e) /\ skip' = FALSE
           ELSE /\ PrintT(<<"MISMATCH", l, e.ev>>)
                /\ UNCHANGED mvars /\ skip' = TRUE
TraceSpec == TraceInit /\ [][Next]_tvars
TraceInv == MInv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
