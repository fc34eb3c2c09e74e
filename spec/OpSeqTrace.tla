---------------------------- MODULE OpSeqTrace -----------------------------
EXTENDS OpSeq, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, skip
tvars == <<svars, l, skip>>
TraceInit == Setup(0, 0, <<<< >>>>) /\ l = 1 /\ skip = TRUE
Load(e) == /\ N' = e.n /\ K' = e.k /\ beh' = e.beh /\ built' = "no"
           /\ ph' = [i \in 1..e.n |-> "idle"] /\ hist' = [i \in 1..e.n |-> << >>]
Match(e) == \/ e.ev = "build" /\ Build(e.ok = 1, e.m)
            \/ e.ev = "demand" /\ Demand(e.i)
            \/ e.ev = "apply" /\ Apply(e.i, e.k, e.in)
            \/ e.ev = "result" /\ Result(e.i, e.kind, e.owner, e.in, e.errk)
            \/ e.ev = "close" /\ (\A i \in 1..N : ph[i] \in {"idle", "out"}) /\ UNCHANGED svars
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.new = 1 THEN Load(e) /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED svars /\ skip' = TRUE
           ELSE IF ENABLED Match(e) THEN Match(e) /\ skip' = FALSE
           ELSE /\ PrintT(<<"MISMATCH", l, e.ev>>) /\ UNCHANGED svars /\ skip' = TRUE
TraceSpec == TraceInit /\ [][Next]_tvars
TraceInv == SInv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
