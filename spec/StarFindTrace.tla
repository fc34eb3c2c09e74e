---------------------------- MODULE StarFindTrace ---------------------------
EXTENDS StarFind, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
\* known blobs: every expected position (thousandths) has exactly one star within tol, and there are no others
Known(e) == IF Len(e.stars) # Len(e.want) THEN "expected " \o ToString(Len(e.want)) \o " stars, found " \o ToString(Len(e.stars))
            ELSE IF \A j \in 1..Len(e.want) : \E k \in 1..Len(e.stars) : Abs(e.stars[k].x - e.want[j][1]) <= e.tol /\ Abs(e.stars[k].y - e.want[j][2]) <= e.tol
            THEN "" ELSE "star missing or at the wrong position"
AvgHfr(e) == LET n == Len(e.stars) IN n = 0 \/ Abs((e.avg * n) - MapThenSumSet(LAMBDA j : e.stars[j].hfr, 1..n)) <= 2 * n
\* images given by their lit pixels
Dense(e) == LET k == TLCEval({e.lit[j][1] : j \in 1..Len(e.lit)})
                m == TLCEval([i \in k |-> e.lit[CHOOSE j \in 1..Len(e.lit) : e.lit[j][1] = i][2]])
            IN [i \in 1..(e.p.w * e.p.h) |-> IF i \in k THEN m[i] ELSE 0]
Why(e) ==
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF e.same # 1 THEN "detection changed the image"
   ELSE IF e.again # 1 THEN "another detection on the same image differs"
   ELSE IF ~AvgHfr(e) THEN "wrong average half-flux radius"
   ELSE LET k == IF e.known = 1 THEN Known(e) ELSE "" IN IF k # "" THEN k
   ELSE IF e.op = "sparse" THEN Catalogue(Dense(e), e.p, e.stars)
   ELSE IF e.op = "big" THEN Catalogue(e.d, e.p, e.stars)
   ELSE LET c == Catalogue(e.d, e.p, e.stars) IN IF c # "" THEN c ELSE Exact(e.d, e.p, e.stars)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
