--------------------------- MODULE OrderStatTrace ---------------------------
EXTENDS OrderStat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
\* r is the result (twice the value for medians), out the array afterwards, pad = 1 if elements around it are unchanged
Why(e) ==
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF e.pad # 1 THEN "elements outside of the array were changed"
   ELSE CASE e.op = "select" -> IF ~IsPerm(e.in, e.out) THEN "select lost values" ELSE IF e.r # Kth(e.in, e.k) THEN "wrong element selected" ELSE ""
          [] e.op = "quartile" -> IF ~IsPerm(e.in, e.out) THEN "quartile lost values" ELSE IF e.r # Quartile(e.in) THEN "wrong quartile" ELSE ""
          [] e.op = "median" -> IF ~IsPerm(e.in, e.out) THEN "median lost values" ELSE IF e.r # Med2(e.in) THEN "wrong median" ELSE ""
          [] e.op = "fixed" -> IF e.r # Med2(e.in) THEN "wrong fixed-size median" ELSE ""      \* may overwrite its argument
          [] e.op = "sort" -> IF e.out # Sorted(e.in) THEN "not sorted" ELSE ""
          [] e.op = "part" -> IF ~PartOk(e.in, e.out, e.r) THEN "not partitioned" ELSE ""
          \* out: the stars' original positions, in: their masses
          [] e.op = "stars" -> IF Sorted(e.out) # [i \in 1..Len(e.in) |-> i] THEN "stars lost"
                               ELSE IF \E i \in 1..(Len(e.out) - 1) : e.in[e.out[i]] < e.in[e.out[i + 1]] THEN "stars not by decreasing mass" ELSE ""
          [] e.op = "filter" -> IF e.same # 1 THEN "filter changed its input"
                                ELSE LET f == Filter(e.in, e.w) IN
                                     IF \E i \in 1..Len(f) : Border(i, e.w, Len(f)) /\ e.out[i] # f[i] THEN "filter changed the edge"
                                     ELSE IF e.out # f THEN "wrong median in filter" ELSE ""
          \* a line of the filter leaves first and last column of the middle row alone (z: what was there)
          [] e.op = "line" -> LET f == Filter(e.in, e.w) IN
                              IF \E i \in 1..Len(f) : e.out[i] # (IF Border(i, e.w, Len(f)) THEN e.z ELSE f[i]) THEN "wrong median in line" ELSE ""
          [] e.op = "gather" -> IF e.same # 1 THEN "gathering changed the data"
                                ELSE IF Gather(e.in, e.k, e.mask) = << >> THEN ""
                                ELSE IF e.r # Med2(Gather(e.in, e.k, e.mask)) THEN "wrong median of neighbourhood" ELSE ""
          [] e.op = "mask" -> IF e.out # Mask(e.w, e.k) THEN "wrong mask" ELSE ""
          [] OTHER -> "unknown record"
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN w = "" \/ PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
