----------------------------- MODULE JobsTrace -----------------------------
EXTENDS Jobs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
\* the first place where two nodes differ, for the report
RECURSIVE Diff(_, _)
Diff(a, b) == IF a = b THEN "" ELSE IF a.k # b.k THEN "kind"
   ELSE CASE a.k = "o" -> IF a.t # b.t THEN "type " \o a.t \o " " \o b.t
                          ELSE IF DOMAIN a.f # DOMAIN b.f THEN "settings of " \o a.t
                          ELSE LET n == CHOOSE x \in DOMAIN a.f : a.f[x] # b.f[x] IN a.t \o "." \o n \o " " \o Diff(a.f[n], b.f[n])
          [] a.k = "l" -> IF Len(a.e) # Len(b.e) THEN "number of steps" ELSE LET i == CHOOSE x \in 1..Len(a.e) : a.e[x] # b.e[x] IN Diff(a.e[i], b.e[i])
          [] OTHER -> a.v \o " " \o b.v
Why(e) ==
   LET d == Decode(e.doc, "seq") IN
   IF e.panic # "" THEN "crash: " \o e.panic
   ELSE IF IsErr(d) THEN (IF e.err = 1 THEN "" ELSE "a job with an unknown step or malformed setting was accepted")
   ELSE IF e.err = 1 THEN "a valid job was refused"
   ELSE IF e.enc # Encode(d) THEN "decoded job differs: " \o Diff(e.enc, Encode(d))
   ELSE IF e.enc2 # Encode(d) THEN "decoding the encoded job differs: " \o Diff(e.enc2, Encode(d))
   ELSE IF \E i \in 1..Len(e.h) : e.h[i] # e.h[1] THEN "the decoded job does different work"
   ELSE ""
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN w = "" \/ PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
