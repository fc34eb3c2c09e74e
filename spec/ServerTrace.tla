---------------------------- MODULE ServerTrace ----------------------------
(* Recorded waves of requests against Server.tla: every answer, the lines of every job, the files. *)
EXTENDS Server, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Set(s) == {s[i] : i \in DOMAIN s}
JobWhy(q) ==
   IF q.status # 200 THEN "job was answered with status " \o ToString(q.status)
   ELSE IF ~q.echoed THEN "the job played back is not the job sent"
   ELSE IF Set(q.tokens) \ (Set(q.in) \cup Set(q.out) \cup Set(q.lost)) # {} THEN "answer to a job shows lines of another: " \o ToString(Set(q.tokens) \ (Set(q.in) \cup Set(q.out)))
   ELSE IF q.failed # (q.missing > 0) THEN (IF q.failed THEN "job was reported as failed: " \o q.note ELSE "failure of the job was not reported")
   ELSE IF q.missing > 0 THEN ""
   ELSE IF ~((Set(q.in) \cup Set(q.out)) \subseteq Set(q.tokens)) THEN "lines are missing from the answer: " \o ToString((Set(q.in) \cup Set(q.out)) \ Set(q.tokens))
   ELSE IF Len(q.files) # Len(q.out) THEN "files of the job are missing after its answer"
   ELSE IF q.files # q.files0 THEN "files differ from those of the job on its own"
   ELSE IF q.groups # q.groups0 THEN "lines of a frame differ from those of the job on its own: " \o ToString(Set(q.groups) \ Set(q.groups0))
   ELSE IF q.other # q.other0 THEN "lines differ from those of the job on its own: " \o ToString(q.other)
   ELSE ""
ReqWhy(q) ==
   IF q.k = "leave" THEN ""
   ELSE IF q.status = 1 THEN "no answer to " \o q.variant \o ": " \o q.note
   ELSE IF q.secret THEN "a file outside the served directory was sent: " \o q.variant
   ELSE IF q.k = "job" THEN JobWhy(q)
   ELSE IF Refused(q.k) THEN (IF q.status \in 200..299 THEN "was not refused: " \o q.variant ELSE "")
   ELSE IF q.status # Answer(q.k) THEN "answer " \o ToString(q.status) \o " to " \o q.variant
   ELSE IF ~q.same THEN "content of the answer to " \o q.variant
   ELSE ""
WaveWhy(e) ==
   LET bad == {i \in DOMAIN e.reqs : ReqWhy(e.reqs[i]) # ""}
       outs == UNION {Set(e.reqs[i].out) : i \in DOMAIN e.reqs}
   IN IF ~e.alive THEN "the server is gone: " \o e.why
      ELSE IF bad # {} THEN ReqWhy(e.reqs[CHOOSE i \in bad : TRUE])
      ELSE IF ~e.fetched THEN "a result cannot be fetched as it is"
      ELSE IF Set(e.changed) # {} THEN "files were changed: " \o ToString(Set(e.changed))
      ELSE IF ~(Set(e.made) \subseteq outs) THEN "files nobody asked for: " \o ToString(Set(e.made) \ outs)
      ELSE ""
Why(e) == IF e.k = "wave" THEN WaveWhy(e) ELSE IF e.races = 0 THEN "" ELSE "unsynchronised access by concurrent requests: " \o e.first
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
