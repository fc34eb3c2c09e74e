----------------------------- MODULE EditorTrace -----------------------------
(* Jobs put together in the served editor and decoded by the server, against the specification. *)
EXTENDS Editor, Json, IOUtils
VARIABLE l
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE_FILE))
Keys2(ps) == {ps[i][1] : i \in DOMAIN ps}
Get(ps, k) == ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2]
RECURSIVE StepsWhy(_, _), StepWhy(_, _)
StepsWhy(got, want) ==
   IF Len(got) # Len(want) THEN "runs other steps: " \o ToString(<<[i \in DOMAIN got |-> got[i].t], [i \in DOMAIN want |-> want[i].t]>>)
   ELSE LET w == TLCEval([i \in DOMAIN got |-> StepWhy(got[i], want[i])])
            bad == {i \in DOMAIN got : w[i] # ""}
        IN IF bad = {} THEN "" ELSE w[CHOOSE i \in bad : TRUE]
\* s: decoded step, with settings f, defaults d and nested steps n; w: the step shown
StepWhy(s, w) ==
   LET set == {p[1] : p \in w.f}
       Want(k) == IF k \in set THEN (CHOOSE p \in w.f : p[1] = k)[2] ELSE Get(s.d, k)
       inner == {i \in DOMAIN w.n : w.n[i][2] # <<>>}
   IN IF s.t # w.t THEN "runs another step: " \o ToString(<<s.t, w.t>>)
      ELSE IF Keys2(s.f) # Keys2(s.d) THEN "decodes other settings: " \o ToString(<<s.t, Keys2(s.f), Keys2(s.d)>>)
      ELSE IF ~(set \subseteq Keys2(s.f)) THEN "has no setting: " \o ToString(<<s.t, set \ Keys2(s.f)>>)
      ELSE IF \E k \in Keys2(s.f) : Get(s.f, k) # Want(k)
           THEN LET k == CHOOSE k \in Keys2(s.f) : Get(s.f, k) # Want(k) IN "not the setting shown: " \o ToString(<<s.t, k, Get(s.f, k), Want(k)>>)
      ELSE IF \E i \in DOMAIN w.n : w.n[i][1] \notin Keys2(s.n) THEN "has no place for inner steps: " \o s.t
      ELSE LET Inner(i) == LET k == s.n[i][1] js == {j \in inner : w.n[j][1] = k}
                       IN IF js # {} THEN StepsWhy(s.n[i][2], w.n[CHOOSE j \in js : TRUE][2])
                          ELSE IF s.n[i][3] THEN "" ELSE "inner steps out of nowhere, or a default lost: " \o ToString(<<s.t, k>>)
               w2 == TLCEval([i \in DOMAIN s.n |-> Inner(i)])
               bad == {i \in DOMAIN s.n : w2[i] # ""}
           IN IF bad = {} THEN "" ELSE w2[CHOOSE i \in bad : TRUE]
JobWhy(e) ==
   LET want == TLCEval(Job(e.ws)) IN
   IF e.err # "" THEN "the editor fails: " \o e.err
   ELSE IF e.died THEN "the job ends the server"
   ELSE IF e.posts # 1 \/ e.method # "POST" \/ e.to # "/api/v1/job" THEN "not posted to the server the editor came from: " \o ToString(<<e.posts, e.method, e.to>>)
   ELSE IF ~e.shown THEN "the code is not shown"
   ELSE IF ~e.log THEN "the answer is not shown"
   ELSE IF want = <<>> THEN (IF e.steps = <<>> THEN "" ELSE "runs something out of nothing")
   ELSE IF e.status # 200 THEN "refused by the server: " \o ToString(<<e.status, [i \in DOMAIN want |-> want[i].t]>>)
   ELSE StepsWhy(e.steps, want)
PageWhy(e) ==
   IF e.missing # <<>> THEN "not served: " \o ToString(e.missing)
   ELSE IF \E i \in DOMAIN e.tools : ~e.tools[i].ok THEN "the toolbox offers a block nobody knows: " \o ToString({e.tools[i].type : i \in {j \in DOMAIN e.tools : ~e.tools[j].ok}})
   ELSE IF ~(Types \subseteq {e.tools[i].type : i \in DOMAIN e.tools}) THEN "missing from the toolbox: " \o ToString(Types \ {e.tools[i].type : i \in DOMAIN e.tools})
   ELSE ""
Why(e) == IF e.k = "page" THEN PageWhy(e) ELSE JobWhy(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
