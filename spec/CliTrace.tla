------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the nightlight program against Cli.tla: the job each command line prints, the exit
   status, the files left behind, and the estimator in force. *)
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Set(s) == {s[i] : i \in DOMAIN s}
Settings(e) == [n \in {e.set[i].n : i \in DOMAIN e.set} |-> LET i == CHOOSE j \in DOMAIN e.set : e.set[j].n = n IN [txt |-> e.set[i].txt, val |-> e.set[i].val, stem |-> e.set[i].stem]]
\* the printed job in the form of the specification. Whether an operator is switched on is its own affair.
Line(x) == [p |-> x.p, t |-> x.t, f |-> {[n |-> x.f[i].n, v |-> x.f[i].v] : i \in {j \in DOMAIN x.f : x.f[j].n # "active"}}]
JobWhy(e) ==
   IF e.bad # "" THEN e.bad
   ELSE LET got == {Line(e.job[i]) : i \in DOMAIN e.job}
            want == TLCEval(Job(e.cmd, Settings(e), e.files))
            more == got \ want
            less == want \ got
        IN IF more # {} \/ less # {} THEN "job: runs " \o ToString(more) \o " instead of " \o ToString(less)
           ELSE IF e.ok THEN "success although no input exists"
           ELSE IF e.left # 0 THEN "files were left behind although no input exists" ELSE ""
Results2(cmd) == CASE cmd = "stack" -> {"out.fits", "out.jpg", "out.html", "out.log"}
                   [] cmd \in {"stretch", "rgb"} -> {"out.fits", "out.jpg", "out.log"}
                   [] cmd = "stats" -> {"out.html", "out.log"}
                   [] cmd = "run" -> {"res.fits", "out.log"}
                   [] OTHER -> {"out.log"}
Expected(e) == (IF e.w.out = "nowhere" THEN {"x.log"} ELSE Results2(e.cmd)) \cup (IF e.prof THEN {"cpu.prof", "mem.prof"} ELSE {})
EndWhy(e) ==
   LET fine == Fine(e.cmd, e.w) /\ (e.cmd = "stack" => e.w.mem # "tiny") IN
   IF e.rc = 999 THEN "the program did not end"
   ELSE IF fine /\ e.rc # 0 THEN "exit status " \o ToString(e.rc) \o " although nothing was wrong"
   ELSE IF ~fine /\ e.rc = 0 THEN "exit status 0 although the command failed"
   ELSE IF ~fine THEN ""
   ELSE IF Set(e.made) # Expected(e) THEN "files made: " \o ToString(Set(e.made))
   ELSE IF Set(e.empty) # {} THEN "empty files: " \o ToString(Set(e.empty))
   ELSE IF ~e.logsame THEN "the log file differs from the output" ELSE ""
\* three of four pixels near 1000, one of four near 5000: the mean is near 2000, every robust estimate near 1000
EstWhy(e) == IF ~e.ok THEN "statistics failed"
             ELSE IF e.est = 0 THEN (IF e.loc \in 1700..2300 THEN "" ELSE "location with mean estimator: " \o ToString(e.loc))
             ELSE IF e.loc \in 0..1500 THEN "" ELSE "location with a robust estimator: " \o ToString(e.loc)
Why(e) == CASE e.k = "job" -> JobWhy(e) [] e.k = "end" -> EndWhy(e) [] OTHER -> EstWhy(e)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
