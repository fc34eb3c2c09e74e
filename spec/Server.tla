------------------------------- MODULE Server -------------------------------
(* The HTTP server: jobs posted at the same time, each worked on by several goroutines which write to the
   job's own response and to the files of the served directory. A job is [good, missing]: the number of
   its frames which exist and of those which do not. Lines are <<job, frame, step>>; "error" is the last
   line of a job which failed. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Job(g, m) == [k |-> "job", good |-> g, missing |-> m]
Other(k) == [k |-> k, good |-> 0, missing |-> 0]
Steps == <<"load", "work", "save">>
Frames(q) == 1..(q.good + q.missing)
Absent(q, f) == f > q.good
\* what the answers to requests other than jobs have to be
Answer(k) == CASE k = "ping" -> 200 [] k = "malformed" -> 400 [] k = "fetch" -> 200 [] k = "page" -> 200
               [] k = "absent" -> 404 [] k = "options" -> 204 [] OTHER -> 0
Refused(k) == k \in {"escape", "remove", "replace"}     \* any answer but success, and nothing happens
\* the lines of a job by frame, in their order
Of(resp, f) == SelectSeq(resp, LAMBDA x : x[2] = f)
Expected(j, q, f) == IF Absent(q, f) THEN <<>> ELSE [s \in 1..Len(Steps) |-> <<j, f, Steps[s]>>]
=============================================================================
