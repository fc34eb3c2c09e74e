---------------------------- MODULE StatsReport ----------------------------
(* The session statistics report. A session delivers frames to one or more export steps, in any
   order and concurrently; each step owns one report file. A frame passes the step unchanged, or is
   refused when the report cannot be created. At the end of the session the report holds one header,
   one row for each frame that passed, and one trailer.                                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  sc,        \* the session: n frames, per export step name: "ok", "bad" (cannot be created) or "none" (no report wanted)
  got,       \* got[x]: frames delivered to export step x
  passed,    \* passed[x]: frames that passed export step x
  refused    \* refused[x]: frames refused by it
rvars == <<sc, got, passed, refused>>
Setup(s) == /\ sc' = s
            /\ got' = [x \in 1..Len(s.exports) |-> {}]
            /\ passed' = [x \in 1..Len(s.exports) |-> {}] /\ refused' = [x \in 1..Len(s.exports) |-> {}]
\* frame i arrives at step x
Deliver(x, i) == /\ x \in DOMAIN got
                 /\ i \in 1..sc.n /\ sc.kinds[i] = "ok"
                 /\ i \notin got[x]
                 /\ (IF x = 1 THEN TRUE ELSE i \in passed[x-1])
                 /\ got' = [got EXCEPT ![x] = @ \cup {i}] /\ UNCHANGED <<sc, passed, refused>>
\* ... and leaves it, the same frame with the same pixels
Pass(x, i, same) == /\ x \in DOMAIN got /\ i \in got[x] /\ sc.exports[x] # "bad" /\ same = 1
                    /\ passed' = [passed EXCEPT ![x] = @ \cup {i}] /\ UNCHANGED <<sc, got, refused>>
Refuse(x, i) == /\ x \in DOMAIN got /\ i \in got[x] /\ sc.exports[x] = "bad"
                /\ refused' = [refused EXCEPT ![x] = @ \cup {i}] /\ UNCHANGED <<sc, got, passed>>
\* batches are planned: the session starts over
Restart == /\ sc.again = 1 /\ got' = [x \in DOMAIN got |-> {}] /\ passed' = [x \in DOMAIN got |-> {}]
           /\ refused' = [x \in DOMAIN got |-> {}] /\ UNCHANGED sc
\* what must have happened when the session is over
Over(err) == /\ \A x \in DOMAIN got : got[x] = passed[x] \cup refused[x]
             /\ (err = 1) = (\/ \E i \in 1..sc.n : sc.kinds[i] = "fail"
                             \/ \E x \in DOMAIN got : refused[x] # {})
             \* without an error, every available frame was delivered
             /\ err = 0 => \A x \in DOMAIN got : got[x] = {i \in 1..sc.n : sc.kinds[i] = "ok"}
\* the report of step x: number of headers and trailers, rows, where RowOf(i, r) tells if r is frame i's row
ReportOk(x, rep, RowOf(_, _)) ==
  IF sc.exports[x] # "ok" \/ passed[x] = {} THEN rep.exists = 0
  ELSE /\ rep.exists = 1 /\ rep.headers = 1 /\ rep.trailers = 1 /\ rep.wellformed = 1
       /\ Len(rep.rows) = Cardinality(passed[x])
       /\ \A i \in passed[x] : Cardinality({k \in 1..Len(rep.rows) : RowOf(i, rep.rows[k])}) = 1
=============================================================================
