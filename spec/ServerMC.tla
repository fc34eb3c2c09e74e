------------------------------ MODULE ServerMC ------------------------------
(* A wave of requests sent at the same time, in every interleaving of their workers. With Mixed the
   lines go to the response opened last, as they would with a log shared by all jobs: the properties fail. *)
EXTENDS Server, Json
CONSTANTS Wave, Emit, Mixed
VARIABLES reqs, state, at, resp, status, disk, last
vars == <<reqs, state, at, resp, status, disk, last>>
Shapes == <<Job(1, 0), Job(2, 0), Job(1, 1), Job(0, 1), Other("malformed"), Other("fetch"), Other("absent"), Other("escape"), Other("remove"), Other("replace"), Other("ping"), Other("page"), Other("options")>>
Init == /\ \E w \in [1..Wave -> DOMAIN Shapes] : (\A i \in 1..(Wave - 1) : w[i] <= w[i + 1]) /\ reqs = [i \in 1..Wave |-> Shapes[w[i]]]
        /\ state = [i \in 1..Wave |-> "sent"]
        /\ at = [i \in 1..Wave |-> [f \in Frames(reqs[i]) |-> 0]]
        /\ resp = [i \in 1..Wave |-> <<>>]
        /\ status = [i \in 1..Wave |-> 0]
        /\ disk = {<<0, 0>>}          \* a file which is there before
        /\ last = 0
Accept(j) == /\ state[j] = "sent"
             /\ IF reqs[j].k = "job"
                THEN state' = [state EXCEPT ![j] = "running"] /\ status' = [status EXCEPT ![j] = 200] /\ last' = j
                ELSE state' = [state EXCEPT ![j] = "closed"] /\ status' = [status EXCEPT ![j] = IF Refused(reqs[j].k) THEN 404 ELSE Answer(reqs[j].k)] /\ UNCHANGED last
             /\ UNCHANGED <<reqs, at, resp, disk>>
Writes(j, line) == LET to == IF Mixed THEN last ELSE j IN resp' = [resp EXCEPT ![to] = Append(@, line)]
Work(j, f) == /\ state[j] = "running" /\ at[j][f] < Len(Steps)
              /\ IF Absent(reqs[j], f)
                 THEN at' = [at EXCEPT ![j][f] = Len(Steps)] /\ UNCHANGED <<resp, disk>>
                 ELSE LET s == at[j][f] + 1 IN
                      /\ at' = [at EXCEPT ![j][f] = s]
                      /\ Writes(j, <<j, f, Steps[s]>>)
                      /\ disk' = IF Steps[s] = "save" THEN disk \cup {<<j, f>>} ELSE disk
              /\ UNCHANGED <<reqs, state, status, last>>
Finish(j) == /\ state[j] = "running" /\ \A f \in Frames(reqs[j]) : at[j][f] = Len(Steps)
             /\ state' = [state EXCEPT ![j] = "closed"]
             /\ IF reqs[j].missing > 0 THEN Writes(j, <<j, 0, "error">>) ELSE UNCHANGED resp
             /\ UNCHANGED <<reqs, at, status, disk, last>>
Next == \E j \in 1..Wave : Accept(j) \/ Finish(j) \/ \E f \in Frames(reqs[j]) : Work(j, f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Own == \A j \in 1..Wave : \A i \in DOMAIN resp[j] : resp[j][i][1] = j
Whole == \A j \in 1..Wave : (state[j] = "closed" /\ reqs[j].k = "job") =>
   /\ \A f \in Frames(reqs[j]) : Of(resp[j], f) = Expected(j, reqs[j], f) /\ (<<j, f>> \in disk <=> ~Absent(reqs[j], f))
   /\ (reqs[j].missing > 0 <=> resp[j] # <<>> /\ resp[j][Len(resp[j])][3] = "error")
Idle == /\ <<0, 0>> \in disk
        /\ \A x \in disk : x = <<0, 0>> \/ reqs[x[1]].k = "job"
        /\ \A j \in 1..Wave : reqs[j].k # "job" => resp[j] = <<>>
Statuses == \A j \in 1..Wave : state[j] # "sent" => status[j] = (IF reqs[j].k = "job" THEN 200 ELSE IF Refused(reqs[j].k) THEN 404 ELSE Answer(reqs[j].k))
Done == <>(\A j \in 1..Wave : state[j] = "closed")
Emitted == IF Emit /\ \A j \in 1..Wave : state[j] = "sent" THEN PrintT("SCEN" \o ToJson([reqs |-> reqs])) ELSE TRUE
=============================================================================
