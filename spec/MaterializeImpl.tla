--------------------------- MODULE MaterializeImpl --------------------------
(* The executor's algorithm: a counting semaphore `sem` (buffered channel of
   capacity lim), one worker per frame, an error channel. TLC checks that it
   implements Materialize (PROPERTY Refines), i.e. that acquiring the whole
   semaphore at the end does wait for all workers, that the error channel never
   blocks, and that slots are filled before the call returns.                 *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxN, MaxLim, KindSet
VARIABLES n, lim, kind, forget,
          pc,      \* main: "loop", "wait", "collect", "done"
          next,    \* next frame to spawn
          sem,     \* tokens in the semaphore
          acq,     \* tokens acquired in the final wait
          w,       \* worker state: "none","spawned","eval","store","sent","gone"
          slots,   \* result slots
          errs,    \* error channel contents (count)
          got      \* errors collected
vars == <<n, lim, kind, forget, pc, next, sem, acq, w, slots, errs, got>>

Init == \E nn \in 1..MaxN, ll \in 1..MaxLim, ff \in BOOLEAN :
         \E kk \in [1..nn -> KindSet] :
          /\ n = nn /\ lim = ll /\ forget = ff /\ kind = kk
          /\ pc = "loop" /\ next = 1 /\ sem = 0 /\ acq = 0
          /\ w = [i \in 1..nn |-> "none"] /\ slots = [i \in 1..nn |-> 0]
          /\ errs = << >> /\ got = << >>

Spawn == /\ pc = "loop" /\ next <= n /\ sem < lim
         /\ sem' = sem + 1 /\ w' = [w EXCEPT ![next] = "spawned"] /\ next' = next + 1
         /\ UNCHANGED <<n, lim, kind, forget, pc, acq, slots, errs, got>>
LoopEnd == /\ pc = "loop" /\ next > n /\ pc' = "wait"
           /\ UNCHANGED <<n, lim, kind, forget, next, sem, acq, w, slots, errs, got>>
Begin(i) == /\ w[i] = "spawned" /\ w' = [w EXCEPT ![i] = "eval"]
            /\ UNCHANGED <<n, lim, kind, forget, pc, next, sem, acq, slots, errs, got>>
Eval(i) == /\ w[i] = "eval" /\ w' = [w EXCEPT ![i] = "store"]
           /\ slots' = IF forget \/ kind[i] # "ok" THEN slots ELSE [slots EXCEPT ![i] = i]
           /\ UNCHANGED <<n, lim, kind, forget, pc, next, sem, acq, errs, got>>
Send(i) == /\ w[i] = "store" /\ Len(errs) < n
           /\ errs' = Append(errs, IF kind[i] \in {"ok", "nil"} THEN "" ELSE kind[i])
           /\ w' = [w EXCEPT ![i] = "sent"]
           /\ UNCHANGED <<n, lim, kind, forget, pc, next, sem, acq, slots, got>>
Release(i) == /\ w[i] = "sent" /\ sem' = sem - 1 /\ w' = [w EXCEPT ![i] = "gone"]
              /\ UNCHANGED <<n, lim, kind, forget, pc, next, acq, slots, errs, got>>
Acquire == /\ pc = "wait" /\ acq < lim /\ sem < lim /\ sem' = sem + 1 /\ acq' = acq + 1
           /\ UNCHANGED <<n, lim, kind, forget, pc, next, w, slots, errs, got>>
WaitEnd == /\ pc = "wait" /\ acq = lim /\ pc' = "collect"
           /\ UNCHANGED <<n, lim, kind, forget, next, sem, acq, w, slots, errs, got>>
Collect == /\ pc = "collect" /\ Len(got) < n /\ errs # << >>
           /\ got' = Append(got, Head(errs)) /\ errs' = Tail(errs)
           /\ UNCHANGED <<n, lim, kind, forget, pc, next, sem, acq, w, slots>>
Finish == /\ pc = "collect" /\ Len(got) = n /\ pc' = "done"
          /\ UNCHANGED <<n, lim, kind, forget, next, sem, acq, w, slots, errs, got>>
Next == \/ Spawn \/ LoopEnd \/ Acquire \/ WaitEnd \/ Collect \/ Finish
        \/ \E i \in 1..n : Begin(i) \/ Eval(i) \/ Send(i) \/ Release(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

absSt == [i \in 1..n |-> CASE w[i] \in {"none", "spawned"} -> "wait"
                           [] w[i] = "eval" -> "run"
                           [] OTHER -> "done"]
Abs == INSTANCE Materialize WITH st <- absSt, ret <- (pc = "done")
Refines == [][Abs!MNext]_<<n, lim, kind, forget, absSt, pc = "done">>
Inv == /\ Abs!MInv
       /\ (pc = "done" => /\ {got[k] : k \in 1..Len(got)} \ {""} = Abs!Failures
                          /\ (~forget => \A i \in 1..n : (slots[i] = i) <=> (kind[i] = "ok")))
Terminates == <>(pc = "done")
=============================================================================
