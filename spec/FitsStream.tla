----------------------------- MODULE FitsStream -----------------------------
(* Reading n samples of w bytes from a reader that delivers bytes as it likes: *)
(* any chunk sizes, empty reads, end of file with or after the last bytes.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Widths, Ns, Buf, Chunks, MaxCalls, Emit
VARIABLES w, n, avail, mode, pos, got, out, st, hist
vars == <<w, n, avail, mode, pos, got, out, st, hist>>
Min(a, b) == IF a < b THEN a ELSE b
Want == Min(Buf, (n - Len(out)) * w)          \* size of the batch being filled
Init == /\ w \in Widths /\ n \in Ns /\ avail \in 0..((n * w) + 1)
        /\ mode \in {"after", "with", "fail"}  \* end of file after / with the last bytes, or another error there
        /\ pos = 0 /\ got = << >> /\ out = << >> /\ st = "read" /\ hist = << >>
Decode(bs) == [i \in 1..(Len(bs) \div w) |-> SubSeq(bs, ((i-1)*w)+1, i*w)]
Call == /\ st = "read" /\ Len(out) < n
        /\ \E c \in Chunks :
            LET k == Min(Min(c, Want - Len(got)), avail - pos)
                g == got \o [i \in 1..k |-> pos + i]
                eof == pos = avail \/ (mode = "with" /\ pos + k = avail)
            IN /\ IF c = 0 /\ hist # << >> THEN hist[Len(hist)] # 0 ELSE TRUE
               /\ IF Len(hist) < MaxCalls THEN TRUE ELSE c = Buf
               /\ hist' = Append(hist, c) /\ pos' = pos + k
               /\ IF Len(g) = Want
                  THEN out' = out \o Decode(g) /\ got' = << >> /\ st' = "read"
                  ELSE got' = g /\ out' = out /\ st' = IF eof THEN "err" ELSE "read"
        /\ UNCHANGED <<w, n, avail, mode>>
Finish == st = "read" /\ Len(out) = n /\ st' = "ok" /\ UNCHANGED <<w, n, avail, mode, pos, got, out, hist>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == st = "ok" => (avail >= n * w /\ out = [i \in 1..n |-> [j \in 1..w |-> ((i-1)*w)+j]])
NoFalseError == st = "err" => avail < n * w
Ends == <>(st \in {"ok", "err"})
EmitScen == (Emit /\ st \in {"ok", "err"}) =>
    PrintT("SCEN" \o ToJson([w |-> w, n |-> n, avail |-> avail, mode |-> mode, hist |-> hist, st |-> st]))
=============================================================================
