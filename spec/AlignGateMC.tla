---------------------------- MODULE AlignGateMC -----------------------------
EXTENDS AlignGate, Json, TLC
CONSTANTS MaxCalls, Emit
VARIABLES al, hist, cfg
vars == <<al, hist, cfg>>
Frames == {[kind |-> "none", stars |-> 0, fit |-> FALSE], [kind |-> "ref", stars |-> 20, fit |-> TRUE], [kind |-> "other", stars |-> 20, fit |-> TRUE],
           [kind |-> "other", stars |-> 20, fit |-> FALSE], [kind |-> "other", stars |-> 0, fit |-> FALSE], [kind |-> "other", stars |-> 2, fit |-> FALSE]}
Ctxs == {[rs |-> -1, hist |-> 1], [rs |-> 0, hist |-> 1], [rs |-> 20, hist |-> 1], [rs |-> 20, hist |-> 0]}
Init == al = FALSE /\ hist = << >> /\ cfg \in [k : {0, 15, 50}, mode : 0..2]
Call(f, c) ==
   LET e == [k |-> cfg.k, mode |-> cfg.mode, kind |-> f.kind, stars |-> f.stars, fit |-> f.fit, rs |-> c.rs, hist |-> c.hist]
       o == Outcome(al, e) IN
   /\ ~(f.kind = "ref" /\ c.rs <= 0)          \* the reference frame exists only if there is one
   /\ al' = o[2] /\ hist' = Append(hist, [in |-> e, out |-> o[1]]) /\ UNCHANGED cfg
Next == Len(hist) < MaxCalls /\ \E f \in Frames, c \in Ctxs : Call(f, c)
Spec == Init /\ [][Next]_vars
\* a frame that does not fit never gets through, other than the reference itself or with alignment switched off
NeverTrusted == \A i \in 1..Len(hist) : (hist[i].out \in {"same", "project"} /\ ~hist[i].in.fit) => hist[i].in.k <= 0
\* a fitting frame is never lost silently
NeverLost == \A i \in 1..Len(hist) : (hist[i].in.fit /\ hist[i].in.kind # "none" /\ hist[i].in.stars > 0) => hist[i].out # "skip"
\* the first reference decides for good
Sticky == \A i \in 1..Len(hist) : (hist[i].out = "error") => (hist[i].in.rs <= 0 \/ hist[i].in.hist = 0)
Emitted == (Emit /\ Len(hist) = MaxCalls) => PrintT("SCEN" \o ToJson([i \in 1..MaxCalls |-> hist[i].in]))
=============================================================================
