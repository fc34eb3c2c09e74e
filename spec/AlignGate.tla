----------------------------- MODULE AlignGate ------------------------------
(* What the alignment step does with each frame. The aligner is made from the context on first use
   and kept. A call's inputs, a record:
     k      number of stars for triangles
     kind   "none" (no frame), "ref" (the reference frame itself), "other"
     stars  number of stars of the frame
     rs     number of reference stars in the context, -1 if there is no reference
     hist   1 if there is a reference histogram
     mode   out-of-bounds mode: 0 missing, 1 reference location, 2 own location
     fit    is the residual within the threshold                                       *)
EXTENDS Integers, Sequences
Outcomes == {"error", "skip", "same", "project"}
\* <<outcome, is there an aligner afterwards>>
Outcome(al, e) ==
   IF e.kind = "none" THEN <<"skip", al>>
   ELSE IF e.k <= 0 THEN <<"same", al>>
   ELSE IF ~al /\ e.rs <= 0 THEN <<"error", FALSE>>
   ELSE <<IF e.kind = "ref" THEN "same"
          ELSE IF e.stars = 0 THEN "skip"
          ELSE IF e.mode = 1 /\ e.hist = 0 THEN "error"
          ELSE IF ~e.fit THEN "skip" ELSE "project", TRUE>>
=============================================================================
