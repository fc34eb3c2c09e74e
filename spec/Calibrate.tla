----------------------------- MODULE Calibrate -----------------------------
(* Calibration of the light frames of a session with an optional dark and an optional flat file.
   A master frame is a record: kind "none" (not configured), "bad" (cannot be loaded) or "ok" with
   dimensions d and integer pixels q.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE ProdOf(_)
ProdOf(d) == IF d = << >> THEN 1 ELSE d[1] * ProdOf(Tail(d))
MaxSeq(q) == LET S == {q[i] : i \in 1..Len(q)} IN CHOOSE m \in S : \A x \in S : x <= m
NaN == 999999999
\* masters that are unusable for whatever light
Unusable(dark, flat) ==
   \/ dark.kind = "bad" \/ flat.kind = "bad"
   \/ dark.kind = "ok" /\ flat.kind = "ok" /\ dark.d # flat.d
\* only the number of pixels is compared with the light's (some cameras swap the axes of their lights)
Fits(m, d) == m.kind # "ok" \/ ProdOf(m.d) = ProdOf(d)
Refused(dark, flat, d) == Unusable(dark, flat) \/ ~Fits(dark, d) \/ ~Fits(flat, d)
\* the calibrated pixel as a fraction << numerator, denominator >>
Pixel(dark, flat, mx, q, i) ==
   LET a == IF dark.kind = "ok" THEN q - dark.q[i] ELSE q IN
   IF flat.kind # "ok" THEN <<a, 1>> ELSE IF flat.q[i] <= 0 THEN <<a, 1>> ELSE <<a * mx, flat.q[i]>>
\* v is the fraction times K, up to 32-bit float rounding
IsPixel(v, p, K) == /\ Abs(v) <= ((K * Abs(p[1])) \div p[2]) * 2 + 2          \* keeps what follows within 32 bits
                    /\ Abs((v * p[2]) - (K * p[1])) <= p[2] * (1 + (Abs(v) \div 2000000))
=============================================================================
