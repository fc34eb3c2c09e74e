------------------------------ MODULE FitsCard ------------------------------
(* Header cards of the FITS standard 4.0, as sequences of 80 character codes. *)
(* An independent reader: what a card means, and whether it is a legal card.  *)
EXTENDS Integers, Sequences
Blank == 32  Quote == 39  Slash == 47  Amp == 38  Dot == 46  Eq == 61
Digits == 48..57
KSimple   == <<83,73,77,80,76,69>>
KBitpix   == <<66,73,84,80,73,88>>
KNaxis    == <<78,65,88,73,83>>
KBzero    == <<66,90,69,82,79>>
KBscale   == <<66,83,67,65,76,69>>
KExposure == <<69,88,80,79,83,85,82,69>>
KExptime  == <<69,88,80,84,73,77,69>>
KEnd      == <<69,78,68>>
KComment  == <<67,79,77,77,69,78,84>>
KHistory  == <<72,73,83,84,79,82,89>>
KContinue == <<67,79,78,84,73,78,85,69>>
KProgram  == <<80,82,79,71,82,65,77>>
KCreator  == <<67,82,69,65,84,79,82>>

RECURSIVE TrimEnd(_, _)
TrimEnd(s, n) == IF n = 0 THEN 0 ELSE IF s[n] # Blank THEN n ELSE TrimEnd(s, n-1)
RTrim(s) == SubSeq(s, 1, TrimEnd(s, Len(s)))
RECURSIVE SkipBlank(_, _)          \* first non-blank position at or after i, Len+1 if none
SkipBlank(s, i) == IF i > Len(s) THEN i ELSE IF s[i] # Blank THEN i ELSE SkipBlank(s, i+1)
Trim(s) == RTrim(SubSeq(s, SkipBlank(s, 1), Len(s)))
RECURSIVE TokEnd(_, _)             \* last position of the token starting at i
TokEnd(s, i) == IF i > Len(s) THEN i - 1 ELSE IF s[i] \in {Blank, Slash} THEN i - 1 ELSE TokEnd(s, i+1)
TailOk(s, i) == LET j == SkipBlank(s, i) IN IF j > Len(s) THEN TRUE ELSE s[j] = Slash

\* quoted string: i is the position after the opening quote
RECURSIVE Str(_, _, _)
Str(s, i, acc) == IF i > Len(s) THEN [ok |-> FALSE, v |-> acc, next |-> i]
                  ELSE IF s[i] # Quote THEN Str(s, i+1, Append(acc, s[i]))
                  ELSE IF i < Len(s) /\ s[IF i < Len(s) THEN i+1 ELSE i] = Quote THEN Str(s, i+2, Append(acc, Quote))
                  ELSE [ok |-> TRUE, v |-> acc, next |-> i+1]

RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i > Len(s) THEN i ELSE IF s[i] \in Digits THEN SkipDigits(s, i+1) ELSE i
AfterSign(s, i) == IF i > Len(s) THEN i ELSE IF s[i] \in {43, 45} THEN i+1 ELSE i
IsInt(t) == LET a == AfterSign(t, 1) b == SkipDigits(t, a) IN b > a /\ b = Len(t) + 1
\* decimal number: sign, digits, optional fraction, optional exponent
NumParts(t) ==
    LET a == AfterSign(t, 1)
        b == SkipDigits(t, a)
        hasdot == IF b <= Len(t) THEN t[b] = Dot ELSE FALSE
        c == IF hasdot THEN SkipDigits(t, b+1) ELSE b
        nd == (b - a) + (IF hasdot THEN c - b - 1 ELSE 0)
        hasexp == IF c <= Len(t) THEN t[c] \in {69, 68} ELSE FALSE
        d == IF hasexp THEN AfterSign(t, c+1) ELSE c
        e == IF hasexp THEN SkipDigits(t, d) ELSE c
    IN [ok |-> nd > 0 /\ e = Len(t) + 1 /\ (hasexp => e > d),
        ip |-> SubSeq(t, a, b-1), fp |-> IF hasdot THEN SubSeq(t, b+1, c-1) ELSE << >>,
        neg |-> Len(t) > 0 /\ t[1] = 45,
        eneg |-> hasexp /\ t[IF hasexp THEN c+1 ELSE 1] = 45, ep |-> IF hasexp THEN SubSeq(t, d, e-1) ELSE << >>]
IsFloat(t) == NumParts(t).ok
\* an (unquoted) ISO date: not part of the standard, but accepted
IsDate(t) == Len(t) >= 10 /\ \E i \in 1..Len(t) : t[i] = 84 /\ \A j \in 1..Len(t) : j # i => t[j] \in (Digits \cup {45, 58, Dot})

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
Canon(t) == LET a == AfterSign(t, 1) d == StripZeros(SubSeq(t, a, Len(t)))
            IN IF t[1] = 45 /\ d # <<48>> THEN <<45>> \o d ELSE d
RECURSIVE DecVal(_, _)
DecVal(d, acc) == IF d = << >> THEN acc ELSE DecVal(Tail(d), (acc * 10) + (d[1] - 48))
IntVal(t) == LET c == Canon(t) IN IF c[1] = 45 THEN 0 - DecVal(Tail(c), 0) ELSE DecVal(c, 0)
SmallInt(t) == Len(Canon(t)) <= 9
\* does the integer fit into 32 bits?
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = << >> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
MaxPos == <<50,49,52,55,52,56,51,54,52,55>>   MaxNeg == <<50,49,52,55,52,56,51,54,52,56>>
Fits32(t) == LET c == Canon(t) IN
    IF c[1] = 45 THEN Len(c) < 11 \/ (Len(c) = 11 /\ LexLe(Tail(c), MaxNeg))
    ELSE Len(c) < 10 \/ (Len(c) = 10 /\ LexLe(c, MaxPos))
Pow10(n) == [i \in 0..9 |-> <<1,10,100,1000,10000,100000,1000000,10000000,100000000,1000000000>>[i+1]][n]
\* value in millionths; meaningful for moderate numbers only
Fix6(t) == LET p == NumParts(t)
               x == DecVal(p.ep, 0)
               sc == 6 - Len(p.fp) + (IF p.eneg THEN 0 - x ELSE x)
               m == DecVal(p.ip \o p.fp, 0)
               v == IF sc >= 0 THEN m * Pow10(sc) ELSE m \div Pow10(0 - sc)
           IN IF p.neg THEN 0 - v ELSE v

\* one card
Parse(c) ==
    LET key == RTrim(SubSeq(c, 1, 8))
        f == SubSeq(c, 11, 80)
        i == SkipBlank(f, 1)
        tok == SubSeq(f, i, TokEnd(f, i))
        s == Str(f, i+1, << >>)
        none == [k |-> key, t |-> "none", v |-> << >>]
        val == IF i > Len(f) THEN none
               ELSE IF f[i] = Quote
               THEN IF s.ok /\ TailOk(f, s.next) THEN [k |-> key, t |-> "s", v |-> s.v] ELSE none
               ELSE IF ~TailOk(f, i + Len(tok)) THEN none
               ELSE IF tok = <<84>> \/ tok = <<70>> THEN [k |-> key, t |-> "b", v |-> tok]
               ELSE IF IsInt(tok) THEN [k |-> key, t |-> "i", v |-> tok]
               ELSE IF IsFloat(tok) THEN [k |-> key, t |-> "f", v |-> tok]
               ELSE IF IsDate(tok) THEN [k |-> key, t |-> "d", v |-> tok]
               ELSE none
    IN IF key = KEnd /\ RTrim(c) = KEnd THEN [k |-> key, t |-> "end", v |-> << >>]
       ELSE IF key = << >> THEN none
       ELSE IF key = KComment \/ key = KHistory THEN [k |-> key, t |-> "c", v |-> Trim(SubSeq(c, 9, 80))]
       ELSE IF key = KContinue THEN (IF c[9] = Blank /\ c[10] = Blank /\ val.t = "s" THEN [val EXCEPT !.t = "n"] ELSE none)
       ELSE IF c[9] = Eq /\ c[10] = Blank THEN val ELSE none

\* all cards up to END, with continued strings joined
RECURSIVE Fold(_, _, _)
Fold(cs, i, acc) ==
    IF i > Len(cs) THEN [end |-> 0, es |-> acc]
    ELSE LET p == Parse(cs[i]) n == Len(acc) IN
         IF p.t = "end" THEN [end |-> i, es |-> acc]
         ELSE IF p.t = "n"
         THEN LET last == acc[n] IN
              IF n > 0 /\ last.t = "s" /\ Len(last.v) > 0 /\ last.v[Len(last.v)] = Amp
              THEN Fold(cs, i+1, [acc EXCEPT ![n] = [last EXCEPT !.v = SubSeq(last.v, 1, Len(last.v)-1) \o p.v]])
              ELSE Fold(cs, i+1, Append(acc, [p EXCEPT !.t = "none"]))
         ELSE Fold(cs, i+1, Append(acc, p))
Header(cs) == Fold(cs, 1, << >>)

LegalKeyChar(x) == x \in Digits \cup (65..90) \cup {45, 95}
\* a card that the standard allows
LegalCard(c) == LET p == Parse(c) IN
    /\ Len(c) = 80 /\ \A i \in 1..80 : c[i] \in 32..126
    /\ \A i \in 1..Len(RTrim(SubSeq(c, 1, 8))) : LegalKeyChar(c[i])
    /\ p.t \in {"b", "i", "f", "s", "c", "n", "end"} \/ RTrim(c) = << >>
=============================================================================
