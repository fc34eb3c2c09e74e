--------------------------- MODULE FitsWriteTrace ---------------------------
(* What writing an image as FITS must produce, and what reading it back yields *)
EXTENDS FitsCard, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Digit(i) == <<48 + i>>
RECURSIVE DecSeq(_)
DecSeq(n) == IF n < 10 THEN <<48 + n>> ELSE DecSeq(n \div 10) \o <<48 + (n % 10)>>
Own == {KProgram, KCreator}                        \* set by nightlight itself
IsNaN(hi, lo) == (hi % 32768) > 32640 \/ ((hi % 32768) = 32640 /\ lo > 0)
PixOk(hi, lo, ohi, olo) ==
    /\ Len(ohi) = Len(hi) /\ Len(olo) = Len(hi)
    /\ \A i \in 1..Len(hi) : IF IsNaN(hi[i], lo[i]) THEN ohi[i] = 0 /\ olo[i] = 0 ELSE ohi[i] = hi[i] /\ olo[i] = lo[i]
BackPix(hi, lo, ohi, olo) ==                       \* minus zero may read back as zero
    /\ Len(ohi) = Len(hi) /\ Len(olo) = Len(hi)
    /\ \A i \in 1..Len(hi) : IF IsNaN(hi[i], lo[i]) THEN ohi[i] = 0 /\ olo[i] = 0
                            ELSE IF hi[i] = 32768 /\ lo[i] = 0 THEN ohi[i] \in {0, 32768} /\ olo[i] = 0
                            ELSE ohi[i] = hi[i] /\ olo[i] = lo[i]
SetOf(s) == {<<s[i].k, s[i].v>> : i \in 1..Len(s)}
StrSet(s) == {<<x[1], RTrim(x[2])>> : x \in {y \in SetOf(s) : y[1] \notin Own}}
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE SelectSeq(ss[1], LAMBDA c : c # Blank) \o Flat(Tail(ss))
TextSame(a, b) ==                                  \* commentary: same lines, long ones may be split
    IF \A i \in 1..Len(a) : Len(RTrim(a[i])) <= 70
    THEN [i \in 1..Len(a) |-> Trim(a[i])] = [i \in 1..Len(b) |-> Trim(b[i])]
    ELSE Flat(a) = Flat(b)
BackOk(a, b) ==
    IF b.dims # a.dims THEN "dimensions read back"
    ELSE IF ~BackPix(a.hi, a.lo, b.hi, b.lo) THEN "pixels read back"
    ELSE IF b.expo # a.expo THEN "exposure read back"
    ELSE IF SetOf(b.bools) # SetOf(a.bools) THEN "booleans read back"
    ELSE IF SetOf(b.ints) # SetOf(a.ints) THEN "integers read back"
    ELSE IF SetOf(b.floats) # SetOf(a.floats) THEN "floats read back"
    ELSE IF StrSet(b.strs) \cup StrSet(b.dates) # StrSet(a.strs) \cup StrSet(a.dates) THEN "strings or dates read back"
    ELSE IF ~TextSame(a.comments, b.comments) \/ ~TextSame(a.history, b.history) THEN "commentary read back"
    ELSE ""
NumCard(es, i, key, t, val) == i <= Len(es) /\ es[i].k = key /\ es[i].t = t /\ (IF t = "i" THEN Canon(es[i].v) ELSE es[i].v) = val
Standard(es, a) ==
    LET n == Len(a.dims) IN
    /\ NumCard(es, 1, KSimple, "b", <<84>>)
    /\ NumCard(es, 2, KBitpix, "i", <<45, 51, 50>>)
    /\ NumCard(es, 3, KNaxis, "i", DecSeq(n))
    /\ \A i \in 1..n : NumCard(es, 3+i, KNaxis \o Digit(i), "i", DecSeq(a.dims[i]))
\* the file seen by an independent reader
FileSays(es, a) ==
    LET T(t) == {<<es[i].k, es[i].v>> : i \in {j \in 1..Len(es) : es[j].t = t}}
        keys(t) == {x[1] : x \in T(t)}
        names == [i \in 1..Len(es) |-> es[i].k]
        std == {KSimple, KBitpix, KNaxis, KBzero, KBscale, KExposure} \cup {KNaxis \o Digit(i) : i \in 1..Len(a.dims)}
        txt(key) == LET s == SelectSeq(es, LAMBDA p : p.t = "c" /\ p.k = key) IN [i \in 1..Len(s) |-> s[i].v]
    IN IF {x \in T("b") : x[1] \notin std} # {<<x[1], IF x[2] = 1 THEN <<84>> ELSE <<70>>>> : x \in SetOf(a.bools)} THEN "booleans in the file"
       ELSE IF {<<x[1], Canon(x[2])>> : x \in {y \in T("i") : y[1] \notin std}} # SetOf(a.ints) THEN "integers in the file"
       ELSE IF (keys("f") \ std) # {x[1] : x \in SetOf(a.floats)} THEN "floats in the file"
       ELSE IF {<<x[1], RTrim(x[2])>> : x \in {y \in T("s") : y[1] \notin Own}} # StrSet(a.strs) \cup StrSet(a.dates) THEN "strings in the file"
       ELSE IF ~TextSame(a.comments, txt(KComment)) \/ ~TextSame(a.history, txt(KHistory)) THEN "commentary in the file"
       ELSE IF \E i, j \in 1..Len(es) : i < j /\ es[i].t \notin {"c", "none"} /\ names[i] = names[j] THEN "duplicate cards"
       ELSE ""
Blocks(n) == 2880 * ((n + 2879) \div 2880)
WhyWrite(e) ==
    LET h == Header(e.cards) a == e.img IN
    IF e.panic # "" THEN "crash"
    ELSE IF e.err # "" THEN "write failed"
    ELSE IF e.rerr # "" THEN "the file on disk is not readable"
    ELSE IF e.same = 0 THEN "writing changed the image"
    ELSE IF h.end = 0 \/ \E i \in 1..Len(e.cards) : ~LegalCard(e.cards[i]) THEN "illegal card"
    ELSE IF \E i \in (h.end+1)..Len(e.cards) : RTrim(e.cards[i]) # << >> THEN "cards after the end"
    ELSE IF \E i \in 1..Len(h.es) : h.es[i].t = "none" THEN "unreadable card"
    ELSE IF e.hlen % 2880 # 0 \/ e.flen # e.hlen + Blocks(4 * Len(a.hi)) THEN "file size"
    ELSE IF ~Standard(h.es, a) THEN "mandatory cards"
    ELSE IF ~PixOk(a.hi, a.lo, e.bhi, e.blo) THEN "pixels in the file"
    ELSE IF FileSays(h.es, a) # "" THEN FileSays(h.es, a)
    ELSE IF e.berr # "" THEN "reading back failed"
    ELSE BackOk(a, e.back)
WhyFail(e) == IF e.panic # "" THEN "crash"
              ELSE IF e.target # "writer" THEN (IF e.err = "" THEN "failed save not reported" ELSE "")
              ELSE IF e.limit < e.total /\ e.err = "" THEN "failed write not reported"
              ELSE IF e.limit >= e.total /\ e.err # "" THEN "error without failure" ELSE ""
Why(e) == IF e.kind = "write" THEN WhyWrite(e) ELSE WhyFail(e)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN w = "" \/ PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
