------------------------------ MODULE SaveTrace ------------------------------
(* Recorded saves against Save.tla: names, formats and values of the files left behind, and the reported outcomes. *)
EXTENDS Save, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
First(s) == s[1]
FileOf(e, n) == {i \in DOMAIN e.files : e.files[i].name = n}
Shape(e) == IF Len(e.dims) = 2 THEN <<e.dims[1], e.dims[2]>> ELSE <<e.dims[1], e.dims[2], e.dims[3]>>
\* monotone, for the short recordings
Monotone2(vs, qs) == \A i, j \in DOMAIN vs : vs[i] # NaN /\ vs[j] # NaN /\ vs[i] < vs[j] => qs[i] <= qs[j]
Values(e, f, px, top) ==
   LET vs == f.v lo == TLCEval(Low(e.mode, vs)) r == TLCEval(High(e.mode, vs, e.den) - lo) IN
   IF Len(px) # Len(vs) THEN "number of values in the file"
   ELSE IF r <= 0 THEN (IF \A i \in DOMAIN px : px[i] = px[1] THEN "" ELSE "uniform frame was written as several values")
   ELSE LET bad == {i \in DOMAIN vs : ~Level(vs[i], px[i], lo, r, top, e.ga, e.gb)} IN
        IF bad # {} THEN LET i == MinFrom([k \in 1..Len(vs) |-> IF k \in bad THEN k ELSE NaN], 1) IN "value written for a pixel: " \o ToString(<<i, vs[i], px[i]>>)
        ELSE IF top = 65535 /\ Len(vs) <= 64 /\ ~Monotone2(vs, px) THEN "a larger value was written as a smaller one" ELSE ""
FileWhy(e, f, g) ==
   LET fmt == Format(e.p.ext) IN
   IF g.fmt # fmt THEN "format of the file is " \o g.fmt \o " instead of " \o fmt
   ELSE IF g.bad # "" THEN "file is not complete: " \o g.bad
   ELSE IF g.dims # e.dims THEN "size of the image in the file"
   ELSE IF ~Export(fmt) THEN (IF Len(g.px) = Len(f.b) /\ \A i \in DOMAIN f.b : f.v[i] = NaN \/ g.px[i] = f.b[i] THEN "" ELSE "values in the FITS file")
   ELSE Values(e, f, g.px, IF fmt = "tiff" THEN 65535 ELSE 255)
RECURSIVE Total(_, _)
Total(vs, i) == IF i > Len(vs) THEN 0 ELSE vs[i] + Total(vs, i + 1)
Average(a, vs) == LET t == Total(vs, 1) IN a * Len(vs) - t \in (-2 * Len(vs))..(2 * Len(vs))
\* reading back an exported file
Back(e, g) == LET b == g.back IN
   IF Format(e.p.ext) # "tiff" THEN ""
   ELSE IF b.panic # "" THEN "reading the file back crashed: " \o b.panic
   ELSE IF b.err # "" THEN "the file cannot be read back: " \o b.err
   ELSE IF b.dims # e.dims THEN "size of the image read back"
   ELSE IF b.px # g.px THEN "values read back"
   ELSE IF b.mn # MinFrom(g.px, 1) \/ b.mx # MaxFrom(g.px, 1) \/ ~Average(b.avg, g.px) THEN "statistics of the image read back"
   ELSE ""
SaveWhy(e) ==
   LET n == Len(e.frames)
       Nm(i) == Name(e.p, e.frames[i].id)
       must == Writable(e.p, e.dims, e.mode, e.ga, e.gb) /\ e.fault = ""
       free == Free(e.p, e.mode, e.ga, e.gb)
       Why1(i) == LET f == e.frames[i] IN
          IF f.panic # "" THEN "crash: " \o f.panic
          ELSE IF f.err # "" THEN (IF must /\ ~free THEN "refused: " \o f.err ELSE "")
          ELSE IF ~Writable(e.p, e.dims, e.mode, e.ga, e.gb) /\ ~free THEN "reported success although the frame cannot be saved this way"
          ELSE IF ~f.same THEN "the frame passed on differs from the frame saved"
          ELSE IF \E j \in 1..n : j > i /\ Nm(j) = Nm(i) /\ e.frames[j].err = "" THEN ""
          ELSE IF FileOf(e, Nm(i)) = {} THEN "reported success without file " \o Nm(i)
          ELSE LET g == e.files[CHOOSE k \in FileOf(e, Nm(i)) : TRUE] w == FileWhy(e, f, g) IN
               IF w # "" THEN w ELSE IF free THEN "" ELSE Back(e, g)
       bad == {i \in 1..n : Why1(i) # ""}
   IN IF bad # {} THEN Why1(CHOOSE i \in bad : TRUE)
      ELSE IF \E k \in DOMAIN e.files : \A i \in 1..n : e.files[k].name # Nm(i) THEN "a file of another name appeared" ELSE ""
\* files made by other software: the values they hold or an error
ReadWhy(e) == LET b == e.back IN
   IF b.panic # "" THEN "reading a " \o e.model \o " file crashed: " \o b.panic
   ELSE IF b.err # "" THEN (IF e.model \in {"gray16", "rgba64"} THEN "refused: " \o b.err ELSE "")
   ELSE IF b.dims # e.dims THEN "size of the image read from a " \o e.model \o " file"
   ELSE IF b.px # e.px THEN "values read from a " \o e.model \o " file"
   ELSE IF b.mn # MinFrom(e.px, 1) \/ b.mx # MaxFrom(e.px, 1) \/ ~Average(b.avg, e.px) THEN "statistics of the image read from a " \o e.model \o " file"
   ELSE ""
Why(e) == IF e.k = "save" THEN SaveWhy(e) ELSE ReadWhy(e)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET w == Why(Trace[l]) IN IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", l, w>>)
TraceSpec == l = 1 /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"TRACEDONE", TLCGet("stats").diameter - 1>>)
=============================================================================
