-------------------------------- MODULE Jobs --------------------------------
(* Job descriptions: documents of typed steps with settings, how they are decoded into steps with
   defaults filled in, and how steps are encoded again.
   A document node is one of
     [k |-> "v", v |-> token]                       a number or null, as a token
     [k |-> "s", v |-> text]                        a string
     [k |-> "l", e |-> << nodes >>]                 a list
     [k |-> "o", t |-> type, f |-> [name -> node]]  an object; t is "" when no type is given,
                                                    "#" for a plain group of settings             *)
EXTENDS Integers, Sequences, FiniteSets
V(x) == [k |-> "v", v |-> x]
S(x) == [k |-> "s", v |-> x]
Null == V("null")
NoSteps == [k |-> "l", e |-> << >>]
(* The registered step types and their settings: name, sort, default, and another legal value.
   Sorts: "num", "int", "str" (scalars), "list" (of strings), "rgb" (group), "steps", or a step type.    *)
Num(n, d, a) == [n |-> n, s |-> "num", d |-> V(d), a |-> V(a)]
Whole(n, d, a) == [n |-> n, s |-> "int", d |-> V(d), a |-> V(a)]
Str(n, d, a) == [n |-> n, s |-> "str", d |-> S(d), a |-> S(a)]
Sub(n, t) == [n |-> n, s |-> t, d |-> Null, a |-> Null]
Registry == [
  load      |-> <<Whole("id", "0", "7"), Str("fileName", "", "a.fits")>>,
  loadMany  |-> <<[n |-> "filePatterns", s |-> "list", d |-> Null, a |-> [k |-> "l", e |-> <<S("b*.fits"), S("a.fits")>>]]>>,
  save      |-> <<Str("filePattern", "", "out%d.fits"), Whole("saveMode", "0", "2"), Num("gamma", "1", "2.2")>>,
  seq       |-> <<[n |-> "steps", s |-> "steps", d |-> NoSteps, a |-> NoSteps]>>,
  calibrate |-> <<Str("dark", "", "a.fits"), Str("flat", "", "b.fits")>>,
  badPixel  |-> <<Num("sigmaLow", "3", "2.5"), Num("sigmaHigh", "5", "1.75"), Sub("debayer", "debayer")>>,
  debayer   |-> <<Str("channel", "", "G"), Str("colorFilterArray", "RGGB", "BGGR")>>,
  debandHoriz |-> <<Num("percentile", "50", "25"), Whole("window", "128", "8"), Num("sigma", "3", "1.5")>>,
  debandVert  |-> <<Num("percentile", "50", "75.5"), Whole("window", "128", "4"), Num("sigma", "3", "2.5")>>,
  scaleOffset |-> <<Num("scale", "1", "0.3"), Num("offset", "0", "-2.5")>>,
  bin         |-> <<Whole("binSize", "1", "2")>>,
  backExtract |-> <<Whole("gridSize", "0", "8"), Num("hfrFactor", "4", "2.5"), Num("sigma", "1.5", "2"), Whole("clip", "0", "1"), Sub("save", "save")>>,
  starDetect  |-> <<Whole("radius", "16", "3"), Num("sigma", "10", "2.5"), Num("badPixelSigma", "0", "5"), Num("inOutRatio", "10", "1.25"), Sub("save", "save")>>,
  selectRef   |-> <<Whole("target", "0", "1"), Str("mode", "%starsHFR", "1"), Sub("starDetect", "starDetect")>>,
  filter      |-> <<Whole("minStars", "0", "2")>>,
  exportStats |-> <<Str("fileName", "out.html", "stats.html")>>,
  matchHist   |-> <<Whole("mode", "2", "1")>>,
  align       |-> <<Whole("k", "50", "7"), Num("threshold", "1", "0.25"), Whole("oobMode", "0", "2")>>,
  stack       |-> <<Whole("mode", "6", "1"), Whole("weighting", "0", "3"), Num("sigmaLow", "2.75", "1.5"), Num("sigmaHigh", "2.75", "4")>>,
  stackBatches |-> <<Sub("perBatch", "seq")>>,
  normRange   |-> << >>,
  stretch     |-> <<Num("location", "0.1", "0.2"), Num("scale", "0.004", "0.01")>>,
  midtones    |-> <<Num("mid", "0", "0.25"), Num("black", "1", "0.5")>>,
  gamma       |-> <<Num("gamma", "1", "2.2")>>,
  gammaPP     |-> <<Num("gamma", "1", "1.8"), Num("sigma", "1", "0.5")>>,
  scaleBlack  |-> <<Num("location", "0", "0.1")>>,
  gaussianBlur |-> <<Num("sigma", "2", "0.75")>>,
  unsharpMask |-> <<Num("sigma", "1.5", "0.5"), Num("gain", "0", "1.25"), Num("threshold", "1", "0.3")>>,
  rgbCombine  |-> << >>,
  rgbBalance  |-> <<Whole("block", "16", "4"), Num("border", "0.1", "0.2"), Num("skipBright", "0", "0.05"), Num("skipDim", "0.75", "0.5"),
                    [n |-> "shadows", s |-> "rgb", d |-> Null, a |-> Null], [n |-> "highlights", s |-> "rgb", d |-> Null, a |-> Null]>>,
  rgbToHSLuv  |-> << >>,
  hsluvToRGB  |-> << >>,
  hslApplyLum |-> << >>,
  hslScaleOffsetChannel |-> <<Whole("channelID", "2", "1"), Num("scale", "1", "0.75"), Num("offset", "0", "0.125")>>,
  hslNeutralizeBackground |-> <<Num("sigmaLow", "0.75", "0.5"), Num("sigmaHigh", "1", "2")>>,
  hslSaturationGamma |-> <<Num("gamma", "1.75", "1.25"), Num("sigma", "0.75", "0.5")>>,
  hslSelectiveSaturation |-> <<Num("from", "295", "10"), Num("to", "40", "200"), Num("factor", "1", "0.5")>>,
  hslRotateHue |-> <<Num("from", "100", "20"), Num("to", "190", "260"), Num("offset", "0", "-30"), Num("sigma", "1", "0.5")>>,
  hslSCNR     |-> <<Num("factor", "0", "0.5")>>,
  hslMidtones |-> <<Num("mid", "0", "0.25"), Num("black", "2", "1")>>,
  hslGamma    |-> <<Num("gamma", "1", "1.5")>>,
  hslGammaPP  |-> <<Num("gamma", "1", "1.5"), Num("sigma", "1", "0.5")>>,
  HSLUnsharpMask |-> <<Num("sigma", "1.5", "0.75"), Num("gain", "0", "0.5"), Num("threshold", "0.75", "0.25")>>,
  hslScaleBlack |-> <<Num("location", "0", "0.1")>>,
  hslStretch  |-> <<Num("location", "0.1", "0.2"), Num("scale", "0.004", "0.01")>> ]
Types == DOMAIN Registry
Rgb == <<Num("R", "1", "0.5"), Num("G", "1", "0.25"), Num("B", "1", "0.75")>>
Names(fs) == {fs[i].n : i \in 1..Len(fs)}
FieldOf(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n]

(* the settings in force when nothing is said *)
RECURSIVE DefaultStep(_)
DefaultOf(fd) ==
   CASE fd.s \in {"num", "int", "str", "list", "steps"} -> fd.d
     [] fd.s = "rgb" -> [k |-> "o", t |-> "#", f |-> [n \in Names(Rgb) |-> FieldOf(Rgb, n).d]]
     [] fd.s = "debayer" -> Null
     [] OTHER -> DefaultStep(fd.s)
DefaultStep(t) == [k |-> "o", t |-> t, f |-> [n \in Names(Registry[t]) |-> DefaultOf(FieldOf(Registry[t], n))]]

Err == [k |-> "err"]
IsErr(x) == x.k = "err"
(* Decode(doc, t): the step of type t a document describes, with every setting filled in *)
RECURSIVE Decode(_, _)
DecodeStep(d) == IF d.k # "o" THEN Err                                  \* a step of a sequence names its type
                 ELSE IF d.t \notin Types THEN Err ELSE Decode(d, d.t)
IsNull(d) == IF d.k = "v" THEN d.v = "null" ELSE FALSE
DecodeField(d, fd) ==
   CASE fd.s \in {"num", "int", "str"} -> (IF IsNull(d) THEN fd.d ELSE IF d.k = fd.d.k THEN d ELSE Err)
     [] fd.s = "list" -> (IF IsNull(d) THEN d ELSE IF d.k # "l" THEN Err ELSE IF \E i \in 1..Len(d.e) : d.e[i].k # "s" THEN Err ELSE d)
     [] fd.s = "rgb" -> (IF IsNull(d) THEN DefaultOf(fd)
                         ELSE IF d.k # "o" THEN Err
                         ELSE IF \E n \in Names(Rgb) \cap DOMAIN d.f : d.f[n].k # "v" THEN Err
                         ELSE [k |-> "o", t |-> "#", f |-> [n \in Names(Rgb) |->
                               IF n \in DOMAIN d.f THEN (IF IsNull(d.f[n]) THEN FieldOf(Rgb, n).d ELSE d.f[n]) ELSE FieldOf(Rgb, n).d]])
     [] fd.s = "steps" -> (IF IsNull(d) THEN NoSteps
                           ELSE IF d.k # "l" THEN Err
                           ELSE LET e == [i \in 1..Len(d.e) |-> DecodeStep(d.e[i])] IN
                                IF \E i \in 1..Len(e) : IsErr(e[i]) THEN Err ELSE [k |-> "l", e |-> e])
     [] OTHER -> (IF IsNull(d) THEN Null                                 \* explicitly no such step
                  ELSE IF d.k # "o" THEN Err
                  ELSE Decode(d, fd.s))
Decode(d, t) ==
   LET fs == Registry[t]
       v == [n \in Names(fs) |-> IF n \in DOMAIN d.f THEN DecodeField(d.f[n], FieldOf(fs, n)) ELSE DefaultOf(FieldOf(fs, n))] IN
   IF \E n \in Names(fs) : IsErr(v[n]) THEN Err
   ELSE [k |-> "o", t |-> IF d.t \in {"", "#"} THEN t ELSE d.t, f |-> v]
\* encoding writes every setting
Encode(step) == step

(* all steps of a job in the order of execution *)
RECURSIVE Order(_)
OrderOf(e) == LET RECURSIVE G(_)
                  G(i) == IF i > Len(e) THEN << >> ELSE Order(e[i]) \o G(i + 1) IN G(1)
Order(s) == IF s.k # "o" THEN << >>
            ELSE IF s.t \in {"seq", ""} THEN (IF "steps" \notin DOMAIN s.f THEN << >> ELSE IF s.f["steps"].k = "l" THEN OrderOf(s.f["steps"].e) ELSE << >>)
            ELSE IF s.t = "stackBatches" THEN (<<s.t>> \o (IF "perBatch" \in DOMAIN s.f THEN Order(s.f["perBatch"]) ELSE << >>))
            ELSE <<s.t>>
\* some step somewhere names no registered type
RECURSIVE HasUnknown(_)
HasUnknown(d) ==
   IF d.k # "o" THEN FALSE
   ELSE \E n \in DOMAIN d.f :
        \/ (IF n # "steps" \/ d.f[n].k # "l" THEN FALSE
            ELSE \E i \in 1..Len(d.f[n].e) : LET x == d.f[n].e[i] IN IF x.k # "o" THEN TRUE ELSE x.t \notin Types \/ HasUnknown(x))
        \/ (n = "perBatch" /\ HasUnknown(d.f[n]))
=============================================================================
