-------------------------------- MODULE Cli --------------------------------
(* The command line: what job a command with flags and files runs, and how the process ends. A job is
   the set of its operators, each with its place, type and settings; a settings value is the text of
   the number or string. Sequences directly inside sequences are spliced into them, as they run alike. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
\* ------------------------------------------------------------------ flags
Commands == {"stats", "stack", "stretch", "rgb"}
\* kinds: s text, i whole number, f number, p percentage (the setting is one hundredth), m mode with a default which depends on the command
Flag(k, d) == [k |-> k, d |-> d]
Flags == [
  out |-> Flag("o", "out.fits"), jpg |-> Flag("a", "%auto"), tiff |-> Flag("a", ""), exportStats |-> Flag("a", "%auto"),
  jpgGamma |-> Flag("f", "1"),
  pre |-> Flag("s", ""), stars |-> Flag("s", ""), back |-> Flag("s", ""), post |-> Flag("s", ""), batch |-> Flag("s", ""),
  dark |-> Flag("s", ""), flat |-> Flag("s", ""), debayer |-> Flag("s", ""), cfa |-> Flag("s", "RGGB"),
  debandH |-> Flag("f", "0"), debandV |-> Flag("f", "0"), debandHWindow |-> Flag("i", "128"), debandVWindow |-> Flag("i", "128"),
  debandHSigma |-> Flag("f", "3"), debandVSigma |-> Flag("f", "3"), binning |-> Flag("i", "0"),
  bpSigLow |-> Flag("f", "3"), bpSigHigh |-> Flag("f", "5"),
  starSig |-> Flag("f", "15"), starBpSig |-> Flag("f", "-1"), starInOut |-> Flag("f", "1.4"), starRadius |-> Flag("i", "16"),
  backGrid |-> Flag("i", "0"), backHFRFactor |-> Flag("f", "4"), backSigma |-> Flag("f", "1.5"), backClip |-> Flag("i", "0"),
  minStars |-> Flag("i", "0"), blurSigma |-> Flag("f", "0"), usmSigma |-> Flag("f", "1"), usmGain |-> Flag("f", "0"), usmThresh |-> Flag("f", "1"),
  alignK |-> Flag("i", "20"), alignT |-> Flag("f", "1"), normHist |-> Flag("i", "4"),
  stMode |-> Flag("i", "6"), stSigLow |-> Flag("f", "-1"), stSigHigh |-> Flag("f", "-1"), stWeight |-> Flag("i", "0"),
  histoRef |-> Flag("s", "%starsHFR"), alignRef |-> Flag("s", "%starsHFR"),
  neutSigmaLow |-> Flag("f", "-1"), neutSigmaHigh |-> Flag("f", "-1"),
  balBlock |-> Flag("i", "16"), balBorder |-> Flag("f", "0.1"), balSkipBright |-> Flag("f", "0"), balSkipDim |-> Flag("f", "0.5"),
  balShR |-> Flag("f", "1"), balShG |-> Flag("f", "1"), balShB |-> Flag("f", "1"), balHiR |-> Flag("f", "1"), balHiG |-> Flag("f", "1"), balHiB |-> Flag("f", "1"),
  chromaGamma |-> Flag("f", "1"), chromaSigma |-> Flag("f", "1"), chromaFrom |-> Flag("f", "295"), chromaTo |-> Flag("f", "40"), chromaBy |-> Flag("f", "1"),
  rotFrom |-> Flag("f", "100"), rotTo |-> Flag("f", "190"), rotBy |-> Flag("f", "0"), rotSigma |-> Flag("f", "1"), scnr |-> Flag("f", "0"),
  autoLoc |-> Flag("p", "0.1"), autoScale |-> Flag("p", "0.004"), scaleBlack |-> Flag("p", "0"),
  midtone |-> Flag("f", "0"), midBlack |-> Flag("f", "2"), gamma |-> Flag("f", "1"), ppGamma |-> Flag("f", "1"), ppSigma |-> Flag("f", "1"),
  preScale |-> Flag("f", "1"), preOffset |-> Flag("f", "0"), lumScale |-> Flag("f", "1"), lumOffset |-> Flag("f", "0") ]
Names == DOMAIN Flags
\* a command line sets flags s : name -> [txt, val] (plus stem for out), the others keep their defaults
V(s, n) == IF n \in DOMAIN s THEN s[n].val ELSE Flags[n].d
Stem(s) == IF "out" \in DOMAIN s THEN s.out.stem ELSE "out"
Auto(s, n, ext) == IF V(s, n) # "%auto" THEN V(s, n) ELSE IF V(s, "out") = "" THEN "" ELSE Stem(s) \o ext
\* defaults which depend on the command
NormHist(cmd, s) == IF V(s, "normHist") # "4" \/ cmd = "stretch" THEN V(s, "normHist") ELSE IF cmd = "stack" THEN "2" ELSE "0"
Negative == {"-1", "-2.5", "-0.5"}
BpSig(cmd, s) == IF V(s, "starBpSig") \notin Negative \/ cmd = "stretch" THEN V(s, "starBpSig") ELSE IF cmd = "stack" THEN "5" ELSE "0"
Bad(cmd, s, n) == IF cmd = "stats" THEN "0" ELSE V(s, n)
\* ------------------------------------------------------------------ jobs
Fields(t, f) == {[p |-> "", t |-> t, f |-> f]}
Sub(prefix, op) == {[x EXCEPT !.p = prefix \o @] : x \in op}
With(op, key, child) == op \cup Sub("." \o key, child)
Steps(ops) == Fields("seq", {}) \cup UNION {Sub(".steps" \o ToString(i), ops[i]) : i \in DOMAIN ops}
E(n, v) == [n |-> n, v |-> v]
Save(file, mode, gamma) == Fields("save", {E("filePattern", file), E("saveMode", mode), E("gamma", gamma)})
Load(files) == Fields("loadMany", {E("filePatterns", files)})
Debayer(s) == Fields("debayer", {E("channel", V(s, "debayer")), E("colorFilterArray", V(s, "cfa"))})
StarDetect(cmd, s) == With(Fields("starDetect", {E("radius", V(s, "starRadius")), E("sigma", V(s, "starSig")),
                             E("badPixelSigma", BpSig(cmd, s)), E("inOutRatio", V(s, "starInOut"))}), "save", Save(V(s, "stars"), "0", "1"))
SelectRef(cmd, s, target, mode) == With(Fields("selectRef", {E("target", target), E("mode", mode)}), "starDetect", StarDetect(cmd, s))
PreProc(cmd, s) == <<
   Fields("calibrate", {E("dark", V(s, "dark")), E("flat", V(s, "flat"))}),
   With(Fields("badPixel", {E("sigmaLow", Bad(cmd, s, "bpSigLow")), E("sigmaHigh", Bad(cmd, s, "bpSigHigh"))}), "debayer", Debayer(s)),
   Debayer(s),
   Fields("debandHoriz", {E("percentile", V(s, "debandH")), E("window", V(s, "debandHWindow")), E("sigma", V(s, "debandHSigma"))}),
   Fields("debandVert", {E("percentile", V(s, "debandV")), E("window", V(s, "debandVWindow")), E("sigma", V(s, "debandVSigma"))}),
   Fields("scaleOffset", {E("scale", V(s, "preScale")), E("offset", V(s, "preOffset"))}),
   Fields("bin", {E("binSize", V(s, "binning"))}),
   StarDetect(cmd, s),
   With(Fields("backExtract", {E("gridSize", V(s, "backGrid")), E("hfrFactor", V(s, "backHFRFactor")), E("sigma", V(s, "backSigma")), E("clip", V(s, "backClip"))}),
        "save", Save(V(s, "back"), "0", "1")),
   Fields("exportStats", {E("fileName", Auto(s, "exportStats", ".html"))}),
   Save(V(s, "pre"), "0", "1") >>
\* what ends every command with an image as result: the image itself and its two previews
Results(s, mode) == << Save(V(s, "out"), "0", "1"), Save(Auto(s, "tiff", ".tif"), mode, "1"), Save(Auto(s, "jpg", ".jpg"), mode, V(s, "jpgGamma")) >>
Batch(s) == Steps(PreProc("stack", s) \o <<
   SelectRef("stack", s, "1", V(s, "histoRef")),
   SelectRef("stack", s, "0", V(s, "alignRef")),
   Fields("filter", {E("minStars", V(s, "minStars"))}),
   Fields("matchHist", {E("mode", NormHist("stack", s))}),
   Fields("align", {E("k", V(s, "alignK")), E("threshold", V(s, "alignT")), E("oobMode", "0")}),
   Save(V(s, "post"), "0", "1"),
   Fields("stack", {E("mode", V(s, "stMode")), E("weighting", V(s, "stWeight")), E("sigmaLow", V(s, "stSigLow")), E("sigmaHigh", V(s, "stSigHigh"))}),
   StarDetect("stack", s),
   Save(V(s, "batch"), "0", "1") >>)
Job(cmd, s, files) == Steps(<<Load(files)>> \o
   CASE cmd = "stats" -> PreProc("stats", s)
     [] cmd = "stack" -> << With(Fields("stackBatches", {}), "perBatch", Batch(s)), StarDetect("stack", s) >> \o Results(s, "3")
     [] cmd = "stretch" -> <<
          Fields("normRange", {}),
          Fields("stretch", {E("location", V(s, "autoLoc")), E("scale", V(s, "autoScale"))}),
          Fields("midtones", {E("mid", V(s, "midtone")), E("black", V(s, "midBlack"))}),
          Fields("gamma", {E("gamma", V(s, "gamma"))}),
          Fields("gammaPP", {E("gamma", V(s, "ppGamma")), E("sigma", V(s, "ppSigma"))}),
          Fields("scaleBlack", {E("location", V(s, "scaleBlack"))}),
          StarDetect("stretch", s),
          SelectRef("stretch", s, "0", V(s, "alignRef")),
          Fields("align", {E("k", V(s, "alignK")), E("threshold", V(s, "alignT")), E("oobMode", "2")}),
          Fields("gaussianBlur", {E("sigma", V(s, "blurSigma"))}),
          Fields("unsharpMask", {E("sigma", V(s, "usmSigma")), E("gain", V(s, "usmGain")), E("threshold", V(s, "usmThresh"))}) >> \o Results(s, "1")
     [] OTHER -> <<
          StarDetect("rgb", s), SelectRef("rgb", s, "0", "%rgb"), Fields("rgbCombine", {}),
          Fields("rgbBalance", {E("block", V(s, "balBlock")), E("border", V(s, "balBorder")), E("skipBright", V(s, "balSkipBright")), E("skipDim", V(s, "balSkipDim")),
             E("shadows.R", V(s, "balShR")), E("shadows.G", V(s, "balShG")), E("shadows.B", V(s, "balShB")),
             E("highlights.R", V(s, "balHiR")), E("highlights.G", V(s, "balHiG")), E("highlights.B", V(s, "balHiB"))}),
          Fields("rgbToHSLuv", {}), Fields("hslApplyLum", {}),
          Fields("HSLUnsharpMask", {E("sigma", V(s, "usmSigma")), E("gain", V(s, "usmGain")), E("threshold", V(s, "usmThresh"))}),
          Fields("hslNeutralizeBackground", {E("sigmaLow", V(s, "neutSigmaLow")), E("sigmaHigh", V(s, "neutSigmaHigh"))}),
          Fields("hslSaturationGamma", {E("gamma", V(s, "chromaGamma")), E("sigma", V(s, "chromaSigma"))}),
          Fields("hslSelectiveSaturation", {E("from", V(s, "chromaFrom")), E("to", V(s, "chromaTo")), E("factor", V(s, "chromaBy"))}),
          Fields("hslRotateHue", {E("from", V(s, "rotFrom")), E("to", V(s, "rotTo")), E("offset", V(s, "rotBy")), E("sigma", V(s, "rotSigma"))}),
          Fields("hslSCNR", {E("factor", V(s, "scnr"))}),
          Fields("hslStretch", {E("location", V(s, "autoLoc")), E("scale", V(s, "autoScale"))}),
          Fields("hslMidtones", {E("mid", V(s, "midtone")), E("black", V(s, "midBlack"))}),
          Fields("hslGamma", {E("gamma", V(s, "gamma"))}),
          Fields("hslGammaPP", {E("gamma", V(s, "ppGamma")), E("sigma", V(s, "ppSigma"))}),
          Fields("hslScaleOffsetChannel", {E("channelID", "2"), E("scale", V(s, "lumScale")), E("offset", V(s, "lumOffset"))}),
          Fields("hslScaleBlack", {E("location", V(s, "scaleBlack"))}),
          Fields("hsluvToRGB", {}) >> \o Results(s, "1"))
\* the settings in which job a differs from b: <<operator type, setting>>; whether they have the same operators
Changed(a, b) == UNION {{<<x.t, f.n>> : f \in {g \in x.f : \A y \in b : y.p = x.p => g \notin y.f}} : x \in a}
Skeleton(j) == {<<x.p, x.t, {f.n : f \in x.f}>> : x \in j}
\* ------------------------------------------------------------------ how it ends
\* in : files good | missing | broken | none; out : good | nowhere; job : good | missing | invalid | failing; log : good | nowhere
Fine(cmd, w) ==
   CASE cmd \in {"legal", "version", "help"} -> w.log = "good"
     [] cmd = "stats" -> w.in = "good" /\ w.log = "good"
     [] cmd \in Commands -> w.in = "good" /\ w.out = "good" /\ w.log = "good"
     [] cmd = "run" -> w.job = "good" /\ w.log = "good"
     [] OTHER -> FALSE
=============================================================================
