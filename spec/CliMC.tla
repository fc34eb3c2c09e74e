------------------------------- MODULE CliMC -------------------------------
(* Building up a command line flag by flag. Each flag may only change the settings it documents, in the
   commands it documents, whatever the other flags are. The states are also the scenarios for the real program. *)
EXTENDS Cli, SequencesExt, Json
CONSTANTS Most, Emit
VARIABLES cmd, set, last
Order == SetToSeq(Names)
Index == [n \in Names |-> CHOOSE i \in DOMAIN Order : Order[i] = n]
Same(v) == [txt |-> v, val |-> v, stem |-> ""]
Variants(n) ==
   LET k == Flags[n].k i == ToString(20 + Index[n]) IN
   CASE n = "normHist" -> <<Same("1"), Same("4"), Same("3"), Same("0"), Same("2")>>
     [] k = "i" -> <<Same(i), Same("0")>>
     [] k = "f" -> <<Same(i \o ".25"), Same("-0.5"), Same("0"), Same("-1")>>
     [] k = "p" -> LET d == ToString(11 + 10 * (Index[n] % 8)) IN <<[txt |-> d, val |-> "0." \o d, stem |-> ""], [txt |-> "0", val |-> "0", stem |-> ""], [txt |-> "0.5", val |-> "0.005", stem |-> ""]>>
     [] k = "o" -> <<[txt |-> "some.where/res.one.fits", val |-> "some.where/res.one.fits", stem |-> "some.where/res.one"], [txt |-> "", val |-> "", stem |-> ""], [txt |-> "plain", val |-> "plain", stem |-> "plain"],
                     [txt |-> "x.fits.gz", val |-> "x.fits.gz", stem |-> "x.fits"]>>
     [] k = "a" -> <<Same("to-" \o n \o ".jpg"), Same("%auto"), Same("")>>
     [] OTHER -> <<Same("to-" \o n \o "-%03d.fits"), Same(""), Same("R")>>
\* what each flag documents: the commands it is for and the settings it may change
On(c, f) == [c |-> c, f |-> f]
Pre == {"stats", "stack"}
Final == {"stack", "stretch", "rgb"}
Doc == [
  out |-> On(Commands, {<<"save", "filePattern">>, <<"exportStats", "fileName">>}), jpg |-> On(Final, {<<"save", "filePattern">>}), tiff |-> On(Final, {<<"save", "filePattern">>}),
  exportStats |-> On(Pre, {<<"exportStats", "fileName">>}), jpgGamma |-> On(Final, {<<"save", "gamma">>}),
  pre |-> On(Pre, {<<"save", "filePattern">>}), stars |-> On(Commands, {<<"save", "filePattern">>}), back |-> On(Pre, {<<"save", "filePattern">>}),
  post |-> On({"stack"}, {<<"save", "filePattern">>}), batch |-> On({"stack"}, {<<"save", "filePattern">>}),
  dark |-> On(Pre, {<<"calibrate", "dark">>}), flat |-> On(Pre, {<<"calibrate", "flat">>}), debayer |-> On(Pre, {<<"debayer", "channel">>}), cfa |-> On(Pre, {<<"debayer", "colorFilterArray">>}),
  debandH |-> On(Pre, {<<"debandHoriz", "percentile">>}), debandV |-> On(Pre, {<<"debandVert", "percentile">>}), debandHWindow |-> On(Pre, {<<"debandHoriz", "window">>}), debandVWindow |-> On(Pre, {<<"debandVert", "window">>}),
  debandHSigma |-> On(Pre, {<<"debandHoriz", "sigma">>}), debandVSigma |-> On(Pre, {<<"debandVert", "sigma">>}), binning |-> On(Pre, {<<"bin", "binSize">>}),
  bpSigLow |-> On({"stack"}, {<<"badPixel", "sigmaLow">>}), bpSigHigh |-> On({"stack"}, {<<"badPixel", "sigmaHigh">>}),
  starSig |-> On(Commands, {<<"starDetect", "sigma">>}), starBpSig |-> On(Commands, {<<"starDetect", "badPixelSigma">>}), starInOut |-> On(Commands, {<<"starDetect", "inOutRatio">>}), starRadius |-> On(Commands, {<<"starDetect", "radius">>}),
  backGrid |-> On(Pre, {<<"backExtract", "gridSize">>}), backHFRFactor |-> On(Pre, {<<"backExtract", "hfrFactor">>}), backSigma |-> On(Pre, {<<"backExtract", "sigma">>}), backClip |-> On(Pre, {<<"backExtract", "clip">>}),
  minStars |-> On({"stack"}, {<<"filter", "minStars">>}), blurSigma |-> On({"stretch"}, {<<"gaussianBlur", "sigma">>}),
  usmSigma |-> On({"stretch", "rgb"}, {<<"unsharpMask", "sigma">>, <<"HSLUnsharpMask", "sigma">>}), usmGain |-> On({"stretch", "rgb"}, {<<"unsharpMask", "gain">>, <<"HSLUnsharpMask", "gain">>}), usmThresh |-> On({"stretch", "rgb"}, {<<"unsharpMask", "threshold">>, <<"HSLUnsharpMask", "threshold">>}),
  alignK |-> On({"stack", "stretch"}, {<<"align", "k">>}), alignT |-> On({"stack", "stretch"}, {<<"align", "threshold">>}), normHist |-> On({"stack"}, {<<"matchHist", "mode">>}),
  stMode |-> On({"stack"}, {<<"stack", "mode">>}), stSigLow |-> On({"stack"}, {<<"stack", "sigmaLow">>}), stSigHigh |-> On({"stack"}, {<<"stack", "sigmaHigh">>}), stWeight |-> On({"stack"}, {<<"stack", "weighting">>}),
  histoRef |-> On({"stack"}, {<<"selectRef", "mode">>}), alignRef |-> On({"stack", "stretch"}, {<<"selectRef", "mode">>}),
  neutSigmaLow |-> On({"rgb"}, {<<"hslNeutralizeBackground", "sigmaLow">>}), neutSigmaHigh |-> On({"rgb"}, {<<"hslNeutralizeBackground", "sigmaHigh">>}),
  balBlock |-> On({"rgb"}, {<<"rgbBalance", "block">>}), balBorder |-> On({"rgb"}, {<<"rgbBalance", "border">>}), balSkipBright |-> On({"rgb"}, {<<"rgbBalance", "skipBright">>}), balSkipDim |-> On({"rgb"}, {<<"rgbBalance", "skipDim">>}),
  balShR |-> On({"rgb"}, {<<"rgbBalance", "shadows.R">>}), balShG |-> On({"rgb"}, {<<"rgbBalance", "shadows.G">>}), balShB |-> On({"rgb"}, {<<"rgbBalance", "shadows.B">>}),
  balHiR |-> On({"rgb"}, {<<"rgbBalance", "highlights.R">>}), balHiG |-> On({"rgb"}, {<<"rgbBalance", "highlights.G">>}), balHiB |-> On({"rgb"}, {<<"rgbBalance", "highlights.B">>}),
  chromaGamma |-> On({"rgb"}, {<<"hslSaturationGamma", "gamma">>}), chromaSigma |-> On({"rgb"}, {<<"hslSaturationGamma", "sigma">>}), chromaFrom |-> On({"rgb"}, {<<"hslSelectiveSaturation", "from">>}), chromaTo |-> On({"rgb"}, {<<"hslSelectiveSaturation", "to">>}), chromaBy |-> On({"rgb"}, {<<"hslSelectiveSaturation", "factor">>}),
  rotFrom |-> On({"rgb"}, {<<"hslRotateHue", "from">>}), rotTo |-> On({"rgb"}, {<<"hslRotateHue", "to">>}), rotBy |-> On({"rgb"}, {<<"hslRotateHue", "offset">>}), rotSigma |-> On({"rgb"}, {<<"hslRotateHue", "sigma">>}), scnr |-> On({"rgb"}, {<<"hslSCNR", "factor">>}),
  autoLoc |-> On({"stretch", "rgb"}, {<<"stretch", "location">>, <<"hslStretch", "location">>}), autoScale |-> On({"stretch", "rgb"}, {<<"stretch", "scale">>, <<"hslStretch", "scale">>}), scaleBlack |-> On({"stretch", "rgb"}, {<<"scaleBlack", "location">>, <<"hslScaleBlack", "location">>}),
  midtone |-> On({"stretch", "rgb"}, {<<"midtones", "mid">>, <<"hslMidtones", "mid">>}), midBlack |-> On({"stretch", "rgb"}, {<<"midtones", "black">>, <<"hslMidtones", "black">>}),
  gamma |-> On({"stretch", "rgb"}, {<<"gamma", "gamma">>, <<"hslGamma", "gamma">>}), ppGamma |-> On({"stretch", "rgb"}, {<<"gammaPP", "gamma">>, <<"hslGammaPP", "gamma">>}), ppSigma |-> On({"stretch", "rgb"}, {<<"gammaPP", "sigma">>, <<"hslGammaPP", "sigma">>}),
  preScale |-> On(Pre, {<<"scaleOffset", "scale">>}), preOffset |-> On(Pre, {<<"scaleOffset", "offset">>}), lumScale |-> On({"rgb"}, {<<"hslScaleOffsetChannel", "scale">>}), lumOffset |-> On({"rgb"}, {<<"hslScaleOffsetChannel", "offset">>}) ]
Files == "a.fits|b*.fits"
Without(s, n) == [m \in DOMAIN s \ {n} |-> s[m]]
Init == cmd \in Commands /\ set = <<>> /\ last = "none"
Add(n) == /\ n \notin DOMAIN set /\ Cardinality(DOMAIN set) < Most
          /\ (IF last = "none" THEN TRUE ELSE Index[n] > Index[last])
          /\ \E i \in DOMAIN Variants(n) : set' = [m \in DOMAIN set \cup {n} |-> IF m = n THEN Variants(n)[i] ELSE set[m]]
          /\ last' = n /\ UNCHANGED cmd
Next == \E n \in Names : Add(n)
Spec == Init /\ [][Next]_<<cmd, set, last>>
\* a flag changes only what it documents, and only in the commands it is for
Apart == (last # "none") => LET a == Job(cmd, set, Files) b == Job(cmd, Without(set, last), Files) IN
   /\ Skeleton(a) = Skeleton(b)
   /\ Changed(a, b) \subseteq Doc[last].f
   /\ cmd \notin Doc[last].c => a = b
\* and it does change it, whatever the other flags, unless the value is the default or the command resolves it
Reach == last # "none" /\ cmd \in Doc[last].c /\ set[last] = Variants(last)[1] /\ ~(cmd = "stats" /\ last = "out") => Changed(Job(cmd, set, Files), Job(cmd, Without(set, last), Files)) # {}
Covers == DOMAIN Doc = Names
Whole == LET j == Job(cmd, set, Files) IN \A x, y \in j : x.p = y.p => x = y
Listed(s) == [i \in 1..Cardinality(DOMAIN s) |-> LET n == SetToSeq(DOMAIN s)[i] IN [n |-> n, txt |-> s[n].txt, val |-> s[n].val, stem |-> s[n].stem]]
Emitted == IF Emit /\ Cardinality(DOMAIN set) <= 1 THEN PrintT("SCEN" \o ToJson([cmd |-> cmd, set |-> Listed(set)])) ELSE TRUE
=============================================================================
