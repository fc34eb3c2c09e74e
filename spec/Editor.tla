------------------------------- MODULE Editor --------------------------------
(* The block editor. A workspace is a chain of blocks, each with settings as shown and chains of blocks in its
   inputs, and may be switched off. A job is what the server decodes and runs: steps with a type, settings by
   key, and nested steps. Values are strings: s: text, n: thousandths, l: list of one text. "-" means the
   setting was not touched and is shown as it came. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Num(m) == "n:" \o ToString(m)
T(k, d) == [k |-> k, v |-> <<<<"-", "s:" \o d>>, <<"a b'c_%03d.fits", "s:a b'c_%03d.fits">>, <<"2", "s:2">>, <<"", "s:">>>>]
L(k, d) == [k |-> k, v |-> <<<<"-", "l:" \o d>>, <<"sub/a?.fit*", "l:sub/a?.fit*">>>>]
N(k, d, a, b) == [k |-> k, v |-> <<<<"-", Num(d)>>, <<ToString(a), Num(a)>>, <<ToString(b), Num(b)>>>>]
C(k, choices) == [k |-> k, v |-> <<<<"-", choices[1][2]>>>> \o choices]
K(t, fields, inputs) == [t |-> t, f |-> fields, n |-> inputs]
Blocks == [
   nl_file_load |-> K("load", <<T("fileName", "image.fits")>>, <<>>),
   nl_file_loadMany |-> K("loadMany", <<L("filePatterns", "*.fits")>>, <<>>),
   nl_file_save |-> K("save", <<T("filePattern", "out%3d.fits")>>, <<>>),
   nl_pre_calibrate |-> K("calibrate", <<T("dark", "dark.fits"), T("flat", "flat.fits")>>, <<>>),
   nl_pre_badPixel |-> K("badPixel", <<N("sigmaLow", 3000, 0, 3900), N("sigmaHigh", 5000, 0, 3900)>>, <<<<"debayer", "debayer">>>>),
   nl_pre_debayer |-> K("debayer", <<C("channel", <<<<"no", "s:">>, <<"red", "s:R">>, <<"green", "s:G">>, <<"blue", "s:B">>>>), C("colorFilterArray", <<<<"RGGB", "s:RGGB">>, <<"GRBG", "s:GRBG">>, <<"GBRG", "s:GBRG">>, <<"BGGR", "s:BGGR">>>>)>>, <<>>),
   nl_pre_debandVert |-> K("debandVert", <<N("percentile", 50000, 0, 65000), C("window", <<<<"8", "n:8000">>, <<"16", "n:16000">>, <<"32", "n:32000">>, <<"64", "n:64000">>, <<"96", "n:96000">>, <<"128", "n:128000">>, <<"192", "n:192000">>, <<"256", "n:256000">>, <<"384", "n:384000">>, <<"512", "n:512000">>>>)>>, <<>>),
   nl_pre_debandHoriz |-> K("debandHoriz", <<N("percentile", 50000, 0, 65000), C("window", <<<<"8", "n:8000">>, <<"16", "n:16000">>, <<"32", "n:32000">>, <<"64", "n:64000">>, <<"96", "n:96000">>, <<"128", "n:128000">>, <<"192", "n:192000">>, <<"256", "n:256000">>, <<"384", "n:384000">>, <<"512", "n:512000">>>>)>>, <<>>),
   nl_pre_scaleOffset |-> K("scaleOffset", <<N("scale", 1000, 0, 6500), N("offset", 0, -10000000, 3000000)>>, <<>>),
   nl_pre_bin |-> K("bin", <<C("binSize", <<<<"1", "n:1000">>, <<"2", "n:2000">>, <<"3", "n:3000">>, <<"4", "n:4000">>>>)>>, <<>>),
   nl_pre_backExtract |-> K("backExtract", <<C("gridSize", <<<<"0", "n:0">>, <<"32", "n:32000">>, <<"64", "n:64000">>, <<"128", "n:128000">>, <<"256", "n:256000">>, <<"512", "n:512000">>, <<"1024", "n:1024000">>>>), N("hfrFactor", 4000, 0, 6500), N("sigma", 1000, 0, 3900), N("clip", 0, 0, 42000)>>, <<<<"save", "save">>>>),
   nl_pre_starDetect |-> K("starDetect", <<N("radius", 16000, 0, 83000), N("sigma", 8000, 0, 13000), N("badPixelSigma", 0, 0, 3900), N("inOutRatio", 8000, 0, 13000)>>, <<<<"save", "save">>>>),
   nl_ref_selectReference |-> K("selectRef", <<C("mode", <<<<"highest # stars / HFR (for lights)", "s:%starsHFR">>, <<"median skyfog location (for flats)", "s:%location">>, <<"given filename", "the text">>, <<"given in-memory image", "the text">>, <<"Lum if present, else best RGB", "s:%rgb">>>>), T("the text", "ref.fits")>>, <<<<"starDetect", "starDetect">>>>),
   nl_post_matchHistogram |-> K("matchHist", <<C("mode", <<<<"disabled", "n:0">>, <<"location (for calibration frames)", "n:1000">>, <<"location and scale (for light frames)", "n:2000">>, <<"black point (for RGB combination)", "n:3000">>>>)>>, <<>>),
   nl_post_align |-> K("align", <<N("k", 50000, 0, 130000), N("threshold", 1000, 0, 6500), C("oobMode", <<<<"not-a-number (for stacking)", "n:0">>, <<"the reference skyfog peak", "n:1000">>, <<"this frame's skyfog peak", "n:2000">>>>)>>, <<>>),
   nl_stack_stack |-> K("stack", <<C("mode", <<<<"median (no sigmas)", "n:0">>, <<"mean (no sigmas)", "n:1000">>, <<"sigma-clipped mean", "n:2000">>, <<"winsorized mean", "n:3000">>, <<"linear regression fit", "n:5000">>, <<"automatic mode selection", "n:6000">>>>), N("sigmaLow", 2750, 0, 3900), N("sigmaHigh", 2750, 0, 3900), C("weighting", <<<<"equally", "n:0">>, <<"by exposure time", "n:1000">>, <<"by inverse noise (lower noise has higher weight)", "n:2000">>, <<"by inverse HFR (lower HFR has higher weight)", "n:3000">>>>)>>, <<>>),
   nl_stack_stackBatches |-> K("stackBatches", <<>>, <<<<"perBatch", "perBatch">>>>),
   nl_stretch_normRange |-> K("normRange", <<>>, <<>>),
   nl_stretch_stretch |-> K("stretch", <<N("location", 100, 0, 650), N("scale", 4, 0, 65)>>, <<>>),
   nl_stretch_midtones |-> K("midtones", <<N("mid", 0, 0, 3250), N("black", 1000, 0, 3250)>>, <<>>),
   nl_stretch_gamma |-> K("gamma", <<N("gamma", 2000, 0, 3250)>>, <<>>),
   nl_stretch_gammaPP |-> K("gammaPP", <<N("gamma", 2000, 0, 3250), N("sigma", 1000, -5000, 1500)>>, <<>>),
   nl_stretch_scaleBlack |-> K("scaleBlack", <<N("location", 100, 0, 650)>>, <<>>),
   nl_stretch_unsharpMask |-> K("unsharpMask", <<N("sigma", 1500, 0, 6500), N("gain", 1000, 0, 650), N("threshold", 1000, 0, 3250)>>, <<>>),
   nl_rgb_rgbCombine |-> K("rgbCombine", <<>>, <<>>),
   nl_rgb_rgbBalance |-> K("rgbBalance", <<>>, <<>>),
   nl_rgb_rgbToHSLuv |-> K("rgbToHSLuv", <<>>, <<>>),
   nl_rgb_hsluvToRGB |-> K("hsluvToRGB", <<>>, <<>>),
   nl_hsl_hslApplyLum |-> K("hslApplyLum", <<>>, <<>>),
   nl_hsl_hslScaleOffsetChannel |-> K("hslScaleOffsetChannel", <<C("channelID", <<<<"Hue", "n:0">>, <<"Saturation", "n:1000">>, <<"Luminance", "n:2000">>>>), N("scale", 1000, 0, 6500), N("offset", 0, -500, 150)>>, <<>>),
   nl_hsl_hslNeutralizeBackground |-> K("hslNeutralizeBackground", <<N("sigmaLow", 500, 0, 3250), N("sigmaHigh", 750, 0, 3250)>>, <<>>),
   nl_hsl_hslSaturationGamma |-> K("hslSaturationGamma", <<N("gamma", 1500, 0, 3250), N("sigma", 1000, 0, 3250)>>, <<>>),
   nl_hsl_hslSelectiveSaturation |-> K("hslSelectiveSaturation", <<N("factor", 500, 0, 3250), N("from", 295000, 0, 210000), N("to", 40000, 0, 210000)>>, <<>>),
   nl_hsl_hslRotateHue |-> K("hslRotateHue", <<N("from", 100000, 0, 210000), N("to", 190000, 0, 210000), N("offset", 35000, -180000, 54000), N("sigma", 750, 0, 3250)>>, <<>>),
   nl_hsl_hslSCNR |-> K("hslSCNR", <<N("factor", 500, 0, 650)>>, <<>>),
   nl_hsl_hslMidtones |-> K("hslMidtones", <<N("mid", 0, 0, 3250), N("black", 1000, 0, 3250)>>, <<>>),
   nl_hsl_hslGamma |-> K("hslGamma", <<N("gamma", 2000, 0, 3250)>>, <<>>),
   nl_hsl_hslGammaPP |-> K("hslGammaPP", <<N("gamma", 2000, 0, 3250), N("sigma", 1000, -5000, 1500)>>, <<>>),
   nl_hsl_hslScaleBlack |-> K("hslScaleBlack", <<N("location", 100, 0, 650)>>, <<>>)]
Types == DOMAIN Blocks
\* a block as it comes out of the toolbox
Fresh(b) == [b |-> b, on |-> TRUE, s |-> [i \in 1..Len(Blocks[b].f) |-> 1], n |-> [i \in 1..Len(Blocks[b].n) |-> <<>>]]
Shown(x) == [i \in DOMAIN x.s |-> Blocks[x.b].f[i].v[x.s[i]][1]]
\* settings by key; one key may be settled by a choice and a text
Value(x, i) == Blocks[x.b].f[i].v[x.s[i]][2]
Keys(x) == {Blocks[x.b].f[i].k : i \in DOMAIN x.s} \ {"the text"}
Setting(x, k) ==
   LET i == CHOOSE i \in DOMAIN x.s : Blocks[x.b].f[i].k = k
   IN IF Value(x, i) = "the text" THEN Value(x, CHOOSE j \in DOMAIN x.s : Blocks[x.b].f[j].k = "the text") ELSE Value(x, i)
IsOn(x) == x.on
RECURSIVE Job(_)
\* the job: what is on, in order, with its settings and what is in its inputs
Job(chain) == LET on == SelectSeq(chain, IsOn)
              IN [i \in DOMAIN on |-> [t |-> Blocks[on[i].b].t, f |-> {<<k, Setting(on[i], k)>> : k \in Keys(on[i])},
                                       n |-> [j \in DOMAIN on[i].n |-> <<Blocks[on[i].b].n[j][1], Job(on[i].n[j])>>]]]
\* how the library walks a chain: it skips what is off at its head, hands the block to its generator and lets
\* the rest of the chain be joined to its code
RECURSIVE Walk(_), Rest(_), One(_)
One(x) == [t |-> Blocks[x.b].t, f |-> {<<k, Setting(x, k)>> : k \in Keys(x)}, n |-> [j \in DOMAIN x.n |-> <<Blocks[x.b].n[j][1], Walk(x.n[j])>>]]
Rest(chain) == IF chain = <<>> THEN <<>> ELSE (IF chain[1].on THEN <<One(chain[1])>> ELSE <<>>) \o Rest(Tail(chain))
Walk(chain) == IF chain = <<>> THEN <<>> ELSE IF ~chain[1].on THEN Walk(Tail(chain)) ELSE <<One(chain[1])>> \o Rest(Tail(chain))
=============================================================================
