import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("MosaicMC", """SPECIFICATION Spec
CONSTANTS MaxSize = %d
 Emit = TRUE
INVARIANTS Blocks Trim Covered Pure Local Symmetric BinCover BinTwice Emitted
CHECK_DEADLOCK FALSE
""" % (7 if c.thorough else 5), workers=8, timeout=850)
    sc = sorted(c.printed(out, "SCEN"), key=lambda s: json.dumps(s, sort_keys=True))
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(json.dumps(s) + "\n")
    b = c.build("c15")
    for mode, args in (("replay", [c.path("scen.ndjson")]), ("rand", []), ("bin", [])):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode] + args, t, timeout=300, cwd=c.mkdir(mode)):
            c.validate("MosaicTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C15", body)
