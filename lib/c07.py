import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("FitsWriteMC", """SPECIFICATION Spec
CONSTANTS A = 3
 B = 4
 MaxLen = %d
 Saves = {0, 1, 2, 3}
 Emit = TRUE
INVARIANTS RoundTrip Widths EmitHist EmitStr
""" % (11 if c.thorough else 9), workers=8)
    h1 = [s for s in c.printed(out, "HIST") if len(s["h"]) == 3]
    st = c.printed(out, "STR")
    sc = sorted({json.dumps(s) for s in h1 + st})
    if not c.thorough:      # every history and every second string
        sc = [s for i, s in enumerate(sc) if '"h"' in s or (i + c.seed) % 2 == 0]
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        f.write("\n".join(sc) + "\n")
    h = c.build("c07")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400):
            c.validate("FitsWriteTrace", t, cfgtext=TR, parallel=8)

main("C07", body)
