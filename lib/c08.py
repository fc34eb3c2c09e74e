import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("StatsCacheMC", """SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2}
 Offsets = {0, 3}
 MaxLen = %d
 Emit = TRUE
INVARIANTS Fresh SnapStable Matched EmitHist
""" % (5 if c.thorough else 4), workers=8)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "HIST")})
    c.extra["histories_generated_by_tlc"] = len(sc)
    n = 6000 if c.thorough else 1200
    step = max(1, len(sc) // n)
    sc = sc[c.seed % step::step]
    with open(c.path("scen.ndjson"), "w") as f:
        f.write("\n".join(sc) + "\n")
    h = c.build("c08")
    for mode, args in (("replay", ["replay", c.path("scen.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=400):
            c.validate("StatsCacheTrace", t, cfgtext=TR, parallel=8, grouped=True)

main("C08", body)
