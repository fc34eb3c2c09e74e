import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("BlurMC", "SPECIFICATION Spec\nCONSTANTS Sigmas = {0,3,8,10,20,30,50}\n MaxSteps = %d\n Emit = TRUE\nINVARIANTS Ranges Flat Sums Softer Symmetric Away Only Idle Whole Emitted\nCHECK_DEADLOCK FALSE\n" % (2 if c.thorough else 1), workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    b = c.build("c26")
    for mode in ("replay", "rand"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, c.path("scen.ndjson")], t, timeout=600, cwd=c.mkdir(mode)):
            c.validate("BlurTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C26", body)
