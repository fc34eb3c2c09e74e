import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("BalanceMC", "SPECIFICATION Spec\nCONSTANTS Skips = {0,4,10}\n Blks = {0,1,2,3,5}\n Emit = TRUE\nINVARIANTS Ordered Grey Union Shadows Alike Refused Emitted\nCHECK_DEADLOCK FALSE\n", workers=8, timeout=600)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    if not c.thorough:
        sc = [s for i, s in enumerate(sc) if (i + c.seed) % 8 == 0]
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    b = c.build("c25")
    for mode in ("replay", "rand"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, c.path("scen.ndjson")], t, timeout=600, cwd=c.mkdir(mode)):
            c.validate("BalanceTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C25", body)
