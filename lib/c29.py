import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("EstimatorsMC", "SPECIFICATION Spec\nCONSTANTS Most = %d\n Values = {0, 30, 45, 70, 100, 900}\n Emit = TRUE\nINVARIANTS Counted Follows Highest Between FollowsK GrowsK Alike Odd Far Emitted\nCHECK_DEADLOCK FALSE\n" % (6 if c.thorough else 5), workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc[::1 + len(sc) // 10000]:
            f.write(s + "\n")
    b = c.build("c29")
    for mode in ("replay", "rand"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, c.path("scen.ndjson")], t, timeout=600, cwd=c.mkdir(mode)):
            c.validate("EstimatorsTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C29", body)
