import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("BackgroundMC", "SPECIFICATION Spec\nCONSTANTS Sizes = %s\n Grids = %s\n Clips = {0, 1, 3}\n Radii = %s\n Emit = TRUE\nINVARIANTS Cover Flat Within Blind Shift Robust Emitted\nCHECK_DEADLOCK FALSE\n"
                       % (("{3, 4, 6, 7}", "{1, 2, 3, 9}", "{2, 5, 40}") if c.thorough else ("{4, 6}", "{2, 3, 9}", "{2, 40}")), workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    b = c.build("c23")
    for mode in ("replay", "rand"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, c.path("scen.ndjson")], t, timeout=600, cwd=c.mkdir(mode)):
            c.validate("BackgroundTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C23", body)
