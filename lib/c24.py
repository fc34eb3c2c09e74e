import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("HueMC", "SPECIFICATION Spec\nCONSTANTS MaxSteps = 2\n Emit = TRUE\nINVARIANTS Ranges Lightness Hues Greys Idle Ordered Never Halves Lawful Emitted\nCHECK_DEADLOCK FALSE\n", workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    if not c.thorough:
        sc = [s for i, s in enumerate(sc) if s.count('"t"') == 1 or (i + c.seed) % 4 == 0]
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    b = c.build("c24")
    for mode in ("replay", "rand"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, c.path("scen.ndjson")], t, timeout=600, cwd=c.mkdir(mode)):
            c.validate("HueTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C24", body)
