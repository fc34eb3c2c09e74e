import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("SaveMC", "SPECIFICATION Spec\nCONSTANTS Blocks = %d\n Emit = TRUE\n Forgets = FALSE\nINVARIANTS Complete Nothing Apart OwnFile Emitted\nPROPERTIES Settled\nCHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 3), workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    b = c.build("c16")
    for mode in ("replay", "rand"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, c.path("scen.ndjson")], t, timeout=300, cwd=c.mkdir(mode)):
            c.validate("SaveTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C16", body)
