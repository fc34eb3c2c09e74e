import json
from vdrv import main, REPO
from c21 import cli
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    cfg = "SPECIFICATION Spec\nCONSTANTS Wave = %d\n Emit = TRUE\n Mixed = FALSE\nINVARIANTS Own Whole Idle Statuses Emitted\nPROPERTIES Done\nCHECK_DEADLOCK FALSE\n"
    out = c.tlc_design("ServerMC", cfg % (3 if c.thorough else 2), workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    prog = cli(c, race=True)
    b = c.build("c22")
    for mode in ("replay", "rand", "long"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, prog, REPO, c.path("scen.ndjson")], t, timeout=850 if c.thorough else 400, cwd=c.mkdir(mode)):
            c.validate("ServerTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C22", body)
