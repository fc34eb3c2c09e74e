import json
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    ps, ws = ("{0,1,5,25,37,50,66,75,90,99,100}", "{0,1,2,3,4,5,6,7,8,9}") if c.thorough else ("{0,5,37,50,90,100}", "{0,1,2,3,4,5,9}")
    out = c.tlc_design("DebandMC", "SPECIFICATION Spec\nCONSTANTS Percents = %s\n Windows = %s\n Emit = TRUE\nINVARIANTS Transposed Even Single Doubled Ratios Reached Restored Idle Emitted\nCHECK_DEADLOCK FALSE\n" % (ps, ws), workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    with open(c.path("scen.ndjson"), "w") as f:
        for s in sc:
            f.write(s + "\n")
    b = c.build("c27")
    for mode in ("replay", "rand"):
        t = c.path(mode + ".ndjson")
        if c.record(b, [mode, c.path("scen.ndjson")], t, timeout=600, cwd=c.mkdir(mode)):
            c.validate("DebandTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C27", body)
