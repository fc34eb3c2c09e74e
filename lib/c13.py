import json, random
from vdrv import main
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    def scen(name, out, most=None):
        sc = sorted(c.printed(out, "SCEN"), key=lambda s: json.dumps(s, sort_keys=True))
        c.extra["scenarios_" + name] = len(sc)
        random.Random(c.seed).shuffle(sc)
        with open(c.path(name + "-scen.ndjson"), "w") as f:
            for s in (sc[:most] if most else sc):
                f.write(json.dumps(s) + "\n")
        return c.path(name + "-scen.ndjson")
    p = scen("project", c.tlc_design("ResampleMC", "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\n MaxSize = 3\nINVARIANTS Last Identity Exact Weights Emitted\nCHECK_DEADLOCK FALSE\n",
                                     workers=8), None if c.thorough else 12000)
    t = scen("three", c.tlc_design("GeometryMC", "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\n Coords = {0, 1, 3}\nINVARIANTS Solvable Maps Emitted\nCHECK_DEADLOCK FALSE\n", workers=8))
    g = scen("gate", c.tlc_design("AlignGateMC", "SPECIFICATION Spec\nCONSTANTS Emit = TRUE\n MaxCalls = 2\nINVARIANTS NeverTrusted NeverLost Sticky Emitted\nCHECK_DEADLOCK FALSE\n",
                                  workers=8), None if c.thorough else 500)
    h = c.build("c13")
    for mode, args in (("project", [p]), ("three", [t]), ("gate", [g]), ("rand", []), ("stars", []), ("steps", [])):
        tf = c.path(mode + ".ndjson")
        if c.record(h, [mode] + args, tf, timeout=800 if c.thorough else 200, cwd=c.mkdir(mode)):
            c.validate("AlignTrace", tf, cfgtext=TR, parallel=8, grouped=True)

main("C13", body)
