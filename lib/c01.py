import json, random
from vdrv import main

def body(c):
    c.assumptions = ["a started evaluation is observed when its function is entered, a finished one just before it returns",
                     "absence of a further start or return is observed after a quiet period (sound for alarms, best effort for misses)"]
    c.tlc_design("MaterializeImpl", """SPECIFICATION Spec
CONSTANTS MaxN = 3
 MaxLim = %d
 KindSet = {"ok", "nil", "e1"}
INVARIANT Inv
PROPERTY Refines
PROPERTY Terminates
""" % (3 if c.thorough else 2), workers=8)
    n = 4
    out = c.tlc_design("MaterializeMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 MaxLim = 4
 KindSet = {"ok", "nil", "e1", "e2"}
 Emit = TRUE
INVARIANT MInv
""" % n, workers=8)
    scheds = c.printed(out, "SCHED")
    uniq = {json.dumps(s, sort_keys=True): s for s in scheds}
    scheds = [uniq[k] for k in sorted(uniq)]
    small = [s for s in scheds if s["n"] <= 2]
    big = [s for s in scheds if s["n"] > 2]
    random.Random(c.seed).shuffle(big)
    take = small + big[: (20000 if c.thorough else 1500)]
    c.extra["schedules_generated_by_tlc"] = len(scheds)
    c.extra["schedules_replayed"] = len(take)
    with open(c.path("sched.ndjson"), "w") as f:
        for s in take:
            f.write(json.dumps(s) + "\n")
    h = c.build("c01")
    for mode, args in (("replay", ["replay", c.path("sched.ndjson")]), ("rand", ["rand"])):
        t = c.path(mode + ".ndjson")
        if c.record(h, args, t, timeout=800):
            c.validate("MaterializeTrace", t, parallel=4, grouped=True, timeout=600)

main("C01", body)
