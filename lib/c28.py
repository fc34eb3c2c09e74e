import json, os, random
from vdrv import main, VERIF
from c21 import cli
TR = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"

def body(c):
    out = c.tlc_design("EditorMC", "SPECIFICATION Spec\nCONSTANTS Most = %d\n Emit = TRUE\nINVARIANTS Walked Absent Counted Local Inside Later Emitted\nCHECK_DEADLOCK FALSE\n" % (4 if c.thorough else 3), workers=8, timeout=850)
    sc = sorted({json.dumps(s, sort_keys=True) for s in c.printed(out, "SCEN")})
    c.extra["scenarios_generated_by_tlc"] = len(sc)
    r = random.Random(c.seed)
    jobs = [json.loads(s) for s in sc]
    if len(jobs) > 20000:
        jobs = r.sample(jobs, 20000)
    # longer jobs out of blocks of the scenarios
    pool = {}
    for s in jobs:
        for x in s["ws"]:
            pool.setdefault(x["b"], []).append(x)
    for i in range(6000 if c.thorough else 800):
        def chain(n):
            return [dict(r.choice(pool[r.choice(sorted(pool))]), on=r.random() < 0.8) for _ in range(n)]
        ws = chain(r.randint(1, 9))
        for x in ws:
            if x["b"] == "nl_stack_stackBatches" and r.random() < 0.7:
                x["n"] = [[y for y in chain(r.randint(1, 4)) if y["b"] != x["b"]]]
        jobs.append({"ws": ws})
    with open(c.path("scen.ndjson"), "w") as f:
        for s in jobs:
            f.write(json.dumps(s) + "\n")
    prog = cli(c)
    b = c.build("c28")
    t = c.path("jobs.ndjson")
    if c.record(b, ["jobs", prog, os.path.join(VERIF, "harness", "c28", "editor.js"), c.path("scen.ndjson")], t, timeout=600, cwd=c.mkdir("jobs")):
        c.validate("EditorTrace", t, cfgtext=TR, parallel=8, timeout=800)

main("C28", body)
