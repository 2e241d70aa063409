"""C28: semaphores and tasks."""
import framework as fw
import gen_sema, vlib

MC = {"C28": [("permits", (3, 6, "req try rel give kill can ret", 2, "1,2"), (3, 8, "req try rel give kill can ret", 2, "0,1,2")),
              ("tasks", (3, 6, "req rel ret aw shut kill", 1, "1"), (4, 7, "req rel ret aw shut kill", 2, "1,2"))]}


def cfg(maxp, ops, kinds, total, sizes):
    return """SPECIFICATION Spec
CONSTANTS MaxP = %d
 MaxOps = %d
 Kinds = {%s}
 Total = %d
 Sizes = {%s}
INVARIANTS NoOver NoIdle InOrder DeadFree Ended
CHECK_DEADLOCK FALSE
""" % (maxp, ops, ",".join('"%s"' % k for k in kinds.split()), total, sizes)


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for name, q, t in MC[prop]:
        fw.design(res, name, "SemaMC", cfg(*(t if thorough else q)), timeout=3000)
    scripts = gen_sema.scripts(20000 if thorough else 2500, seed, prefix="x-")
    traces = vlib.run_harness("sema", scripts, timeout=1500)
    res.runs += len(traces)
    byid = {s["id"]: s for s in scripts}

    def again(t):
        r = vlib.run_harness("sema", [byid[t["id"]]])
        return r[0]["ev"] and r[0]["ev"][-1].get("o") in ("hang", "crash")
    fw.check_traces(res, "sequential", "SemaTrace", traces, byid, "sema", rerun=again, bypid=True)
    return res
