"""C25: the hash ring."""
import framework as fw
import gen_ring, vlib

MC = [("nodes", "find addn remn setns", 3, 2, 4, 5), ("overrides", "find addn addo remo seto", 2, 2, 4, 5), ("all", "find addn remo addos seto clear", 2, 2, 4, 5),
      ("three", "find addn seto", 2, 3, 3, 4)]


def cfg(kinds, nk, th, ops):
    return """SPECIFICATION Spec
CONSTANTS NK = %d
 Threads = {%s}
 Ops = %d
 Kinds = {%s}
 Vals = {7, 8}
INVARIANTS FindOk OwnerOk NoLock Live
PROPERTY Moves
CHECK_DEADLOCK FALSE
""" % (nk, ",".join(str(i + 1) for i in range(th)), ops, ",".join('"%s"' % k for k in kinds.split()))


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for name, kinds, nk, th, q, t in MC:
        fw.design(res, name, "RingMC", cfg(kinds, nk, th, t if thorough else q), timeout=3000)
    scripts = gen_ring.scripts(6000 if thorough else 900, seed, prefix="q-")
    traces = []

    def go(name, scripts):
        byid = {s["id"]: s for s in scripts}
        traces = []
        runs = 0
        for r in vlib.run_harness("ring", scripts, timeout=3000):
            runs += r.get("runs", 1)
            for i, x in enumerate(r.get("traces", [dict(ev=r["ev"])])):
                traces.append(dict(id="%s#%d" % (r["id"], i), ev=x["ev"], script=r["id"], sched=x.get("sched")))
        res.runs += runs

        def again(t):
            r = vlib.run_harness("ring", [byid[t["script"]]], timeout=3000)
            return bool(r and r[0]["ev"])
        fw.check_traces(res, name, "RingTrace", traces, byid, "ring", rerun=again, bypid=True, chunk=300)
        res.parts[-1]["schedules"] = runs
    go("sequential", scripts)
    go("two threads", gen_ring.races(1200 if thorough else 120, seed, 2, 2, prefix="2-"))
    go("three threads", gen_ring.races(300 if thorough else 30, seed, 3, 2, prefix="3-"))
    return res
