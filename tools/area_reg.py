"""C18, C19: registries."""
import framework as fw
import gen_reg, vlib

W = {
    "C18": dict(los=14, start=8, exit=9, end=3, err=0.25, slow=0.35, gstop=0.3, exitreg=0.4, burst=0.65),
    "C19": dict(remove=9, stop=7, gstop=3, exitreg=2, parent=0.8, again=2.5, drop=1.5, name=0.7, burst=0.75, trapkid=0.5, sh=(-2, -1, 10, 20)),
}

# one key and a registry that is often busy: what happens to a key while its process is replaced
ONEKEY = dict(nkeys=1, slow=0.6, burst=0.85, name=0.5, los=10, start=10, stop=3, remove=9, exit=9, end=4, count=0.5, list=1, lookup=2, gstop=0.2, exitreg=0.2, parent=0.1, again=0.2, drop=0.1)
# processes that take long to end
LONG = dict(long=0.4, trapkid=0.8, stop=8, gstop=3, adv=8, sh=(-2, -1, -1, 250, 300), nkeys=2)

INV = "OnePerKey NobodyLeft RemovedStay TabOk Gone"
MC = {
    "C18": [("keys", (5, 3, ["los", "exit", "fail"], [-2]), (6, 4, ["los", "start", "lookup", "exit", "fail", "remove"], [-2, 1]))],
    "C19": [("end", (5, 3, ["los", "remove", "gstop"], [-2, 1]), (6, 4, ["los", "remove", "stop", "gstop", "kill", "exit"], [-2, -1, 1])),
            ("killed", (5, 3, ["los", "stop", "kill"], [-2, 1]), (5, 4, ["los", "stop", "kill", "gstop"], [-2, 1]))],
}


def cfg(p, ops, kinds, sh):
    return """SPECIFICATION Spec
CONSTANTS MaxP = %d
 MaxOps = %d
 MaxTime = 2
 Kinds = {%s}
 Shut = {%s}
INVARIANTS %s
CHECK_DEADLOCK FALSE
""" % (p, ops, ",".join('"%s"' % k for k in kinds), ",".join(str(x + 3) for x in sh), INV)


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for name, q, t in MC[prop]:
        fw.design(res, name, "RegMC", cfg(*(t if thorough else q)), timeout=3000)
    n = 10000 if thorough else 2000
    scripts = gen_reg.scripts(n, seed, W[prop], prefix=prop.lower() + "-")
    scripts += gen_reg.scripts(n // 4, seed, None, prefix="any-")
    scripts += gen_reg.scripts(n // 3, seed, ONEKEY if prop == "C18" else LONG, prefix="key-" if prop == "C18" else "long-")
    traces = vlib.run_harness("core", scripts)
    res.runs += len(traces)
    byid = {s["id"]: s for s in scripts}

    def again(t):
        r = vlib.run_harness("core", [byid[t["id"]]])
        return r[0]["ev"] and r[0]["ev"][-1].get("o") in ("hang", "crash")
    fw.check_traces(res, "sequential", "RegTrace", traces, byid, "core", rerun=again, bypid=True, chunk=100)
    return res
