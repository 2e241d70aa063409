"""C11, C12: GenServers."""
import framework as fw
import gen_gs, vlib

W = {
    "C11": dict(gcall=20, greply=8, gcast=5, send=5, recv=4, recvs=1.5, gstart=2.5, exit=2, gstop=1, par=8),
    "C12": dict(gstart=9, gstop=6, exit=5, gcast=8, gcall=6, monitor=3, link=2, unlink=0.7, send=2, ret=1.2, whereis=2, register=1.5, gcastafter=2),
}

INV = "OwnReply NothingLeft OneTerm TermReason StartResult NameFree StopOk InOrder"
MC = {
    "C11": [("call reply send", 3, 4), ("call ret", 3, 4), ("call cast exit", 3, 4), ("par exit", 3, 4)],
    "C12": [("call stop trap", 3, 4), ("cast stop trap exit", 3, 4), ("cast call exit ret", 3, 4)],
}


def cfg(kinds, ops):
    return """SPECIFICATION Spec
CONSTANTS MaxP = 3
 MaxOps = %d
 MaxTime = 2
 Kinds = {%s}
INVARIANTS %s
CHECK_DEADLOCK FALSE
""" % (ops, ",".join('"%s"' % k for k in kinds.split()), INV)


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for kinds, q, t in MC[prop]:
        fw.design(res, kinds, "GenMC", cfg(kinds, t if thorough else q), timeout=2400)
    n = 16000 if thorough else 2400
    scripts = gen_gs.scripts(n, seed, W[prop], prefix=prop.lower() + "-")
    scripts += gen_gs.scripts(n // 4, seed, None, prefix="any-")
    traces = vlib.run_harness("core", scripts)
    res.runs += len(traces)
    byid = {s["id"]: s for s in scripts}

    def again(t):
        r = vlib.run_harness("core", [byid[t["id"]]])
        return r[0]["ev"] and r[0]["ev"][-1].get("o") in ("hang", "crash")
    fw.check_traces(res, "sequential", "GenTrace", traces, byid, "core", rerun=again)
    return res
