"""C01-C10: the process runtime on one node."""
import framework as fw
import gen_conc, gen_core, vlib

# Emphasis per property for the random scripts.
W = {
    "C01": dict(send=20, multisend=10, aliassend=6, register=4, alias=3, exit=2, ret=1.5, link=1, monitor=1, recv=12),
    "C02": dict(send=25, recv=22, recvt=6, recvb=4, remove=4, multisend=4, exit=2, monitor=2, link=2, trap=3, sendafter=2, demonitor=1),
    "C03": dict(exit=14, trap=6, link=4, monitor=6, alive=6, panic=3, ret=3, recv=8, send=3, spawn=6),
    "C04": dict(link=14, unlink=7, spawn=8, exit=4, panic=3, ret=3, trap=5, monitor=1, send=2, recv=6),
    "C05": dict(monitor=16, demonitor=8, spawn=6, exit=4, ret=3, panic=3, register=4, unregister=1, recv=12, recvt=3, send=2),
    "C06": dict(register=20, unregister=8, whereis=6, exit=3, ret=4, panic=2, spawn=6, send=6, recv=3, link=1, monitor=2),
    "C07": dict(exit=5, ret=4, panic=4, spawn=7, link=5, monitor=6, register=5, trap=4, alive=5, listed=3, whereis=4),
    "C08": dict(spawn=16, alive=5, listed=3, send=6, register=4, monitor=4, link=4, ret=3, exit=3, trap=3),
    "C09": dict(alias=8, unalias=6, aliassend=18, monitor=8, demonitor=4, exit=3, ret=3, send=3, recv=10),
    "C10": dict(sendafter=16, cancel=6, readt=6, adv=3.5, send=3, exit=2, ret=2, recv=8, register=3, alias=2, recvt=3),
}

INV = ("Names Announce OneReason MonOnce MonFired LinkOnce LinkFired Unlinked Clean MsgOnce TimerOk ReplyOnce AliasDown "
       "Order Rest")


def cfg(kinds, ops, trapping="", reasons='"c:x"', maxp=3):
    return """SPECIFICATION Spec
CONSTANTS MaxP = %d
 MaxOps = %d
 Kinds = {%s}
 Reasons = {%s}
 Nms = {"a"}
 Trapping = {%s}
INVARIANTS %s
PROPERTY Stays
CHECK_DEADLOCK FALSE
""" % (maxp, ops, ",".join('"%s"' % k for k in kinds.split()), reasons, trapping, INV)


R3 = '"c:x","kill","normal"'
# property -> [(kinds, quick ops, thorough ops, trapping, reasons)]
MC = {
    "C01": [("send send2 register alias ret", 3, 4, "", '"c:x"')],
    "C02": [("send recv remove send2", 5, 6, "1", '"c:x"')],
    "C03": [("exit link monitor ret panic", 3, 4, "1", '"c:x","kill","normal","ignore"')],
    "C04": [("link unlink ret panic spawn", 4, 5, "1", '"c:x"')],
    "C05": [("monitor demonitor ret spawn", 4, 5, "", '"c:x"')],
    "C06": [("register unregister ret exit spawn", 4, 5, "", '"c:x"')],
    "C07": [("link monitor register ret exit", 3, 4, "1", '"c:x"')],
    "C08": [("spawn ret link monitor register", 3, 4, "1", '"c:x"')],
    "C09": [("alias unalias monitor demonitor send ret", 4, 5, "", '"c:x"')],
    "C10": [("sendafter cancel ret send", 4, 5, "", '"c:x"')],
}


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for kinds, q, t, trapping, reasons in MC[prop]:
        fw.design(res, kinds, "CoreMC", cfg(kinds, t if thorough else q, trapping, reasons), timeout=2400)

    n = 12000 if thorough else 2000
    scripts = gen_core.scripts(n, seed, W[prop], prefix=prop.lower() + "-")
    scripts += gen_core.scripts(n // 4, seed, None, prefix="any-")
    traces = vlib.run_harness("core", scripts)
    res.runs += len(traces)
    byid = {s["id"]: s for s in scripts}

    def again(t):
        r = vlib.run_harness("core", [byid[t["id"]]])
        return r[0]["ev"] and r[0]["ev"][-1].get("o") in ("hang", "crash")
    fw.check_traces(res, "sequential", "CoreTrace", traces, byid, "core", rerun=again)

    conc = gen_conc.scripts(prop, 2, 4000 if thorough else 500, 2000 if thorough else 80, seed)
    for s in conc:
        s["free"] = 2000 if thorough else 40
    conc_run(res, conc)
    if prop in IDENT:
        ident_run(res, thorough)
    return res


# Properties that rely on every identity being a new one.
IDENT = ("C05", "C08", "C09", "C10")


def ident_run(res, thorough):
    """Threads that run truly at the same time create identities in tight loops."""
    sc = [dict(id="ident-%d" % i, threads=8, n=300, rounds=40 if thorough else 8) for i in range(6 if thorough else 1)]
    sc.append(dict(id="ident-2", threads=2, n=500, rounds=40 if thorough else 6))
    byid = {s["id"]: s for s in sc}
    traces = vlib.run_harness("ident", sc, jobs=1, timeout=800)
    res.runs += len(traces)

    def again(t):
        r = vlib.run_harness("ident", [byid[t["id"]]], jobs=1, timeout=800)
        return bool(r) and r[0]["ev"][-1].get("o") in ("hang", "crash")
    fw.check_traces(res, "identities", "IdentTrace", traces, byid, "ident", chunk=1, rerun=again)


def conc_run(res, conc):
    byid = {s["id"]: s for s in conc}
    out = vlib.run_harness("conc", conc, timeout=2400)
    traces = []
    runs = 0
    for r in out:
        runs += r.get("runs", 0)
        if r["ev"]:
            # hang or crash
            traces.append(dict(id=r["id"], ev=r["ev"], script=r["id"], sched=r.get("sched")))
        for i, x in enumerate(r.get("traces", [])):
            traces.append(dict(id="%s#%d" % (r["id"], i), ev=x["ev"], script=r["id"], sched=x["sched"]))
    res.runs += runs

    def again(t):
        s = byid[t["script"]]
        r = vlib.run_harness("conc", [s], timeout=2400)
        return bool(r and r[0]["ev"])
    fw.check_traces(res, "concurrent", "CoreConc", traces, byid, "conc", rerun=again)
    res.parts[-1]["scenarios"] = len(conc)
    res.parts[-1]["schedules"] = runs
