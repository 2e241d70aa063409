"""C13 to C17: supervisors."""
import framework as fw
import gen_sup, vlib

W = {
    "C13": dict(exit=14, end=6, selfend=0.4, err=0.2, which=4, start=1, term=1, restart=1, delete=0.6, stop=0.2, exitsup=0.1, parent=0.1, auto=(6, 1, 1)),
    "C14": dict(exit=14, end=5, selfend=0.6, err=0.3, adv=8, which=3, start=1, term=1, restart=1, delete=0.3, restartk=(6, 3, 1), stop=0.1, exitsup=0.1, parent=0.1, auto=(9, 1, 1)),
    "C15": dict(stop=3, exitsup=1, parent=1.5, exit=4, trapkid=0.6, err=0.2, initfail=0.6, slow=0.3, server=0.3, sup=0.2),
    "C16": dict(start=7, term=7, restart=7, delete=6, which=6, count=4, exit=5, err=0.25, ign=0.2, badid=0.2, restartk=(2, 2, 4), burst=0.5),
    "C17": dict(auto=(1, 4, 4), sig=0.7, restartk=(1, 4, 4), exit=12, end=6, term=2, start=2, burst=0.4),
}

# the window of the restart limit: few children, many deaths at all kinds of times
LIMIT = dict(exit=12, end=4, adv=14, which=2, count=0.5, start=0.2, term=0.6, restart=0.6, delete=0.1, stop=0.05, exitsup=0.05, parent=0.05, monitor=0.2, selfend=0.75, err=0.15,
             ign=0.02, slow=0.1, trapkid=0.05, server=0.03, sup=0.0, nkids=(1, 1, 2), nstarts=(3, 5, 7), maxr=(1, 2, 2, 3, 3, 4), maxd=(10, 15, 20, 25, 30, 40), restartk=(6, 1, 0.3),
             auto=(1, 0, 0), initfail=0.02, burst=0.1)

# shutdowns that take longer than the default timeouts
LONG = dict(long=0.5, trapkid=0.8, stop=2, adv=8, exit=4, sup=0.25, server=0.1, slow=0.1, err=0.05, term=2, delete=0.5, monitor=0.3)
# starts that fail again and again while other children end
RETRY = dict(err=0.45, initfail=0.02, nstarts=(3, 4, 6), slow=0.4, exit=14, end=6, adv=7, which=5, count=0.5, start=0.5, term=1.5, restart=1.5, delete=0.5, stop=0.1, exitsup=0.1,
             parent=0.1, monitor=0.2, restartk=(3, 5, 2), sig=0.7, auto=(2, 1, 3), maxr=(3, 4, 6, 9), strat=(1, 2, 2), nkids=(2, 3, 3, 4), sup=0.0, server=0.03, burst=0.45)

INV = "OneLive Policy Limit RevOrder NobodyLeft OneByOne Auto NoAuto"


def cfg(p, ops, time, kinds, strats, autos, restarts, maxrs, sh, api=()):
    q = lambda xs: "{%s}" % ",".join('"%s"' % x for x in xs)
    return """SPECIFICATION Spec
CONSTANTS MaxP = %d
 MaxOps = %d
 MaxTime = %d
 Kinds = %s
 Strats = %s
 Autos = %s
 Restarts = %s
 MaxRs = {%s}
 Trapping = {%s}
 Api = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
""" % (p, ops, time, q(kinds), q(strats), q(autos), q(restarts), ",".join(map(str, maxrs)), ",".join(str(x + 3) for x in sh), q(api), INV)


ALL3 = ["one_for_one", "one_for_all", "rest_for_one"]
KINDS3 = ["permanent", "transient", "temporary"]
# name -> quick cfg args, thorough cfg args
MC = {
    "C13": [("policies", (7, 2, 1, ["exit"], ALL3, ["never"], KINDS3, [1, 2], [-1]), (9, 3, 1, ["exit"], ALL3, ["never"], KINDS3, [1, 2], [-1])),
            ("failing", (7, 1, 1, ["exit", "fail"], ALL3, ["never"], ["permanent", "transient"], [2], [-1]), (8, 2, 1, ["exit", "fail", "ignore"], ALL3, ["never"], KINDS3, [2], [-1]))],
    "C14": [("limit", (9, 3, 3, ["exit", "fail"], ["one_for_one"], ["never"], ["permanent"], [0, 1, 2], [-1]), (10, 4, 3, ["exit", "fail"], ["one_for_one"], ["never"], ["permanent", "transient"], [0, 1, 2], [-1]))],
    "C15": [("order", (6, 2, 2, ["exit", "stop", "fail"], ["one_for_one"], ["never"], ["transient"], [1], [-1, 1, -2]), (8, 3, 2, ["exit", "stop", "fail", "exitsup"], ALL3, ["never"], ["permanent", "transient"], [1], [-1, 1, -2]))],
    "C16": [("api", (7, 2, 0, ["api", "exit"], ["one_for_one"], ["never"], KINDS3, [1], [-1], ["start", "term", "restart", "delete"]),
             (8, 3, 0, ["api", "exit", "fail"], ["one_for_one", "one_for_all"], ["never"], KINDS3, [1], [-1], ["start", "term", "restart", "delete"]))],
    "C17": [("auto", (7, 2, 0, ["exit"], ALL3, ["never", "any", "all"], KINDS3, [1], [-1]), (9, 3, 0, ["exit", "api"], ALL3, ["any", "all"], KINDS3, [2], [-1], ["term"]))],
}
N = (1500, 10000)


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for name, q, t in MC[prop]:
        fw.design(res, name, "SupMC", cfg(*(t if thorough else q)), timeout=3000)
    n = N[thorough]
    scripts = gen_sup.scripts(n, seed, W[prop], prefix=prop.lower() + "-")
    scripts += gen_sup.scripts(n // 3, seed, None, prefix="any-")
    if prop in ("C13", "C16", "C17"):
        scripts += gen_sup.scripts(n // 2, seed, dict(W[prop], **RETRY), prefix="retry-")
    if prop == "C15":
        scripts += gen_sup.scripts(n // 2, seed, LONG, prefix="long-")
    if prop == "C14":
        scripts += gen_sup.scripts(n, seed, LIMIT, prefix="limit-", steps=14)
    traces = vlib.run_harness("core", scripts)
    res.runs += len(traces)
    byid = {s["id"]: s for s in scripts}

    def again(t):
        r = vlib.run_harness("core", [byid[t["id"]]])
        return r[0]["ev"] and r[0]["ev"][-1].get("o") in ("hang", "crash")
    fw.check_traces(res, "sequential", "SupTrace", traces, byid, "core", rerun=again, bypid=True, chunk=100)
    return res
