"""C20 to C24: distributed nodes, each a process of its own, connected through a proxy."""
import sys

import dist, framework as fw, gen_dist, vlib

ALL = ("InOrder Once AllArrive AtMostOnce Stands Forgotten Known BothWays Told TellOnce ViewOk OneEach Agreed Settled Trusted OffOk Healthy "
       "Noticed NotStuck")


def mc(kinds, faults="", ops=2, mf=0, maxt=1, same=True, trap=True, n=2):
    return """SPECIFICATION Spec
CONSTANTS N = %d
 MaxP = %d
 Kinds = {%s}
 Faults = {%s}
 MaxOps = %d
 MaxFaults = %d
 MaxT = %d
 Same = %s
 Trap = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
""" % (n, 2 * n, ",".join('"%s"' % k for k in kinds.split()), ",".join('"%s"' % k for k in faults.split()), ops, mf, maxt,
       str(same).upper(), str(trap).upper(), ALL)


MC = {
    "C20": [("messages", mc("connect send sendname disconnect", "cut", 3, 1), mc("connect send sendname sendall disconnect ret", "cut refuse", 4, 1)),
            ("three", None, mc("connect send ret", "cut", 3, 1, n=3))],
    "C21": [("links", mc("connect link unlink ret", "cut", 3, 1), mc("connect link linkback unlink exit ret disconnect", "cut kill", 3, 1)),
            ("monitors", mc("connect mon monname demon ret", "cut", 2, 1), mc("connect mon monname demon ret", "cut kill", 3, 1)),
            ("plain", None, mc("link linkback exit ret", "cut kill", 3, 1, trap=False))],
    "C22": [("peers", mc("connect disconnect forget nodemon nodedemon", "", 3), mc("connect disconnect forget nodemon nodedemon", "cut kill refuse", 3, 1)),
            ("strangers", mc("connect ghost nodemon", "refuse accept", 2, 2), mc("connect ghost nodemon", "refuse accept", 3, 2)),
            ("cookies", mc("connect send nodemon", "cut", 2, 1, same=False), mc("connect send nodemon link stop", "start cut", 3, 2, same=False)),
            ("stop", mc("connect stop nodemon", "start", 3, 1), mc("connect stop link mon nodemon", "start", 3, 2))],
    "C23": [("travel", mc("connect send mon link", "", 3), mc("connect send mon link exit", "cut", 3, 1))],
    "C24": [("silence", mc("connect", "half stall flow", 1, 1, maxt=12), mc("connect send", "stall flow", 2, 2, maxt=12)),
            ("waiting", mc("connect nodemon", "stall", 2, 1, maxt=8), mc("connect nodemon link", "stall half", 2, 1, maxt=12))],
}
COUNT = {"C20": 720, "C21": 900, "C22": 900, "C23": 900, "C24": 320}


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for name, q, t in MC[prop]:
        c = t if thorough else q
        if c:
            fw.design(res, name, "DistMC", c, timeout=3000, mem="12g" if thorough else "6g")
    scripts = gen_dist.gen(prop, seed, COUNT[prop] * (8 if thorough else 1))
    byid = {s["id"]: s for s in scripts}
    traces = dist.run(scripts, 8, 3)
    res.runs += len(traces)
    first = vlib.validate("DistTrace", traces, chunk=24)
    bad = first[0]
    sure = []
    for t, i, msg in bad[:10]:
        if len(sure) >= 2:
            break
        # The machine may have been slow: what is rejected has to be rejected again.
        again = dist.run([dict(byid[t["id"]], id="%s#%d" % (t["id"], j)) for j in range(4)], 2, 2)
        b, _ = vlib.validate("DistTrace", again, chunk=4)
        if b:
            sure.append(t)
        else:
            print("note: the rejection of %s at %d did not repeat" % (t["id"], i), file=sys.stderr)
    rejected = {id(t) for t, _, _ in bad}
    good = [t for t in traces if id(t) not in rejected]
    keep = {id(t) for t in sure}
    fw.check_traces(res, "nodes", "DistTrace", sure + good, byid, "node", done=([b for b in bad if id(b[0]) in keep], first[1]))
    return res
