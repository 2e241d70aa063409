"""Turns what the nodes said into a trace of the specification Dist."""
import json, re

GHOST, DEADT = 4, 5


def ent(e):
    """The identity a value of a script stands for, and the node it belongs to (0: every node)."""
    k = e[0]
    if k in ("p", "dp"):
        return "p%d" % e[1]
    if k in ("r", "dr"):
        return "r%d" % e[1]
    if k == "n":
        return "n%s" % json.dumps(e[1])
    return "d%s@%s" % (e[1], json.dumps(e[2]))


def pid_id(v):
    v = next(iter(v.values()))
    return v[0] if isinstance(v, list) else v


def build(net):
    sc = net.sc
    home = {}
    for st in sc["steps"]:
        if st["k"] == "spawn":
            home[st["a"]] = st["n"]
    refhome = {}
    sent = {}
    for st in sc["steps"]:
        for op in st.get("ops", []):
            if op["op"] == "alias":
                refhome[op["ref"]] = op["at"]
            if op["op"] == "send":
                sent[op["m"]] = op
    nodename = {}
    for t in [1, 2, 3, ["ghost", sc.get("ghost", 0)], ["dead", 0]]:
        k = t if isinstance(t, int) else (GHOST if t[0] == "ghost" else DEADT)
        if isinstance(t, int) and t > net.nn:
            continue
        if k == GHOST and not sc.get("ghost"):
            continue
        s = net.target(t)
        nm, addr = s.split("@")
        nodename["Node<%s, %s>" % (nm, addr)] = k
        nodename[s] = k

    def tg(t):
        return t if isinstance(t, int) else (GHOST if t[0] == "ghost" else DEADT)

    def pid(n, j):
        s = json.dumps(j)
        if "NotDistributed" in j:
            return next((a for a, (m, v) in net.pidjs.items() if m == n and pid_id(v) == j["NotDistributed"]), 99)
        # A node that has forgotten the other one, or is not distributed any more, can not tell whose it is.
        return net.names.get((n, s)) or net.names.get(s) or (0 if "NodeUnavailable" in j else 99)

    def enode(e):
        """Node an identity belongs to."""
        if e[0] in ("p", "dp"):
            return home.get(e[1], 0)
        if e[0] in ("r", "dr"):
            return refhome.get(e[1], 0)
        if e[0] == "n":
            return tg(e[1])
        return tg(e[2])

    def dest(d):
        if d["k"] == "n":
            return dict(k="n", nm=d["nm"], n=tg(d["n"]))
        if d["k"] == "a":
            return dict(k="a", ref=d["ref"], n=refhome.get(d["ref"], 0))
        if d["k"] == "st":
            e = d["e"]
            if e[0] in ("p", "dp"):
                return dict(k="p", q=e[1])
            if e[0] in ("r", "dr"):
                return dict(k="a", ref=e[1], n=refhome.get(e[1], 0))
            return dict(k="n", nm=e[1], n=tg(e[2]))
        q = d["p"]
        return dict(k="p", q=q["st"][1] if isinstance(q, dict) else q)

    def pq(q):
        return q["st"][1] if isinstance(q, dict) else q

    def conv(op):
        k = op["op"]
        o = dict(k=k)
        if k == "send":
            o.update(m=op["m"], ds=[dest(d) for d in op["ds"]],
                     kn=sorted({enode(e[:2] if e[-1] == "st" else e) for e in op.get("ids", []) if e[0] not in ("n", "dn")} - {0}))
        elif k in ("link", "unlink"):
            o.update(q=pq(op["p"]))
        elif k == "exit":
            o.update(q=pq(op["p"]), rs=op["rs"])
        elif k == "mon":
            o.update(ref=op["ref"], d=dest(op["d"]))
        elif k in ("demon", "unalias", "nodedemon"):
            o.update(ref=op["ref"])
        elif k == "alias":
            o.update(ref=op["ref"], reply=bool(op.get("reply")))
        elif k == "nodemon":
            o.update(ref=op["ref"], n=tg(op["n"]))
        elif k in ("connect", "disconnect", "forget"):
            o.update(n=tg(op["n"]))
        elif k == "trap":
            o.update(v=op["v"])
        elif k == "reg":
            o.update(nm=op["nm"])
        elif k == "gcall":
            o.update(ref=op["ref"], d=dest(op["d"]), m=op["m"], act=op["act"], to=op["to"])
        elif k == "cast":
            a = op["act"].split()
            o.update(d=dest(op["d"]), m=op["m"], late=int(a[1]) if len(a) > 1 else 0)
        return o

    # Who owns the index of a store.
    storeent = {}
    out = []
    skip = set()
    evs = sorted(net.ev, key=lambda e: e["t"])
    for e in evs:
        o, t = e["o"], (e["t"] - net.t0) // 1000
        n = e.get("n")
        if o in ("call", "ret"):
            op = net.ops[e["c"]]
            if "at" not in op:
                continue
            p = op["a"]
            if o == "call":
                out.append(dict(o="call", p=p, op=conv(op), t=t))
            else:
                r = e["r"]
                if op["op"] == "gcall":
                    r = dict(k=r["k"], m=r.get("m", 0), rs=r.get("rs", ""))
                elif op["op"] in ("unalias", "reg"):
                    r = dict(k="ok", m=1 if r else 0, rs="")
                else:
                    r = dict(k="ok", m=0, rs="")
                out.append(dict(o="ret", p=p, r=r, t=t))
        elif o == "msg":
            k = e["k"]
            it = dict(k=k)
            if k == "u":
                ids = []
                want = [x[:-1] if x[-1] == "st" else x for x in sent.get(e["m"], {}).get("ids", [])]
                # positions of values of several kinds may repeat
                for x, w in zip(e["ids"], want):
                    storeent[(n, x["i"])] = w
                    net_e = ent(w)
                    names = lambda l: sorted({ent(storeent[(n, j)]) for j in l if (n, j) in storeent})
                    ids.append(dict(e=net_e, n=enode(w), loc=x["loc"], eq=names(x["eq"]), ne=names(x["ne"]),
                                    oeq=["p%d" % j for j in sorted(x["oeq"]) if j], one=["p%d" % j for j in sorted(x["one"]) if j]))
                size = sent.get(e["m"], {}).get("len", 0)
                it.update(m=e["m"], ok=bool(e["ok"]) and len(e["ids"]) == len(want) and e["len"] == size, ids=ids)
            elif k == "x":
                it.update(**{"from": pid(n, e["from"]), "rs": e["rs"]})
            elif k == "d":
                d = e["dest"]
                if "Pid" in d:
                    dd = dict(k="p", q=pid(n, d["Pid"]))
                elif "Named" in d:
                    x = d["Named"][1]
                    if x["address"] is None or x["name"] == net.agents[n].name and x["address"].endswith(":%d" % net.agents[n].bcast):
                        dd = dict(k="n", nm=d["Named"][0], n=n)
                    else:
                        dd = dict(k="n", nm=d["Named"][0], n=nodename.get("%s@%s" % (x["name"], x["address"]), 99))
                else:
                    dd = dict(k="?")
                it.update(ref=e["ref"], d=dd, rs=e["rs"])
            else:
                it.update(ref=e["ref"], n=nodename.get(e["node"], 99))
            out.append(dict(o="msg", p=e["a"], it=it, t=t))
        elif o == "srv":
            out.append(dict(o="srv", p=e["a"], k=e["k"], m=e["m"], t=t))
        elif o == "gone":
            out.append(dict(o="gone", p=e["a"], t=t))
        elif o == "spawn":
            out.append(dict(o="spawn", p=e["a"], n=n, trap=e["trap"], srv=e["srv"], t=t))
        elif o == "snap":
            ns = []
            for x in e["nodes"]:
                def nl(l):
                    return sorted(nodename.get(y, 99) for y in l)
                own = "Node<%s, 127.0.0.1:%d>" % (net.agents[x["n"]].name, net.agents[x["n"]].bcast)
                ns.append(dict(n=x["n"], on=x["on"], all=nl(x["all"]), known=nl(x["known"]), conn=nl(x["conn"]), pend=nl(x["pend"]),
                               cur=x["cur"] == ([own] if x["on"] else []),
                               info=[dict(p=y["a"], trap=y["trap"], nm=y["nm"], links=sorted(pid(x["n"], z) for z in y["links"]),
                                          monby=sorted(pid(x["n"], z) for z in y["monby"])) for y in sorted(x["info"], key=lambda y: y["a"])]))
            out.append(dict(o="snap", nodes=ns, t=t))
        elif o in ("start", "kill"):
            out.append(dict(o=o, n=n, t=t))
        elif o == "cookie":
            out.append(dict(o=o, n=n, v=e["v"], t=t))
        elif o in ("cut", "half"):
            out.append(dict(o=o, x=e["x"], y=e["y"], t=t))
        elif o in ("refuse", "stall"):
            out.append(dict(o=o, x=e["x"], y=e["y"], on=e["on"], t=t))
        elif o in ("raw", "rawend"):
            out.append(dict(o=o, id=e["id"], n=n, kind=e.get("kind", ""), t=t))
        elif o == "gap":
            out.append(dict(o="gap", x=e["x"], y=e["y"], max=e["max"], c=e["n"], w=e["w"], t=t))
        elif o in ("replay", "replayend"):
            out.append(dict(o=o, n=n, of=e["of"], t=t))
        elif o in ("noquiet", "hang", "end"):
            out.append(dict(o=o, t=t))
    cfg = dict(phys=[1, 2, 3, sc.get("ghost", 0), 0], nodes=[dict(hs=c["hs"], int=c["int"], to=c["to"]) for c in sc["nodes"]] +
               [dict(hs=5000, int=5000, to=45000)] * (3 - net.nn), slack=sc.get("slack", 400), nn=net.nn)
    return dict(id=sc["id"], ev=out, cfg=cfg)
