"""Random scripts for GenServers and their clients."""
import random

REASONS = ["normal", "c:r1", "c:r2", "c:shutdown", "ignore", "kill"]
NAMES = ["a", "b"]
ANY = dict(u=-1, x=True, d=True, strict=False)


class Gen:
    def __init__(self, rng, weights=None, steps=12):
        self.r = rng
        self.w = dict(gstart=3, gcall=12, gcast=6, gcastafter=1.5, greply=4, gstop=2, exit=2, trap=1, send=3, recv=3, recvs=0.7,
                      link=0.7, monitor=1, unlink=0.3, adv=2.5, ret=0.5, whereis=0.6, register=0.4, unregister=0.3, sleep=0.7, alive=0.4, par=2.5)
        if weights:
            self.w.update(weights)
        self.steps = steps
        self.np = self.nm = self.nref = 0
        self.clients, self.servers, self.calls, self.mons = [], [], [], {}
        self.left = []

    def m(self):
        self.nm += 1
        return self.nm

    def ref(self):
        self.nref += 1
        return self.nref

    def proc(self):
        return self.r.choice(self.clients + self.servers)

    def rs(self, kinds=None):
        return self.r.choice(kinds or REASONS[:4])

    def sdest(self):
        r = self.r
        if r.random() < 0.3 or not self.servers:
            return ["name", 0, r.choice(NAMES)]
        return ["pid", r.choice(self.servers if r.random() < 0.9 else self.servers + self.clients), ""]

    def cb_ops(self, srv_ok=True, depth=0):
        """Operations inside a callback."""
        r = self.r
        out = []
        x = r.random()
        if x < 0.55:
            return out
        if x < 0.75:
            out.append(dict(o="sleep", ms=r.choice([5, 10, 10, 20, 30])))
        elif x < 0.80 and self.clients:
            out.append(dict(o="send", dests=[["pid", r.choice(self.clients), ""]], ty="S", m=self.m(), vec=False))
        elif x < 0.84 and self.calls:
            out.append(dict(o="greply", call=r.choice(self.calls[-4:]), m=self.m()))
        elif x < 0.88 and self.clients:
            out.append(dict(o="exit", q=self.proc(), rs=self.rs(REASONS)))
        elif x < 0.91:
            out.append(dict(o="trap", v=True))
        elif x < 0.94 and depth < 2 and self.servers:
            out.append(self.gcall(depth + 1))
        elif x < 0.97 and depth < 2:
            out.append(self.gcast(depth + 1))
        else:
            out.append(dict(o="panic", rs=r.choice(["c:boom", "c:static text"])))
        return out

    def gcall(self, depth=0):
        r = self.r
        m = self.m()
        ops = self.cb_ops(depth=depth)
        x = r.random()
        if x < 0.55:
            res = dict(k="reply", m=self.m())
        elif x < 0.68:
            res = dict(k="noreply")
        elif x < 0.80:
            ops = ops + [dict(o="greply", call=m, m=self.m())]
            res = r.choice([dict(k="noreply"), dict(k="noreply"), dict(k="reply", m=self.m()), dict(k="err", rs=self.rs())])
        else:
            res = dict(k="err", rs=self.rs())
        if r.random() < 0.1:
            ops = [dict(o="greply", call=m, m=self.m())] + ops
        self.calls.append(m)
        return dict(o="gcall", dest=self.sdest(), m=m, ref=self.ref(), ms=r.choice([-1, 5, 10, 10, 15, 20, 20, 40]), act=dict(ops=ops, r=res))

    def gcast(self, depth=0, after=False):
        r = self.r
        ds = [self.sdest() for _ in range(r.choice([1, 1, 1, 2, 3]))]
        # What is executed more than once makes no numbered requests.
        ops = self.cb_ops(depth=depth if len(ds) == 1 else 9)
        res = dict(k="ok") if r.random() < 0.9 else dict(k="err", rs=self.rs())
        o = dict(o="gcast", dests=ds, m=self.m(), act=dict(ops=ops, r=res))
        if after:
            o["o"] = "gcastafter"
            o["ms"] = r.choice([5, 10, 20])
            o["tm"] = self.ref()
        return o

    def gstart(self):
        r = self.r
        self.np += 1
        c = self.np
        self.servers.append(c)
        iops = []
        if r.random() < 0.35:
            iops.append(dict(o="trap", v=True))
        if r.random() < 0.3:
            iops.append(dict(o="sleep", ms=r.choice([5, 10, 20, 30])))
        x = r.random()
        if x < 0.05:
            iops.append(dict(o="panic", rs="c:initboom"))
        res = dict(k="ok") if x < 0.85 else dict(k="err", rs=self.rs())
        term = []
        if r.random() < 0.3:
            term.append(dict(o="sleep", ms=r.choice([5, 10, 20])))
        if r.random() < 0.05:
            term.append(dict(o="panic", rs="c:termboom"))
        info = dict(ops=self.cb_ops(depth=9) if r.random() < 0.3 else [], r=dict(k="ok") if r.random() < 0.85 else dict(k="err", rs=self.rs()))
        return dict(o="gstart", c=c, link=r.random() < 0.5, n=r.choice(NAMES) if r.random() < 0.5 else "", ms=r.choice([-1, -1, -1, 10, 20]),
                    init=dict(ops=iops, r=res), info=info, term=dict(ops=term, r=dict(k="ok")))

    def par(self):
        """Several things that one process does concurrently."""
        r = self.r
        slots = []
        for sl in range(1, r.choice([2, 2, 3, 4]) + 1):
            ops = []
            for _ in range(r.choice([1, 1, 1, 2])):
                x = r.random()
                if x < 0.6:
                    o = self.gcall()
                elif x < 0.7:
                    o = dict(o="gstop", dest=self.sdest(), m=self.m(), ref=self.ref(), rs=self.rs(), ms=r.choice([-1, 10, 20]))
                elif x < 0.8:
                    o = dict(o="recvb", ms=r.choice([-1, 10, 20, 20]), ty="S", u=r.choice([-1, -1, -2, -3, -4]),
                             x=r.random() < 0.4, d=False, strict=False)
                elif x < 0.87:
                    o = self.gcast()
                elif x < 0.93:
                    o = dict(o="sleep", ms=r.choice([5, 10, 20]))
                else:
                    o = dict(o="send", dests=[["pid", r.choice(self.clients), ""]], ty="S", m=self.m(), vec=False)
                o["sl"] = sl
                ops.append(o)
            slots.append(ops)
        return dict(o="par", k=r.randrange(4), slots=slots)

    def op(self, p):
        r = self.r
        kinds = list(self.w)
        k = r.choices(kinds, [self.w[x] for x in kinds])[0]
        if k == "gstart":
            return self.gstart() if self.np < 12 and p else None
        if k == "gcall":
            return self.gcall() if p else self.gcast()
        if k == "gcast":
            return self.gcast()
        if k == "gcastafter":
            return self.gcast(after=True)
        if k == "greply":
            return dict(o="greply", call=r.choice(self.calls[-5:]), m=self.m()) if self.calls else None
        if k == "gstop":
            return dict(o="gstop", dest=self.sdest(), m=self.m(), ref=self.ref(), rs=self.rs(), ms=r.choice([-1, 10, 20]))
        if k == "exit":
            return dict(o="exit", q=self.proc(), rs=self.rs(REASONS)) if p else None
        if k == "trap":
            return dict(o="trap", v=r.random() < 0.8)
        if k == "send":
            return dict(o="send", dests=[["pid", r.choice(self.clients), ""]], ty="S", m=self.m(), vec=False)
        if k == "recv":
            return dict(o="recv", ms=-1, polls=1, ty="S", **ANY)
        if k == "recvs":
            return dict(o="recv", ms=-1, polls=1, ty="S", u=-1, x=True, d=True, strict=True)
        if k in ("link", "unlink"):
            return dict(o=k, q=self.proc())
        if k == "monitor":
            q = self.proc()
            return dict(o="monitor", ref=self.ref(), dest=["pid", q, ""], alias="none") if q != p else None
        if k == "ret":
            return dict(o="ret")
        if k == "whereis":
            return dict(o="whereis", n=r.choice(NAMES))
        if k == "register":
            return dict(o="register", q=self.proc(), n=r.choice(NAMES))
        if k == "unregister":
            return dict(o="unregister", n=r.choice(NAMES))
        if k == "sleep":
            return dict(o="sleep", ms=r.choice([5, 10]))
        if k == "alive":
            return dict(o="alive", q=self.proc())
        if k == "par":
            return self.par() if p else None
        return None

    def script(self, sid):
        r = self.r
        n0 = r.randrange(2, 4)
        sp = []
        for _ in range(n0):
            self.np += 1
            self.clients.append(self.np)
            sp.append(dict(o="spawn", c=self.np, kind="plain", ref=0, init=[dict(o="trap", v=True)] if r.random() < 0.5 else []))
        steps = [dict(b=[[0, sp]])]
        steps.append(dict(b=[[r.choice(self.clients), [self.gstart()]] for _ in range(r.choice([1, 2, 2]))]))
        for _ in range(self.steps):
            if r.random() < self.w["adv"] / 10.0:
                steps.append(dict(adv=r.choice([5, 5, 10, 20, 40])))
                continue
            bs = []
            for _ in range(r.choice([1, 2, 2, 3])):
                p = r.choice(self.clients)
                ops = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    o = self.op(p)
                    if o is None:
                        continue
                    if o["o"] == "ret" and len(self.clients) < 2:
                        continue
                    ops.append(o)
                    if o["o"] == "ret":
                        break
                if ops:
                    bs.append([p, ops])
            if bs:
                steps.append(dict(b=bs))
        steps.append(dict(adv=100))
        drain = [dict(o="recv", ms=-1, polls=1, ty="S", u=-1, x=True, d=True, strict=(k > 3)) for k in range(10)]
        steps.append(dict(b=[[p, drain] for p in self.clients]))
        return dict(id=sid, steps=steps)


def scripts(n, seed, weights=None, prefix="g", **kw):
    return [Gen(random.Random("%s-%s-%d" % (seed, prefix, i)), weights, **kw).script("%s%d" % (prefix, i)) for i in range(n)]
