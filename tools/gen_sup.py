"""Random scripts for supervisors."""
import random

EXITS = ["normal", "c:shutdown", "c:x", "c:x", "c:x", "kill", "c:y", "ignore"]
ANY = dict(u=-1, x=True, d=True, strict=False)


class Gen:
    def __init__(self, rng, w=None, steps=9):
        self.r = rng
        self.w = dict(exit=10, end=4, start=2.5, term=2.5, restart=2.5, delete=2, which=5, count=2, adv=5, stop=0.5, exitsup=0.5, parent=0.3, new=0.4,
                      monitor=1, badid=0.12, err=0.12, ign=0.06, selfend=0.25, slow=0.15, trapkid=0.35, server=0.12, sup=0.08, initfail=0.12,
                      strat=(1, 1, 1), auto=(2, 1, 1), restartk=(5, 3, 3), sig=0.35, burst=0.3, long=0.0, nkids=None, nstarts=(1, 1, 2, 3, 4), maxr=(0, 1, 1, 2, 2, 3, 3, 4), maxd=(0, 5, 10, 15, 20, 40, 5000), adv1=False)
        self.w.update(w or {})
        self.steps = steps
        self.m = self.nref = 0
        self.nid = 0
        self.sups = []

    def num(self):
        self.m += 1
        return self.m

    def ref(self):
        self.nref += 1
        return self.nref

    def ms(self):
        return self.r.choice([5, 5, 10, 10, 15, 20])

    def body(self, calm):
        r = self.r
        b = []
        if r.random() < self.w["trapkid"]:
            b.append(dict(o="trap", v=True))
            if r.random() < 0.7:
                b.append(dict(o="recvb", ms=-1, ty="S", u=-2, x=True, d=False, strict=False))
                if r.random() < 0.7:
                    b.append(dict(o="sleep", ms=r.choice([5, 10, 15, 20, 30, 40]) if r.random() >= self.w["long"] else r.choice([300, 4900, 6000, 9000])))
                b.append(r.choice([dict(o="ret"), dict(o="panic", rs="c:late"), dict(o="exitself", rs="c:shutdown"), dict(o="exitself", rs="c:z")]))
                return b
        if not calm and r.random() < self.w["selfend"]:
            if r.random() < 0.6:
                b.append(dict(o="sleep", ms=self.ms()))
            b.append(r.choice([dict(o="ret"), dict(o="panic", rs="c:boom"), dict(o="panic", rs="c:boom"), dict(o="exitself", rs="c:shutdown"), dict(o="exitself", rs="c:q")]))
        return b

    def start(self, calm, depth, first):
        r = self.r
        ops = [dict(o="sleep", ms=self.ms())] if r.random() < self.w["slow"] else []
        if not calm:
            x = r.random()
            if x < self.w["err"]:
                if first and r.random() > self.w["initfail"]:
                    pass
                else:
                    return dict(ops=ops, k="err", rs=r.choice(["c:e1", "c:e2", "c:shutdown", "normal"]))
            elif x < self.w["err"] + self.w["ign"]:
                return dict(ops=ops, k="err", rs="ignore")
        x = r.random()
        if x < self.w["server"]:
            init = [dict(o="trap", v=True)] if r.random() < 0.6 else []
            term = [dict(o="sleep", ms=self.ms())] if r.random() < 0.5 else []
            return dict(ops=ops, k="server", init=dict(ops=init, r=dict(k="ok")), info=dict(ops=[], r=dict(k="ok")), term=dict(ops=term, r=dict(k="ok")))
        if x < self.w["server"] + self.w["sup"] and depth == 0:
            return dict(ops=ops, k="sup", sup=self.config(depth + 1))
        return dict(ops=ops, k="actor", body=self.body(calm))

    def kid(self, depth=0, id=None):
        r = self.r
        self.nid += 1
        restart = r.choices(["permanent", "transient", "temporary"], self.w["restartk"])[0]
        n = r.choice(self.w["nstarts"])
        starts = [self.start(False, depth, i == 0) for i in range(n)] + [self.start(True, 1, False)]
        typ = "supervisor" if starts[0]["k"] == "sup" or r.random() < 0.1 else "worker"
        return dict(id=id or "k%d" % self.nid, restart=restart, sh=r.choice([-3, -3, -2, -1, 0, 5, 10, 20, 30]) , sig=restart != "permanent" and r.random() < self.w["sig"],
                    typ=typ, starts=starts)

    def config(self, depth=0):
        r = self.r
        kids = [self.kid(depth) for _ in range(r.choice((self.w["nkids"] or [0, 1, 2, 3, 3, 4]) if depth == 0 else [1, 2]))]
        c = dict(n="", ms=-1, kids=kids, strat=r.choices(["one_for_one", "one_for_all", "rest_for_one"], self.w["strat"])[0],
                 auto=r.choices(["never", "any", "all"], self.w["auto"])[0], maxr=r.choice(self.w["maxr"]), maxd=r.choice(self.w["maxd"]))
        self.ids += [k["id"] for k in kids]
        return c

    def rid(self):
        if self.r.random() < self.w["badid"] or not self.top:
            return self.r.choice(["nope"] + self.ids)
        return self.r.choice(self.top)

    def scall(self, k):
        q = dict(k=k, id="")
        if k == "start":
            if self.r.random() < 0.45 and self.top:
                spec = self.kid(1, id=self.r.choice(self.top))
            else:
                spec = self.kid(0)
                self.top.append(spec["id"])
                self.ids.append(spec["id"])
            q = dict(k=k, id=spec["id"], spec=spec)
        elif k in ("term", "restart", "delete"):
            q["id"] = self.rid()
        return dict(o="scall", dest=["pid", self.sup, ""], m=self.num(), ref=self.ref(), ms=-1, req=q)

    def adv(self):
        r = self.r
        if r.random() < self.w["long"]:
            ms = r.choice([250, 4850, 4990, 5000, 6000])
            return dict(adv=ms, by=ms)
        return dict(adv=r.choice([5, 5, 10, 15, 20, 40]))

    def script(self, sid):
        r = self.r
        self.ids = []
        self.sup = 4
        cfg = self.config()
        self.top = [k["id"] for k in cfg["kids"]]
        trap1 = r.random() < 0.7
        steps = [dict(b=[[0, [dict(o="spawn", c=1, kind="plain", ref=0, init=[dict(o="trap", v=True)] if trap1 else []),
                              dict(o="spawn", c=2, kind="plain", ref=0, init=[]), dict(o="spawn", c=3, kind="plain", ref=0, init=[])]]])]
        st = dict(cfg, o="supstart", c=4, link=r.random() < 0.6, n="" if r.random() < 0.7 else "a", ms=r.choice([-1] * 8 + [10, 20]))
        steps.append(dict(b=[[1, [st]]]))
        if r.random() < 0.4:
            steps.append(self.adv())
        steps.append(dict(b=[[3, [dict(o="monitor", ref=self.ref(), dest=["pid", 4, ""], alias="none")]]]))
        kinds = ["exit", "end", "start", "term", "restart", "delete", "which", "count", "adv", "stop", "exitsup", "parent", "monitor"]
        for _ in range(r.randrange(4, self.steps + 4)):
            bs = []
            for _ in range(r.choice([1, 1, 2, 3]) if r.random() < self.w["burst"] else 1):
                k = r.choices(kinds, [self.w[x] for x in kinds])[0]
                if k == "adv":
                    if bs:
                        continue
                    steps.append(self.adv())
                    break
                if k == "exit":
                    if self.ids:
                        bs.append([2, [dict(o="exit", kid=r.choice(self.ids), rs=r.choice(EXITS))]])
                elif k == "end":
                    if self.ids:
                        bs.append([r.choice(self.ids), [r.choice([dict(o="ret"), dict(o="panic", rs="c:end")])]])
                elif k == "stop":
                    bs.append([r.choice([1, 2]), [dict(o="gstop", dest=["pid", 4, ""], m=self.num(), ref=self.ref(), rs=r.choice(["normal", "c:bye", "c:shutdown"]), ms=-1, srv="sup")]])
                elif k == "exitsup":
                    bs.append([2, [dict(o="exit", q=4, rs=r.choice(["kill", "c:x", "normal"]))]])
                elif k == "parent":
                    bs.append([1, [r.choice([dict(o="ret"), dict(o="panic", rs="c:parent")])]])
                elif k == "monitor":
                    if self.ids:
                        bs.append([3, [dict(o="monitor", ref=self.ref(), kid=r.choice(self.ids), dest=["pid", 0, ""], alias="none")]])
                elif r.random() < 0.15:
                    # one process makes several requests concurrently
                    mine = [x for x in ("start", "restart", "term", "delete", "count", "which") if self.w[x] > 0]
                    slots = [[dict(self.scall(x), sl=j + 1)] for j, x in enumerate([k] + r.choices(mine, [self.w[x] for x in mine], k=r.choice([1, 1, 2])))]
                    bs.append([r.choice([1, 2, 3]), [dict(o="par", k=r.randrange(4), slots=slots)]])
                else:
                    bs.append([r.choice([1, 2, 3]), [self.scall(k)]])
            if bs:
                steps.append(dict(b=bs))
        if self.w["long"]:
            steps.append(dict(adv=30000, by=1000))
        steps.append(dict(adv=60))
        steps.append(dict(b=[[2, [self.scall("which"), self.scall("count")]]]))
        steps.append(dict(b=[[1, [self.scall("which")]]]))
        drain = [dict(o="recv", ms=-1, polls=1, ty="S", **ANY) for k in range(8)]
        steps.append(dict(b=[[p, drain] for p in (1, 3)]))
        return dict(id=sid, steps=steps)


def scripts(n, seed, weights=None, prefix="s", **kw):
    return [Gen(random.Random("%s-%s-%d" % (seed, prefix, i)), weights, **kw).script("%s%d" % (prefix, i)) for i in range(n)]
