"""Random scripts for registries."""
import random

EXITS = ["normal", "c:shutdown", "c:x", "c:x", "kill", "kill", "c:y", "ignore"]
ANY = dict(u=-1, x=True, d=True, strict=False)
KEYS = ["sA", "sB", "s1", "i1", "l1", "h1", "q1", "u1", "v1", "i-1"]


class Gen:
    def __init__(self, rng, w=None, steps=10):
        self.r = rng
        self.w = dict(lookup=6, los=10, start=6, stop=5, remove=5, count=3, list=4, exit=6, end=2, adv=3, gstop=0.7, exitreg=0.6, parent=0.3, again=0.8, drop=0.5, monitor=1.5, restartreg=0.6,
                      name=0.6, nostart=0.08, err=0.12, slow=0.2, trapkid=0.35, server=0.12, burst=0.55, long=0.0, nkeys=3, sh=(-2, -2, -1, 10, 20))
        self.w.update(w or {})
        self.steps = steps
        self.m = self.nref = 0
        self.c = 3

    def num(self):
        self.m += 1
        return self.m

    def ref(self):
        self.nref += 1
        return self.nref

    def ms(self):
        return self.r.choice([5, 5, 10, 10, 15, 20])

    def body(self):
        r = self.r
        b = []
        if r.random() < self.w["trapkid"]:
            b.append(dict(o="trap", v=True))
            x = r.random()
            if x < 0.6:
                b.append(dict(o="recvb", ms=-1, ty="S", u=-2, x=True, d=False, strict=False))
                if r.random() < 0.6:
                    b.append(dict(o="sleep", ms=r.choice([5, 10, 15, 20, 30]) if r.random() >= self.w["long"] else r.choice([300, 4000, 6000])))
                b.append(r.choice([dict(o="ret"), dict(o="panic", rs="c:late"), dict(o="exitself", rs="c:shutdown")]))
            return b
        if r.random() < 0.15:
            if r.random() < 0.6:
                b.append(dict(o="sleep", ms=self.ms()))
            b.append(r.choice([dict(o="ret"), dict(o="panic", rs="c:boom"), dict(o="exitself", rs="c:q")]))
        return b

    def start(self):
        r = self.r
        ops = [dict(o="sleep", ms=self.ms())] if r.random() < self.w["slow"] else []
        x = r.random()
        if x < self.w["err"]:
            return dict(ops=ops, k="err", rs=r.choice(["c:e1", "c:e2", "normal", "ignore"]))
        if x < self.w["err"] + self.w["server"]:
            init = [dict(o="trap", v=True)] if r.random() < 0.6 else []
            term = [dict(o="sleep", ms=self.ms())] if r.random() < 0.5 else []
            return dict(ops=ops, k="server", init=dict(ops=init, r=dict(k="ok")), info=dict(ops=[], r=dict(k="ok")), term=dict(ops=term, r=dict(k="ok")))
        return dict(ops=ops, k="actor", body=self.body())

    def regstart(self, n, p=1):
        r = self.r
        self.c += 1
        starts = {k: [self.start() for _ in range(r.choice([1, 2, 3, 4]))] for k in self.keys(n)}
        starts["*"] = [self.start()]
        self.of.setdefault(n, []).append(self.c)
        return dict(o="regstart", c=self.c, n=n, link=r.random() < 0.5, ms=-1, start=r.random() > self.w["nostart"], starts=starts, sh=r.choice(self.w["sh"]))

    def keys(self, n):
        return [n + "." + k for k in self.ks]

    def reg(self):
        return self.r.choice(list(self.of))

    def call(self, k):
        r = self.r
        n = self.reg()
        dest = ["name", 0, n] if r.random() < self.w["name"] else ["pid", r.choice(self.of[n][-2:]), ""]
        return dict(o="rcall", dest=dest, reg=n, m=self.num(), ref=self.ref(), ms=r.choice([-1] * 8 + [0, 5, 10]), req=dict(k=k, key=r.choice(self.keys(n)) if k not in ("count", "list") else ""))

    def script(self, sid):
        r = self.r
        self.of = {}
        self.ks = r.sample(KEYS, self.w["nkeys"]) if r.random() < 0.8 else r.sample(KEYS[2:], 2)
        steps = [dict(b=[[0, [dict(o="spawn", c=1, kind="plain", ref=0, init=[dict(o="trap", v=True)] if r.random() < 0.7 else []),
                              dict(o="spawn", c=2, kind="plain", ref=0, init=[]), dict(o="spawn", c=3, kind="plain", ref=0, init=[])]]])]
        steps.append(dict(b=[[1, [self.regstart("a")]]]))
        if r.random() < 0.25:
            steps.append(dict(b=[[1, [self.regstart("b")]]]))
        kinds = ["lookup", "los", "start", "stop", "remove", "count", "list", "exit", "end", "adv", "gstop", "exitreg", "parent", "again", "drop", "monitor"]
        for _ in range(r.randrange(4, self.steps + 4)):
            bs = []
            for _ in range(r.choice([1, 2, 3, 4]) if r.random() < self.w["burst"] else 1):
                k = r.choices(kinds, [self.w[x] for x in kinds])[0]
                kid = r.choice(self.keys(self.reg()))
                if k == "adv":
                    if bs:
                        continue
                    ms = r.choice([250, 290, 1000, 5000])
                    steps.append(dict(adv=ms, by=ms) if r.random() < self.w["long"] else dict(adv=r.choice([5, 5, 10, 15, 20, 40])))
                    break
                if k == "exit":
                    bs.append([2, [dict(o="exit", kid=kid, rs=r.choice(EXITS))]])
                elif k == "end":
                    bs.append([kid, [r.choice([dict(o="ret"), dict(o="panic", rs="c:end")])]])
                elif k == "gstop":
                    bs.append([r.choice([1, 2]), [dict(o="gstop", dest=["pid", r.choice(self.of[self.reg()]), ""], m=self.num(), ref=self.ref(), rs=r.choice(["normal", "c:bye", "c:shutdown"]), ms=-1, srv="reg")]])
                elif k == "exitreg":
                    bs.append([2, [dict(o="exit", q=r.choice(self.of[self.reg()]), rs=r.choice(["kill", "kill", "c:x", "normal"]))]])
                elif k == "parent":
                    bs.append([1, [r.choice([dict(o="ret"), dict(o="panic", rs="c:parent")])]])
                elif k == "again":
                    if self.c >= 9:  # the numbers from 10 on are those of the registered processes
                        continue
                    bs.append([1, [self.regstart(self.reg())]])
                elif k == "drop":
                    bs.append([3, [dict(o="regdrop", c=0, n=self.reg(), start=False, sh=r.choice([-2, -1, 10]), ms=-1)]])
                elif k == "monitor":
                    bs.append([3, [dict(o="monitor", ref=self.ref(), kid=kid, dest=["pid", 0, ""], alias="none")]])
                elif r.random() < 0.15:
                    # one process makes several requests concurrently
                    mine = [x for x in ("lookup", "los", "los", "start", "stop", "remove", "count", "list") if self.w[x] > 0]
                    slots = [[dict(self.call(x), sl=j + 1)] for j, x in enumerate([k] + r.choices(mine, [self.w[x] for x in mine], k=r.choice([1, 1, 2])))]
                    bs.append([r.choice([1, 2, 3]), [dict(o="par", k=r.randrange(4), slots=slots)]])
                else:
                    bs.append([r.choice([1, 2, 3]), [self.call(k)]])
            if bs:
                steps.append(dict(b=bs))
        if self.w["long"]:
            steps.append(dict(adv=20000, by=1000))
        steps.append(dict(adv=60))
        for p in (2, 3):
            steps.append(dict(b=[[p, [self.call("list"), self.call("count"), self.call("lookup"), self.call("lookup")]]]))
        drain = [dict(o="recv", ms=-1, polls=1, ty="S", **ANY) for k in range(8)]
        steps.append(dict(b=[[p, drain] for p in (1, 3)]))
        return dict(id=sid, steps=steps)


def scripts(n, seed, weights=None, prefix="s", **kw):
    return [Gen(random.Random("%s-%s-%d" % (seed, prefix, i)), weights, **kw).script("%s%d" % (prefix, i)) for i in range(n)]
