"""Random scripts for the process runtime, biased by per-property weights."""
import random

BASE = dict(spawn=4, send=10, multisend=3, exit=3, link=3, unlink=1, monitor=4, demonitor=2, alias=2, unalias=1,
            register=3, unregister=1, whereis=1, trap=2, flags=0.5, alive=1, sendafter=1, cancel=0.5, readt=0.5, recv=8,
            recvb=2, recvt=1, remove=1, ret=1, panic=1, adv=1, listed=0.3, aliassend=2)

REASONS = ["normal", "kill", "ignore", "c:r1", "c:r2", "c:shutdown"]
NAMES = ["a", "b", "c"]


class Gen:
    def __init__(self, rng, weights=None, maxp=10, steps=14):
        self.r = rng
        self.w = dict(BASE)
        if weights:
            self.w.update(weights)
        self.np = 0
        self.maxp = maxp
        self.steps = steps
        self.nref = 0
        self.nm = 0
        self.alive = []          # probably alive actors
        self.all = []
        self.owned = {}          # p -> refs of monitors
        self.als = []            # (ref, owner)
        self.tms = []
        self.blocked = set()

    def newp(self):
        self.np += 1
        self.all.append(self.np)
        return self.np

    def ref(self):
        self.nref += 1
        return self.nref

    def pick(self, other=None):
        c = [x for x in (self.alive if self.r.random() < 0.85 and self.alive else self.all)]
        if other is not None and self.r.random() < 0.97:
            c = [x for x in c if x != other] or c
        return self.r.choice(c)

    def dest(self, p):
        x = self.r.random()
        if x < 0.55 or not self.alive:
            return ["pid", self.pick(p if self.r.random() < 0.9 else None), ""]
        if x < 0.8 or not self.als:
            return ["name", 0, self.r.choice(NAMES)]
        return ["alias", self.r.choice(self.als)[0], ""]

    def filt(self):
        r = self.r
        ty = r.choice("SSUR")
        x = r.random()
        if x < 0.4:
            u, ex, d = -1, True, True
        elif x < 0.5:
            u, ex, d = -2, True, True
        elif x < 0.6:
            u, ex, d = -1, False, False
        elif x < 0.7:
            u, ex, d = -2, r.random() < 0.5, r.random() < 0.5
        elif x < 0.85:
            u, ex, d = r.choice([-3, -4]), r.random() < 0.5, r.random() < 0.5
        else:
            u, ex, d = max(0, self.nm - r.randrange(4)), r.random() < 0.3, r.random() < 0.3
        return dict(ty=ty, u=u, x=ex, d=d, strict=(r.random() < 0.12))

    def op(self, p):
        r = self.r
        kinds = list(self.w)
        k = r.choices(kinds, [self.w[x] for x in kinds])[0]
        if p == 0 and k not in ("send", "multisend", "register", "unregister", "whereis", "alive", "sendafter", "listed", "cancel", "aliassend"):
            k = r.choice(["send", "send", "spawn"])
        if k == "spawn":
            if self.np >= self.maxp:
                return None
            c = self.newp()
            kind = r.choice(["plain", "link", "mon"]) if p else "plain"
            o = dict(o="spawn", c=c, kind=kind, ref=0, init=[])
            if kind == "mon":
                o["ref"] = self.ref()
                self.owned.setdefault(p, []).append(o["ref"])
            x = r.random()
            if x < 0.12:
                o["init"] = [dict(o="ret")]
            elif x < 0.24:
                o["init"] = [dict(o="panic", rs=r.choice(["c:early", "c:static text", "c:Unknown error!"]))]
            elif x < 0.5:
                o["init"] = [dict(o="alive", q=c), dict(o="listed", q=c), dict(o="flags")] + \
                    ([dict(o="trap", v=True)] if r.random() < 0.5 else []) + \
                    ([dict(o="register", q=c, n=r.choice(NAMES))] if r.random() < 0.3 else [])
                self.alive.append(c)
            else:
                self.alive.append(c)
            return o
        if k in ("send", "multisend", "sendafter", "aliassend"):
            self.nm += 1
            n = 1 if k in ("send", "aliassend") or r.random() < 0.5 and k == "sendafter" else r.randrange(1, 4)
            ds = [self.dest(p) for _ in range(n)]
            if k == "aliassend" and self.als:
                ds = [["alias", r.choice(self.als[-3:])[0], ""]]
            if n > 1 and r.random() < 0.15:
                ds[-1] = ds[0]
            o = dict(o="send", dests=ds, ty=r.choice("SSUR"), m=self.nm, vec=(k == "multisend"))
            if k == "sendafter":
                o["o"] = "sendafter"
                o["ms"] = r.choice([0, 5, 10, 15, 20, 35, 50])
                o["tm"] = self.ref()
                self.tms.append(o["tm"])
            return o
        if k == "exit":
            q = self.pick(p) if r.random() < 0.93 else p
            return dict(o="exit", q=q, rs=r.choice(REASONS))
        if k in ("link", "unlink"):
            return dict(o=k, q=self.pick(p))
        if k == "monitor":
            d = self.dest(p)
            if d[0] == "alias":
                d = ["pid", self.pick(p), ""]
            o = dict(o="monitor", ref=self.ref(), dest=d, alias=r.choice(["none", "none", "reply", "multi"]))
            if d == ["pid", p, ""]:
                pass
            else:
                self.owned.setdefault(p, []).append(o["ref"])
                if o["alias"] != "none":
                    self.als.append((o["ref"], p))
            return o
        if k == "demonitor":
            rs = self.owned.get(p)
            if not rs:
                return None
            return dict(o="demonitor", ref=r.choice(rs))
        if k == "alias":
            o = dict(o="alias", ref=self.ref(), reply=r.random() < 0.5)
            self.als.append((o["ref"], p))
            return o
        if k == "unalias":
            if not self.als:
                return None
            mine = [a for a in self.als if a[1] == p]
            a = r.choice(mine) if mine and r.random() < 0.8 else r.choice(self.als)
            return dict(o="unalias", ref=a[0])
        if k == "register":
            return dict(o="register", q=self.pick() if r.random() < 0.6 or p == 0 else p, n=r.choice(NAMES))
        if k in ("unregister", "whereis"):
            return dict(o=k, n=r.choice(NAMES))
        if k == "trap":
            return dict(o="trap", v=r.random() < 0.8)
        if k == "flags":
            return dict(o="flags")
        if k in ("alive", "listed"):
            return dict(o=k, q=self.pick())
        if k in ("cancel", "readt"):
            if not self.tms:
                return None
            return dict(o=k, tm=r.choice(self.tms[-4:]))
        if k == "recv":
            return dict(o="recv", ms=-1, polls=r.choice([1, 1, 2]), **self.filt())
        if k == "recvb":
            return dict(o="recvb", ms=-1, **self.filt())
        if k == "recvt":
            return dict(o="recvb", ms=r.choice([5, 10, 20, 30]), **self.filt())
        if k == "remove":
            f = self.filt()
            f["strict"] = False
            return dict(o="remove", **f)
        if k == "ret":
            return dict(o="ret")
        if k == "panic":
            return dict(o="panic", rs=r.choice(["c:boom", "c:static text", "c:Unknown error!"]))
        return None

    def script(self, sid):
        r = self.r
        n0 = r.randrange(2, 5)
        steps = [dict(b=[[0, [dict(o="spawn", c=self.newp(), kind="plain", ref=0, init=[]) for _ in range(n0)]]])]
        self.alive = list(self.all)
        if r.random() < 0.7:
            t = [p for p in self.all if r.random() < 0.5]
            steps.append(dict(b=[[p, [dict(o="trap", v=True)]] for p in t]))
        for _ in range(self.steps):
            if r.random() < self.w["adv"] / 10.0:
                steps.append(dict(adv=r.choice([5, 10, 20, 40])))
                continue
            bs = []
            for _ in range(r.choice([1, 1, 2, 3])):
                p = self.pick() if r.random() < 0.93 else 0
                ops = []
                for _ in range(r.choice([1, 2, 3, 4])):
                    o = self.op(p)
                    if o is None:
                        continue
                    ops.append(o)
                    if o["o"] in ("ret", "panic"):
                        if p in self.alive and len(self.alive) > 1:
                            self.alive.remove(p)
                        break
                    if o["o"] == "exit" and o["q"] in self.alive and r.random() < 0.5 and len(self.alive) > 1:
                        self.alive.remove(o["q"])
                if ops:
                    bs.append([p, ops])
            if bs:
                steps.append(dict(b=bs))
        steps.append(dict(adv=60))
        # drain every mailbox
        drain = [dict(o="recv", ms=-1, polls=1, ty=t, u=-1, x=True, d=True, strict=False) for t in "SURSURSURSURSUR"]
        steps.append(dict(b=[[p, drain] for p in self.all]))
        return dict(id=sid, steps=steps)


def scripts(n, seed, weights=None, prefix="r", **kw):
    return [Gen(random.Random("%s-%s-%d" % (seed, prefix, i)), weights, **kw).script("%s%d" % (prefix, i)) for i in range(n)]
