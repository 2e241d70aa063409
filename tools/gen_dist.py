"""Scripts for distributed nodes."""
import random

OPTS = ["hs", "int", "to"]
GH, DEAD = ["ghost"], ["dead", 0]


class G:
    def __init__(self, seed, id, prof):
        self.r = random.Random("dist-%s-%s-%s" % (seed, id, prof))
        self.prof = prof
        self.id = id
        self.nxt = 4
        self.ref = self.m = 0
        self.act = {}           # actor -> node
        self.srv = set()
        self.mons, self.als, self.calls, self.nmons = {}, {}, [], {}
        self.names = []
        self.ids = {}           # (node) -> identities that have probably been received there
        self.ent = []
        self.off = set()
        self.dead = set()
        self.stalled, self.refused = set(), set()
        self.forgot = False
        self.steps = []

    # ---- pieces
    def nref(self):
        self.ref += 1
        return self.ref

    def nm(self):
        self.m += 1
        return self.m

    def live(self):
        return [n for n in range(1, self.nn + 1) if n not in self.dead]

    def spawn(self, n, trap=None, server=False, quiet=True):
        if self.nxt > 12:
            return
        a = self.nxt
        self.nxt += 1
        self.act[a] = n
        if server:
            self.srv.add(a)
        self.mons[a], self.als[a], self.nmons[a] = [], [], []
        self.steps.append(dict(k="spawn", a=a, n=n, trap=not server and (self.r.random() < 0.5 if trap is None else trap), server=server, quiet=quiet))

    def doers(self, n=None):
        return [a for a, x in self.act.items() if a not in self.srv and x not in self.dead and (n is None or x == n)]

    def other(self, n):
        """Another node, mostly one that lives."""
        return self.r.choice([x for x in range(1, self.nn + 1) if x != n] or [n])

    def qpid(self, a, far=0.85, msg=False):
        """A pid for a to use (servers get no plain messages)."""
        n = self.act[a]
        A = {x: y for x, y in self.act.items() if not (msg and x in self.srv)}
        F = [x for x, y in A.items() if y != n]
        L = [x for x, y in A.items() if y == n and x != a]
        if F and (not L or self.r.random() < far):
            return self.r.choice(F)
        return self.r.choice(L or F or [a])

    def vpid(self, a, msg=False):
        q = self.qpid(a, msg=msg)
        if self.prof == "id" and not self.forgot and self.r.random() < 0.6:
            S = [e for e in self.ids.get(self.act[a], []) if e[0] in ("p", "dp") and not (msg and e[1] in self.srv)]
            if S:
                return dict(st=self.r.choice(S))
        return q

    def node(self, n):
        x = self.r.random()
        if self.prof == "node" and self.ghost and x < 0.12:
            return ["ghost", self.ghost]
        if self.prof == "node" and x < 0.2:
            return DEAD
        return self.other(n)

    def dest(self, a, alias=True):
        n = self.act[a]
        x = self.r.random()
        if self.prof == "id" and not self.forgot and x < 0.35:
            S = [e for e in self.ids.get(n, []) if e[0] in (("p", "r", "dp", "dr", "dn") if alias else ("p", "dp", "dn")) and not (alias and e[1] in self.srv)]
            if S:
                return dict(k="st", e=self.r.choice(S))
        if x < 0.6:
            return dict(k="p", p=self.vpid(a, msg=alias))
        if x < 0.75 and alias:
            R = [r for b, l in self.als.items() if b != a for r in l]
            if R:
                return dict(k="a", ref=self.r.choice(R))
        t = self.node(n) if self.r.random() < 0.85 else n
        return dict(k="n", nm=self.r.choice(["a", "b", "z"] if self.r.random() < 0.2 else ["a", "b"]), n=t)

    def ident(self, n):
        r = self.r
        S = self.ids.get(n, [])
        if S and not self.forgot and r.random() < 0.4:
            return r.choice(S) + ["st"]
        x = r.random()
        if x < 0.4:
            return [r.choice(["p", "dp"]), r.choice(list(self.act))]
        if x < 0.65:
            R = [q for l in self.als.values() for q in l]
            if R:
                return [r.choice(["r", "dr"]), r.choice(R)]
        if x < 0.85:
            return ["n", r.choice(range(1, self.nn + 1))]
        # A name of the node itself is no more than a name when it travels.
        return ["dn", r.choice(["a", "b"]), r.choice([t for t in range(1, self.nn + 1) if t != n] or [n])]

    def dnode(self, d):
        """Node of a destination, as far as it is known here."""
        if d["k"] == "p":
            q = d["p"]
            q = q["st"][1] if isinstance(q, dict) else q
            return self.act.get(q)
        if d["k"] == "n":
            return d["n"] if isinstance(d["n"], int) else None
        if d["k"] == "a":
            return next((self.act[b] for b, l in self.als.items() if d["ref"] in l), None)
        e = d["e"]
        if e[0] in ("p", "dp"):
            return self.act.get(e[1])
        if e[0] in ("r", "dr"):
            return next((self.act[b] for b, l in self.als.items() if e[1] in l), None)
        return e[2]

    def whose(self, d):
        if d["k"] == "p":
            return d["p"]["st"][1] if isinstance(d["p"], dict) else d["p"]
        return d["e"][1] if d["e"][0] in ("p", "dp") else 0

    def send(self, a, ids=0):
        r = self.r
        n = self.act[a]
        k = 1 if r.random() < 0.7 else r.choice([2, 2, 3])
        ds = [self.dest(a) for _ in range(k)]
        size = r.choice([0, 1, 20, 100, 100, 1000, 5000]) if r.random() < 0.97 else r.choice([70000, 300000])
        o = dict(at=n, a=a, op="send", m=self.nm(), ds=ds, len=size)
        if k == 1 and r.random() < 0.2:
            o["list"] = True
        if ids:
            o["ids"] = [self.ident(n) for _ in range(r.randint(1, 3))]
            for d in ds:
                t = self.dnode(d)
                if t and self.r.random() < 0.95:
                    self.ids.setdefault(t, []).extend(e[:-1] if e[-1] == "st" else e for e in o["ids"])
        return o

    def op(self, a):
        r, n = self.r, self.act[a]
        W = {"msg": dict(send=60, mon=3, link=3, alias=6, unalias=2, connect=5, disconnect=3, exit=1, ret=1, reg=5, cast=3, trap=1),
             "link": dict(send=4, mon=16, demon=9, link=14, unlink=8, exit=10, ret=6, panic=3, gcall=14, cast=5, trap=3, connect=3, disconnect=4, alias=1, reg=3),
             "node": dict(send=8, mon=6, link=5, connect=14, disconnect=10, forget=7, nodemon=20, nodedemon=8, ret=2, demon=2, reg=1, exit=1),
             "id": dict(send=60, mon=6, link=6, unlink=2, exit=3, alias=5, reg=4, connect=2, gcall=2, demon=2),
             "beat": dict(send=14, mon=10, link=10, nodemon=10, connect=6, gcall=3, exit=1)}[self.prof]
        W = dict(W)
        if not self.srv:
            W.pop("gcall", 0), W.pop("cast", 0)
        k = r.choices(list(W), list(W.values()))[0]
        o = dict(at=n, a=a, op=k)
        if k == "send":
            return self.send(a, ids=self.prof == "id" or r.random() < 0.05)
        if k in ("link", "unlink"):
            q = self.vpid(a)
            if self.whose(dict(k="p", p=q)) == a:
                return None
            o["p"] = q
        elif k == "exit":
            o.update(p=self.vpid(a), rs=r.choice(["normal", "kill", "c:x", "c:shutdown", "ignore"]))
        elif k == "mon":
            d = self.dest(a, alias=False)
            if d["k"] != "n" and self.whose(d) == a:
                return None     # not allowed
            o.update(ref=self.nref(), d=d)
            self.mons[a].append(self.ref)
        elif k == "demon":
            if not self.mons[a]:
                return None
            o["ref"] = r.choice(self.mons[a])
        elif k == "alias":
            o.update(ref=self.nref(), reply=r.random() < 0.3)
            self.als[a].append(self.ref)
        elif k == "unalias":
            if not self.als[a]:
                return None
            o["ref"] = r.choice(self.als[a])
        elif k == "nodemon":
            o.update(ref=self.nref(), n=self.node(n))
            self.nmons[a].append(self.ref)
        elif k == "nodedemon":
            if not self.nmons[a]:
                return None
            o["ref"] = r.choice(self.nmons[a])
        elif k in ("connect", "disconnect", "forget"):
            o["n"] = self.node(n)
            if o["n"] == n:
                return None
            if k == "forget":
                self.forgot = True
        elif k == "trap":
            o["v"] = r.random() < 0.5
        elif k == "reg":
            o["nm"] = r.choice(["a", "b"])
        elif k == "gcall":
            S = [q for q in self.srv]
            q = r.choice([q for q in S if self.act[q] != n] or S)
            o.update(ref=self.nref(), m=self.nm(), act=r.choices(["reply", "hold", "stop", "panic"], [6, 4, 1, 1])[0], to=r.choice([150, 300]), d=dict(k="p", p=q))
            if o["act"] == "hold":
                self.calls.append((q, o["m"]))
        elif k == "cast":
            if not self.calls or r.random() < 0.1:
                return None
            q, m = r.choice(self.calls)
            o.update(d=dict(k="p", p=q), m=self.nm(), act="late %d" % m)
        return o

    def burst(self, k, who=None):
        ops, last = [], None
        for _ in range(k):
            D = self.doers()
            if not D:
                break
            # bursts of one process are as interesting as those of several
            a = last if last in D and self.r.random() < 0.5 else self.r.choice(D)
            o = self.op(a)
            if o is None:
                continue
            last = a
            if self.r.random() < 0.1:
                o["gap"] = self.r.choice([1, 3, 10])
            ops.append(o)
            if o["op"] in ("ret", "panic"):
                break
        if ops:
            self.steps.append(dict(k="burst", ops=ops))

    def pair(self):
        x = self.r.choice(range(1, self.nn + 1))
        return x, self.other(x)

    def fault(self, W):
        r = self.r
        k = r.choices(list(W), list(W.values()))[0]
        q = r.random() < 0.8
        if k == "cut":
            x, y = self.pair()
            self.steps.append(dict(k="cut", x=x, y=y, hard=r.random() < 0.5, quiet=q))
        elif k == "refuse":
            x, y = self.pair()
            on = (x, y) not in self.refused
            (self.refused.add if on else self.refused.discard)((x, y))
            self.steps.append(dict(k="refuse", x=x, y=y, on=on))
        elif k == "stall":
            x, y = self.pair()
            on = (x, y) not in self.stalled
            (self.stalled.add if on else self.stalled.discard)((x, y))
            self.steps.append(dict(k="stall", x=x, y=y, on=on))
        elif k == "half":
            x, y = self.pair()
            self.steps.append(dict(k="half", x=x, y=y))
        elif k == "kill":
            L = self.live()
            if len(L) > 1:
                n = r.choice(L)
                self.dead.add(n)
                self.steps.append(dict(k="kill", n=n))
        elif k == "cookie":
            if not self.stalled:
                n = r.choice(self.live())
                self.steps.append(dict(k="cookie", n=n, v=r.choice([None, "x", "yy"])))
        elif k == "stop":
            n = r.choice(self.live())
            if n not in self.off and not self.stalled:
                self.off.add(n)
                self.forgot = True
                self.steps.append(dict(k="burst", ops=[dict(at=n, a=n, op="stop")]))
        elif k == "start":
            if self.off - self.dead:
                n = r.choice(sorted(self.off - self.dead))
                self.off.discard(n)
                self.steps.append(dict(k="start", n=n))
        elif k == "wait":
            self.steps.append(dict(k="wait", ms=r.choice([100, 250, 400])))


def script(seed, id, prof):
    g = G(seed, id, prof)
    r = g.r
    g.nn = r.choice([2, 2, 3]) if prof != "id" else r.choice([1, 2, 3, 3])
    g.ghost = 0
    if prof == "node" and r.random() < 0.6:
        g.ghost = r.randint(1, g.nn)
    nodes = []
    for i in range(g.nn):
        hs, it, to = 5000, 5000, 45000
        if prof == "beat":
            it = r.choice([100, 150, 300])
            to = r.choice([900, 1300, 1800])
            hs = r.choice([500, 900, 1400])
        o = OPTS[:]
        r.shuffle(o)
        nodes.append(dict(name="n%d" % (i + 1), hs=hs, int=it, to=to, opts=o))
    sc = dict(id=id, seed=r.randrange(1 << 30), nodes=nodes, ghost=g.ghost, prof=prof)
    if prof in ("msg", "link") and r.random() < 0.5:
        sc["seg"] = r.choice([1, 7, 50, 1000])
    elif r.random() < 0.3:
        sc["delay"] = r.choice([0.002, 0.01])
    off = set()
    if prof == "id" and g.nn == 1:
        off = {1} if r.random() < 0.8 else set()
    elif prof in ("id", "node", "link") and r.random() < 0.1:
        off = {r.randint(1, g.nn)}
    if prof == "node" and r.random() < 0.6:
        c = r.choice([None, "x", "x" * 100])
        for n in range(1, g.nn + 1):
            v = c if r.random() < 0.6 else r.choice([None, "x", "yy"])
            if v is not None:
                g.steps.append(dict(k="cookie", n=n, v=v, quiet=False))
    for n in range(1, g.nn + 1):
        if n not in off:
            g.steps.append(dict(k="start", n=n, quiet=False))
    g.off |= off
    for n in range(1, g.nn + 1):
        for _ in range(r.choice([1, 2]) if g.nn > 1 else 3):
            g.spawn(n, server=False, quiet=False)
    if prof in ("link", "msg", "id", "beat") and r.random() < 0.8:
        g.spawn(r.randint(1, g.nn), server=True, quiet=False)
        if r.random() < 0.3:
            g.spawn(r.randint(1, g.nn), server=True, quiet=False)
    L = r.randint(4, 12)
    if prof in ("msg", "link", "beat") and r.random() < 0.75:
        for n in range(1, g.nn + 1):
            for m in range(1, n):
                if r.random() < 0.85:
                    x, y = (n, m) if r.random() < 0.5 else (m, n)
                    g.steps.append(dict(k="burst", ops=[dict(at=x, a=x, op="connect", n=y)], quiet=r.random() < 0.6))
    if prof == "id" or (prof in ("msg", "link") and r.random() < 0.4):
        # names and aliases to begin with
        for a in g.doers():
            if r.random() < 0.5:
                k = r.choice(["reg", "alias"])
                o = dict(at=g.act[a], a=a, op=k)
                if k == "reg":
                    o["nm"] = r.choice(["a", "b"])
                else:
                    o.update(ref=g.nref(), reply=False)
                    g.als[a].append(g.ref)
                g.steps.append(dict(k="burst", ops=[o], quiet=False))
    if prof == "beat":
        beat(g, L)
    else:
        F = {"msg": (0.3, dict(cut=10, half=0, stall=8, refuse=4, kill=1, wait=1)),
             "link": (0.3, dict(cut=12, stall=8, refuse=3, kill=2, wait=4, stop=1, start=1)),
             "node": (0.4, dict(cut=12, refuse=8, cookie=9, kill=2, stop=3, start=4, stall=2)),
             "id": (0.08, dict(cut=3, kill=1, stall=1, start=1))}[prof]
        if g.nn == 1:
            F = (0, {})
        for _ in range(L):
            if r.random() < F[0]:
                g.fault(F[1])
            elif r.random() < 0.12 and g.nxt < 12:
                g.spawn(r.choice(g.live()), server=prof == "link" and r.random() < 0.4)
            else:
                g.burst(r.choice([1, 1, 2, 2, 3, 4]))
        for x, y in sorted(g.stalled):
            g.steps.append(dict(k="stall", x=x, y=y, on=False))
    sc["steps"] = g.steps
    return sc


def beat(g, L):
    """Time: silence, halves of connections, strangers, and long stretches in which nobody has anything to say."""
    r = g.r
    raws = 0
    for _ in range(r.randint(1, 2)):
        g.burst(r.choice([1, 2, 2]))
    for _ in range(r.randint(2, 4)):
        x = r.random()
        if x < 0.25:
            g.steps.append(dict(k="gaps", ms=r.choice([600, 1200])))
        elif x < 0.45:
            a, b = g.pair()
            g.steps.append(dict(k="stall", x=a, y=b, on=True))
            if r.random() < 0.4:
                g.burst(1)
            g.steps.append(dict(k="wait", ms=r.choice([300, 1500, 2800])))
            if r.random() < 0.6:
                g.steps.append(dict(k="stall", x=a, y=b, on=False))
            else:
                g.stalled.add((a, b))
        elif x < 0.6:
            a, b = g.pair()
            g.steps.append(dict(k="half", x=a, y=b))
            g.steps.append(dict(k="wait", ms=r.choice([300, 1500, 2800])))
        elif x < 0.75:
            raws += 1
            g.steps.append(dict(k="raw", id=raws, n=r.choice(g.live()), kind=r.choice(["idle", "part", "junk"])))
            if r.random() < 0.5:
                g.steps.append(dict(k="wait", ms=r.choice([300, 1500])))
        elif x < 0.85:
            a, b = g.pair()
            g.steps.append(dict(k="cut", x=a, y=b, hard=r.random() < 0.5))
        else:
            g.burst(r.choice([1, 2]))
    for x, y in sorted(g.stalled):
        g.steps.append(dict(k="stall", x=x, y=y, on=False))


PROFS = {"C20": ["msg", "msg", "msg", "link"], "C21": ["link", "link", "link", "node"], "C22": ["node"],
         "C23": ["id"], "C24": ["beat"]}


def gen(prop, seed, count):
    P = PROFS[prop]
    return [script(seed, "%s-%d" % (prop, i), P[i % len(P)]) for i in range(count)]
