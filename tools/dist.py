"""Runs scripts on distributed nodes: every node is a process of its own, every connection between two of them goes
through a proxy that can hold bytes back, cut connections and refuse them.  Nothing here knows the wire format."""
import asyncio, collections, json, multiprocessing, os, random, re, signal, socket, struct, sys, time

import vlib

HOST = "127.0.0.1"
_port = [0]


def us():
    return time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 1000


_held = collections.deque()


def port():
    """A port nobody uses, below the range connections get theirs from.  Other checks that run at the same time
    do not take it either: it is reserved by an abstract socket of its number."""
    while True:
        if _port[0] == 0:
            _port[0] = 10000 + (os.getpid() * 97) % 20000
        _port[0] = _port[0] + 1 if _port[0] < 31999 else 10000
        k = socket.socket(socket.AF_UNIX)
        try:
            k.bind("\0vh-port-%d" % _port[0])
            with socket.socket() as s:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind((HOST, _port[0]))
        except OSError:
            k.close()
            continue
        _held.append(k)
        while len(_held) > 200:
            _held.popleft().close()
        return _port[0]


class Dead(Exception):
    pass


class Side(asyncio.Protocol):
    """The proxy's socket towards one of the two nodes of a connection; bytes that come in here go out on the other one."""

    def __init__(self, conn, x, y):
        self.conn, self.x, self.y = conn, x, y      # the node at the other end of this socket, and the node its bytes go to
        self.tr, self.peer = None, None
        self.buf, self.eof, self.closed = bytearray(), False, False
        self.pumping = False

    def connection_made(self, tr):
        self.tr = tr
        tr.get_extra_info("socket").setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def data_received(self, data):
        self.conn.net.act += 1
        self.conn.net.chunks.append((us(), self.x, self.y, len(data)))
        self.buf += data
        self.pump()

    def connection_lost(self, exc):
        self.conn.net.act += 1
        self.closed = self.eof = True
        self.pump()

    def eof_received(self):
        self.conn.net.act += 1
        self.eof = True
        self.pump()
        return True

    def pump(self):
        net = self.conn.net
        if self.peer is None or self.peer.tr is None:
            return
        if (self.x, self.y) in net.stalled:
            return
        if self.peer.closed:
            self.buf.clear()
            # It learns about it like it would hear anything else from there.
            if self.tr and not self.closed and self.conn.halved is None and (self.y, self.x) not in net.stalled:
                self.tr.abort()
            return
        if self.buf:
            if net.seg:
                if not self.pumping:
                    self.pumping = True
                    asyncio.get_running_loop().create_task(self.dribble())
                return
            if net.delay:
                if not self.pumping:
                    self.pumping = True
                    asyncio.get_running_loop().call_later(net.delay, self.flush)
                return
            self.peer.tr.write(bytes(self.buf))
            self.buf.clear()
        if self.eof and self.conn.halved is None:
            self.peer.tr.close()
            if self.tr:
                self.tr.close()

    def flush(self):
        self.pumping = False
        if (self.x, self.y) in self.conn.net.stalled or self.peer.closed:
            return
        self.conn.net.act += 1
        self.peer.tr.write(bytes(self.buf))
        self.buf.clear()
        self.pump()

    async def dribble(self):
        net = self.conn.net
        while self.buf and (self.x, self.y) not in net.stalled and not self.peer.closed:
            k = net.rnd.randint(1, net.seg)
            self.peer.tr.write(bytes(self.buf[:k]))
            del self.buf[:k]
            net.act += 1
            await asyncio.sleep(0)
        self.pumping = False
        if not self.buf:
            self.pump()


class Conn:
    def __init__(self, net, x, y):
        self.net, self.halved = net, None
        self.sides = {}

    def close(self, hard, rnd=None):
        for s in self.sides.values():
            if s.tr:
                if hard:
                    s.tr.abort()
                else:
                    s.tr.close()
            s.closed = True


class Agent:
    def __init__(self, net, n, name):
        self.net, self.n, self.name = net, n, name
        self.listen, self.bcast = port(), port()
        self.pending, self.c = {}, 0
        self.alive = True

    async def run(self):
        self.p = await asyncio.create_subprocess_exec(vlib.BIN, "node", stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE,
                                                      stderr=asyncio.subprocess.PIPE, limit=1 << 24)
        self.reader = asyncio.get_running_loop().create_task(self.read())
        self.errs = asyncio.get_running_loop().create_task(self.err())

    async def err(self):
        async for l in self.p.stderr:
            if os.environ.get("DBG"): print(l)
            if b"harness:" in l:
                self.net.broken = l.decode()

    async def read(self):
        async for l in self.p.stdout:
            self.net.act += 1
            e = json.loads(l)
            e["n"] = self.n
            self.net.seen(self, e)

    def order(self, op, a):
        self.c += 1
        c = "%d.%d" % (self.n, self.c)
        o = dict(op, a=a, c=c)
        self.pending[c] = asyncio.get_running_loop().create_future()
        self.net.ops[c] = o
        self.p.stdin.write((json.dumps(o) + "\n").encode())
        return c

    async def admin(self, **op):
        c = self.order(op, 0)
        return await asyncio.wait_for(self.pending[c], 20)

    def threads(self):
        out = []
        base = "/proc/%d/task" % self.p.pid
        try:
            for t in os.listdir(base):
                with open("%s/%s/status" % (base, t)) as f:
                    x = f.read()
                name = x[6:x.index("\n")]
                if name.startswith("Timer thread"):
                    continue
                st = re.search(r"State:\t(\w)", x).group(1)
                sw = re.search(r"\nvoluntary_ctxt_switches:\t(\d+)", x).group(1)
                if st not in "SI":
                    return None
                out.append((t, sw))
        except (OSError, ValueError, AttributeError):
            return None
        return out

    def stop(self):
        self.alive = False
        try:
            self.p.kill()
        except ProcessLookupError:
            pass


class Net:
    """One execution of a script."""

    def __init__(self, script):
        self.sc = script
        self.rnd = random.Random(script.get("seed", 0))
        self.act = 0
        self.stalled, self.refused = set(), set()
        self.seg = script.get("seg", 0)
        self.delay = script.get("delay", 0)
        self.conns, self.servers = [], []
        self.chunks = []
        self.ops, self.ev = {}, []
        self.broken = None
        self.store = {}
        self.t0 = us()
        self.nn = len(script["nodes"])
        self.agents = {}
        self.pidjs, self.names = {}, {}
        self.aliases = {}
        self.gone = set()
        self.refs = set()
        self.raws = []
        self.sent = {op["m"]: [x[:-1] if x[-1] == "st" else x for x in op.get("ids", [])]
                     for st in script["steps"] for op in st.get("ops", []) if op["op"] == "send"}

    # ---- the proxy
    def initiator(self, sport, dport):
        """Which node has the connection from this port."""
        want = "%08X:%04X" % (struct.unpack("<I", socket.inet_aton(HOST))[0], sport)
        inode = None
        with open("/proc/self/net/tcp") as f:
            for l in f:
                p = l.split()
                if p[1] == want and p[2].endswith(":%04X" % dport):
                    inode = p[9]
                    break
        if inode is None:
            return None
        w = "socket:[%s]" % inode
        for a in self.agents.values():
            try:
                for fd in os.listdir("/proc/%d/fd" % a.p.pid):
                    try:
                        if os.readlink("/proc/%d/fd/%s" % (a.p.pid, fd)) == w:
                            return a.n
                    except OSError:
                        pass
            except OSError:
                pass
        return None

    def accept(self, y):
        conn = Conn(self, None, y)

        class Front(Side):
            def connection_made(s, tr):
                super().connection_made(tr)
                self.act += 1
                pn = tr.get_extra_info("peername")
                x = self.initiator(pn[1], self.agents[y].bcast)
                if x is None or (x, y) in self.refused or not self.agents[y].alive:
                    s.closed = True
                    tr.abort()
                    return
                s.x, s.y = x, y
                conn.sides[x] = s
                self.conns.append((x, y, conn))
                self.act += 1
                asyncio.get_running_loop().create_task(self.back(conn, s, x, y))
        return Front(conn, None, y)

    async def back(self, conn, front, x, y):
        b = Side(conn, y, x)
        try:
            await asyncio.get_running_loop().create_connection(lambda: b, HOST, self.agents[y].listen)
        except OSError:
            self.act += 1
            front.closed = True
            front.tr.abort()
            return
        self.act += 1
        if front.closed:
            b.tr.abort()
            return
        conn.sides[y] = b
        front.peer, b.peer = b, front
        front.pump()
        b.pump()

    def between(self, x, y):
        return [c for a, b, c in self.conns if {a, b} == {x, y}]

    # ---- what the agents say
    def seen(self, ag, e):
        self.ev.append(e)
        if e["o"] == "ret":
            f = ag.pending.pop(e["c"], None)
            if f and not f.done():
                f.set_result(e["r"])
            op = self.ops[e["c"]]
            if op["op"] == "alias":
                self.aliases[op["ref"]] = (ag.n, e["r"])
        elif e["o"] == "up":
            self.pidjs[e["a"]] = (ag.n, e["pid"])
            self.names[(ag.n, json.dumps(e["pid"]))] = e["a"]
            self.names.setdefault(json.dumps(e["pid"]), e["a"])
        elif e["o"] == "gone":
            self.gone.add(e["a"])
        elif e["o"] == "msg" and e.get("ids"):
            for x, w in zip(e["ids"], self.sent.get(e["m"], [])):
                self.store.setdefault((ag.n, json.dumps(w)), []).append(x["i"])

    def log(self, o, **kw):
        self.ev.append(dict(o=o, t=us(), **kw))

    async def quiet(self, secs=8):
        """Waits until no agent does anything and no bytes are on their way."""
        end = time.monotonic() + secs
        last, n = None, 0
        while time.monotonic() < end:
            if self.broken:
                raise vlib.ToolError(self.broken)
            await asyncio.sleep(0.004)
            cur = [self.act]
            for a in self.agents.values():
                if a.alive:
                    th = a.threads()
                    if th is None:
                        cur = None
                        break
                    cur.append(th)
            if cur is not None and any(s.tr and not s.closed and s.tr.get_write_buffer_size() for _, _, c in self.conns for s in c.sides.values()):
                cur = None
            if cur is not None and any(s.pumping for _, _, c in self.conns for s in c.sides.values()):
                cur = None
            if cur is not None and cur == last:
                n += 1
                if n >= 2:
                    return True
            else:
                n = 0
            last = cur
        self.log("noquiet")
        return False

    async def snap(self):
        al = [a for a in self.agents.values() if a.alive]
        out = []
        for a in al:
            out.append((a.n, await a.admin(op="snap")))
        self.log("snap", nodes=[dict(n=n, **r) for n, r in out])

    # ---- orders, with the names of the script replaced by what the nodes understand
    def target(self, t):
        """A node of the script: a number, or [name, number] for a wrong name at an address, or a dead address."""
        if isinstance(t, int):
            return "%s@%s:%d" % (self.agents[t].name, HOST, self.agents[t].bcast)
        if t[1] == 0:
            if not hasattr(self, "deadport"):
                self.deadport = port()
            return "%s@%s:%d" % (t[0], HOST, self.deadport)
        return "%s@%s:%d" % (t[0], HOST, self.agents[t[1]].bcast)

    def enc_node(self, n, t):
        if isinstance(t, dict):
            return dict(k="st", i=self.store[(n, t["st"])])
        return self.target(t)

    def abroad(self, j):
        """What has no meaning on other nodes is not carried there."""
        if "WithNode" not in j:
            raise KeyError(j)
        return j

    def enc_pid(self, n, q):
        if isinstance(q, dict):
            return dict(k="st", i=self.store_index(n, q["st"]))
        pn, j = self.pidjs[q]
        if pn == n:
            return dict(k="own", a=q)
        return dict(k="p", v=self.abroad(j))

    def store_index(self, n, e):
        return self.store[(n, json.dumps(e))][0]

    def enc_dest(self, n, d):
        if d["k"] == "n":
            if d["n"] == n:
                return dict(k="n", nm=d["nm"])
            return dict(k="n", nm=d["nm"], node=self.enc_node(n, d["n"]))
        if d["k"] == "a":
            pn, j = self.aliases[d["ref"]]
            return dict(k="owna", ref=d["ref"]) if pn == n else dict(k="a", v=self.abroad(j))
        if d["k"] == "st":
            return dict(k="st", i=self.store_index(n, d["e"]))
        return self.enc_pid(n, d["p"])

    def enc_id(self, n, e):
        """An identity to be sent along: ["p", pid], ["r", ref], ["n", node], ["d", dest...]."""
        if len(e) > 2 and e[-1] == "st":
            return dict(k="st", i=self.store_index(n, e[:-1]))
        if e[0] == "p":
            return self.enc_pid(n, e[1])
        if e[0] == "r":
            pn, j = self.aliases[e[1]]
            return dict(k="ref", ref=e[1]) if pn == n else dict(k="refv", v=self.abroad(j))
        if e[0] == "n":
            return dict(k="here") if e[1] == n else dict(k="node", node=self.target(e[1]))
        if e[0] == "dp":
            return dict(k="dest", d=self.enc_pid(n, e[1]))
        if e[0] == "dr":
            return dict(k="dest", d=self.enc_dest(n, dict(k="a", ref=e[1])))
        if e[0] == "dn":
            return dict(k="dest", d=self.enc_dest(n, dict(k="n", nm=e[1], n=e[2])))
        raise ValueError(e)

    def encode(self, n, op):
        o = dict(op)
        if "p" in o:
            o["p"] = self.enc_pid(n, o["p"])
        if "d" in o:
            o["d"] = self.enc_dest(n, o["d"])
        if "ds" in o:
            o["ds"] = [self.enc_dest(n, d) for d in o["ds"]]
        if "ids" in o:
            o["ids"] = [self.enc_id(n, e) for e in o["ids"]]
        if "n" in o:
            o["n"] = self.enc_node(n, o["n"])
        return o

    async def start(self, n):
        a = self.agents[n]
        c = self.sc["nodes"][n - 1]
        await a.admin(op="start", name=a.name, listen=a.listen, bcast=a.bcast, hs=c["hs"], int=c["int"], to=c["to"], opts=c["opts"])
        pids = await a.admin(op="pids")
        for k, v in pids.items():
            self.pidjs[int(k)] = (n, v)
            self.names[(n, json.dumps(v))] = int(k)
            self.names[json.dumps(v)] = int(k)
        self.log("start", n=n)

    async def step(self, st):
        k = st["k"]
        if k == "burst":
            wait = []
            for op in st["ops"]:
                n = op["at"]
                a = self.agents[n]
                if not a.alive or op["a"] in self.gone:
                    continue
                try:
                    w = self.encode(n, {x: v for x, v in op.items() if x not in ("a", "at")})
                except KeyError:
                    # It needs something that never came to be.
                    continue
                if op["op"] in ("demon", "nodedemon", "unalias") and op["ref"] not in self.refs:
                    continue
                if "ref" in op:
                    self.refs.add(op["ref"])
                c = a.order(w, 0 if op["a"] <= self.nn else op["a"])
                self.ops[c] = dict(op)
                if op["op"] not in ("gcall", "ret", "panic"):
                    wait.append((a, op["a"], a.pending[c]))
                if op.get("gap"):
                    await asyncio.sleep(op["gap"] / 1000)
            end = time.monotonic() + 8
            for a, x, f in wait:
                while not f.done() and a.alive and x not in self.gone and time.monotonic() < end:
                    await asyncio.wait([f], timeout=0.02)
        elif k == "spawn":
            a = self.agents[st["n"]]
            if not a.alive:
                return
            if st.get("server"):
                await a.admin(op="server", id=st["a"])
            else:
                await a.admin(op="spawn", id=st["a"], trap=st.get("trap", False))
            end = time.monotonic() + 5
            while st["a"] not in self.pidjs and time.monotonic() < end:
                await asyncio.sleep(0.002)
            self.log("spawn", a=st["a"], n=st["n"], trap=st.get("trap", False), srv=bool(st.get("server")))
        elif k == "start":
            await self.start(st["n"])
        elif k == "cookie":
            await self.agents[st["n"]].admin(op="cookie", v=st["v"])
            self.log("cookie", n=st["n"], v=st["v"] if st["v"] is not None else "")
        elif k == "cut":
            self.log("cut", x=st["x"], y=st["y"])
            for c in self.between(st["x"], st["y"]):
                c.close(st.get("hard", False))
        elif k == "half":
            # Only x learns that the connections with y are gone.
            self.log("half", x=st["x"], y=st["y"])
            for c in self.between(st["x"], st["y"]):
                if c.halved is None:
                    c.halved = st["x"]
                    s = c.sides.get(st["x"])
                    if s and s.tr:
                        s.closed = True
                        s.buf.clear()
                        s.tr.abort()
        elif k == "refuse":
            self.log("refuse", x=st["x"], y=st["y"], on=st["on"])
            (self.refused.add if st["on"] else self.refused.discard)((st["x"], st["y"]))
        elif k == "stall":
            self.log("stall", x=st["x"], y=st["y"], on=st["on"])
            (self.stalled.add if st["on"] else self.stalled.discard)((st["x"], st["y"]))
            if not st["on"]:
                for c in self.between(st["x"], st["y"]):
                    for s in list(c.sides.values()):
                        s.pump()
        elif k == "kill":
            self.log("kill", n=st["n"])
            self.agents[st["n"]].stop()
            await asyncio.sleep(0.01)
        elif k == "wait":
            await asyncio.sleep(st["ms"] / 1000)
        elif k == "raw":
            await self.raw(st)
        elif k == "gaps":
            await self.gaps(st)
        elif k == "replay":
            await self.replay(st)
        else:
            raise ValueError(k)
        if st.get("quiet", True):
            await self.quiet()
            await self.snap()

    async def raw(self, st):
        """Someone connects to a node and does not complete the handshake."""
        s = socket.socket()
        s.setblocking(False)
        loop = asyncio.get_running_loop()
        await loop.sock_connect(s, (HOST, self.agents[st["n"]].listen))
        self.log("raw", id=st["id"], n=st["n"], kind=st["kind"])
        t = loop.create_task(self.rawread(s, st))
        self.raws.append(t)
        if st["kind"] == "part":
            await loop.sock_sendall(s, bytes([200, 0, 0, 0, 0, 0]))
        elif st["kind"] == "junk":
            await loop.sock_sendall(s, bytes([8, 0, 0, 0] + [255] * 8))

    async def rawread(self, s, st):
        loop = asyncio.get_running_loop()
        try:
            while await loop.sock_recv(s, 4096):
                pass
        except OSError:
            pass
        self.log("rawend", id=st["id"], n=st["n"])
        s.close()

    async def gaps(self, st):
        """Watches what nodes with nothing to say send each other."""
        n0, t0 = len(self.chunks), us()
        await asyncio.sleep(st["ms"] / 1000)
        t1 = us()
        c = self.chunks[n0:]
        for x in range(1, self.nn + 1):
            for y in range(1, self.nn + 1):
                if x != y:
                    ts = [t for t, a, b, _ in c if (a, b) == (x, y)]
                    pts = [t0] + ts + [t1]
                    self.log("gap", x=x, y=y, max=max(b - a for a, b in zip(pts, pts[1:])) // 1000, n=len(ts), w=(t1 - t0) // 1000)

    async def replay(self, st):
        """Someone without a cookie answers with the greeting it got from another node (n: who is asked, of: whose greeting)."""
        loop = asyncio.get_running_loop()

        async def hello(n):
            s = socket.socket()
            s.setblocking(False)
            await loop.sock_connect(s, (HOST, self.agents[n].listen))
            d = await asyncio.wait_for(loop.sock_recv(s, 65536), 5)
            return s, d
        s1, h = await hello(st["of"])
        s1.close()
        await asyncio.sleep(0.05)
        s2, _ = await hello(st["n"])
        self.log("replay", n=st["n"], of=st["of"])
        await loop.sock_sendall(s2, h)
        await asyncio.sleep(0.3)
        await self.quiet()
        await self.snap()
        s2.close()
        self.log("replayend", n=st["n"], of=st["of"])

    async def run(self):
        loop = asyncio.get_running_loop()
        try:
            for i, c in enumerate(self.sc["nodes"]):
                a = Agent(self, i + 1, c["name"])
                self.agents[i + 1] = a
            await asyncio.gather(*(a.run() for a in self.agents.values()))
            for y in self.agents:
                self.servers.append(await loop.create_server(lambda y=y: self.accept(y), HOST, self.agents[y].bcast, backlog=64))
            for st in self.sc["steps"]:
                await self.step(st)
                if any(e["o"] == "noquiet" for e in self.ev[-3:]):
                    break
            if self.raws:
                await asyncio.wait(self.raws, timeout=10)
            self.log("end")
        except (asyncio.TimeoutError, BrokenPipeError, ConnectionResetError) as e:
            self.log("hang", what=repr(e)[:200])
        finally:
            for s in self.servers:
                s.close()
            for _, _, c in self.conns:
                c.close(True)
            for a in self.agents.values():
                if hasattr(a, "p"):
                    a.stop()
            for a in self.agents.values():
                if hasattr(a, "p"):
                    await a.p.wait()
                    a.reader.cancel()
                    a.errs.cancel()
        if self.broken:
            raise vlib.ToolError(self.broken)
        import disttrace
        return disttrace.build(self)


async def many(scripts, width):
    sem = asyncio.Semaphore(width)
    out = {}

    async def one(s):
        async with sem:
            try:
                out[s["id"]] = await asyncio.wait_for(Net(s).run(), 120)
            except asyncio.TimeoutError:
                out[s["id"]] = dict(id=s["id"], ev=[dict(o="hang")], cfg={})
    await asyncio.gather(*(one(s) for s in scripts))
    return [out[s["id"]] for s in scripts]


def worker(arg):
    scripts, width = arg
    return asyncio.run(many(scripts, width))


def run(scripts, jobs=8, width=3):
    n = max(1, min(jobs * 4, (len(scripts) + width - 1) // width))
    chunks = [scripts[i::n] for i in range(n)]
    with multiprocessing.get_context("fork").Pool(min(jobs, n)) as pool:
        res = pool.map(worker, [(c, width) for c in chunks], chunksize=1)
    by = {t["id"]: t for r in res for t in r}
    return [by[s["id"]] for s in scripts]
