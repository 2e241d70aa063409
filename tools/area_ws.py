"""C27: websocket handlers, driven over loopback connections by a client that writes its own frames."""
import concurrent.futures, json, os, random, socket, struct, subprocess, threading, time

import framework as fw
import vlib

MC = {"C27": [("frames", (2, 0), (3, 0)), ("messages", (1, 1), (2, 1))]}


def cfg(maxin, maxacts):
    return """SPECIFICATION Spec
CONSTANTS MaxIn = %d
 Depth = %d
INVARIANTS Once NoneAfter InOrder ReasonOk EndReason AnsweredOk Silence Accounted
CHECK_DEADLOCK FALSE
""" % (maxin, maxacts)


def us():
    return time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 1000


class Server:
    def __init__(self, conf):
        self.conf = dict(conf)
        for _ in range(20):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                port = s.getsockname()[1]
            self.port = self.conf["port"] = port
            self.p = subprocess.Popen([vlib.BIN, "ws"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            self.ev, self.got, self.eof = [], threading.Condition(), False
            self.order(self.conf)
            threading.Thread(target=self.read, daemon=True).start()
            self.wait(lambda: self.eof or self.has("ready") or self.has("failed"), 20)
            if self.has("ready"):
                return
            self.stop()
        raise vlib.ToolError("no websocket server")

    def read(self):
        for l in self.p.stdout:
            with self.got:
                try:
                    self.ev.append(json.loads(l))
                except ValueError:
                    pass
                self.got.notify_all()
        with self.got:
            self.eof = True
            self.got.notify_all()

    def has(self, o, c=None):
        return any(e["o"] == o and (c is None or e.get("c") == c) for e in self.ev)

    def put(self, e):
        with self.got:
            self.ev.append(dict(e, t=us()))
            self.got.notify_all()

    def wait(self, cond, secs):
        with self.got:
            return self.got.wait_for(cond, secs)

    def order(self, o):
        try:
            self.p.stdin.write(json.dumps(o) + "\n")
            self.p.stdin.flush()
        except (OSError, ValueError):
            pass

    def stop(self):
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


OPS = {"cont": 0, "text": 1, "bin": 2, "close": 8, "ping": 9, "pong": 10}


def frame(op, payload, fin=True, rsv=0, mask=True, r=random):
    b = bytes([(0x80 if fin else 0) | rsv << 4 | op])
    n = len(payload)
    m = 0x80 if mask else 0
    if n < 126:
        b += bytes([m | n])
    elif n < 65536:
        b += bytes([m | 126]) + struct.pack(">H", n)
    else:
        b += bytes([m | 127]) + struct.pack(">Q", n)
    if not mask:
        return b + payload
    k = bytes(r.randrange(256) for _ in range(4))
    return b + k + bytes(x ^ k[i & 3] for i, x in enumerate(payload))


def wire(x):
    """What the handler is told to do."""
    d = {"id": x["id"], "cmds": x["cmds"]}
    for k in ("err", "panic", "sleep"):
        if x.get(k):
            d[k] = x[k]
    if x.get("pad"):
        d["pad"] = ""
        n = len(json.dumps(d))
        d["pad"] = "p" * (x["pad"] - n)
    return json.dumps(d)


def act(x):
    return dict(cmds=[dict(k=m["k"], d=m["d"]) for m in x.get("cmds", [])], err=x.get("err", ""), panic=bool(x.get("panic")))


def encode(f, r):
    """The bytes of a frame of the script."""
    k = f["k"]
    if k in ("text", "bin"):
        b = wire(f["x"]).encode()
        cuts = sorted(min(len(b), c) for c in f.get("cuts", []))
        parts = [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
        out = b""
        for i, p in enumerate(parts):
            out += frame(OPS[k] if i == 0 else 0, p, fin=i == len(parts) - 1, r=r)
            if i < len(parts) - 1:
                for g in f.get("within", []):
                    out += frame(OPS[g["k"]], g["d"].encode(), r=r)
        return out
    if k == "close":
        if f["d"] == "":
            return frame(8, b"", r=r)
        code, why = f["d"].split(":", 1)
        return frame(8, struct.pack(">H", int(code)) + why.encode(), r=r)
    if k == "bad":
        w = f["w"]
        return {"opcode": lambda: frame(3, b"x", r=r), "rsv": lambda: frame(1, b"{}", rsv=4, r=r), "unmasked": lambda: frame(1, b"{}", mask=False, r=r),
                "control": lambda: frame(9, b"x" * 126, r=r), "fragctl": lambda: frame(9, b"x", fin=False, r=r), "cont": lambda: frame(0, b"x", r=r),
                "utf8": lambda: frame(1, b"\xff\xfe{}", r=r), "closelen": lambda: frame(8, b"x", r=r),
                "bigframe": lambda: frame(1, b"x" * (f["n"] + 1), r=r),
                "bigmsg": lambda: b"".join(frame(1 if i == 0 else 0, b"x" * (f["n"] // 2 + 1), fin=i == 1, r=r) for i in range(2))}[w]()
    return frame(OPS[k], f["d"].encode(), r=r)


def events_of(f):
    """What the handler will see of a frame, in order."""
    out = []
    if f["k"] in ("text", "bin"):
        if f.get("cuts"):
            for _ in f["cuts"]:
                out += [dict(k=g["k"], d=g["d"], x=act({})) for g in f.get("within", [])]
        out.append(dict(k=f["k"], d=f["x"]["id"], x=act(f["x"])))
    elif f["k"] == "bad":
        out.append(dict(k="bad", d="c:utf8_error" if f["w"] == "utf8" else "c:unknown", x=act({})))
        if f["w"].startswith("big"):
            # (its payload is never read)
            out.append(dict(k="rest", d="", x=act({})))
    else:
        out.append(dict(k=f["k"], d=f["d"], x=act({})))
    return out


def parse(buf):
    """One frame of the server: (frame, rest) or None."""
    if len(buf) < 2:
        return None
    op, n, i = buf[0] & 15, buf[1] & 127, 2
    if n == 126:
        if len(buf) < 4:
            return None
        n, i = struct.unpack(">H", buf[2:4])[0], 4
    elif n == 127:
        if len(buf) < 10:
            return None
        n, i = struct.unpack(">Q", buf[2:10])[0], 10
    if len(buf) < i + n:
        return None
    p = buf[i:i + n]
    k = {v: k for k, v in OPS.items()}.get(op, "op%d" % op)
    if k == "close":
        d = "" if len(p) < 2 else "%d:%s" % (struct.unpack(">H", p[:2])[0], p[2:].decode("utf8", "replace"))
    else:
        d = p.decode("utf8", "replace")
    if not buf[0] & 0x80 or buf[0] & 0x70 or buf[1] & 0x80:
        k = "odd-" + k
    return (k, d), buf[i + n:]


def run_conn(srv, s, c):
    """Runs the script of connection c; its events go into the log of the server."""
    r = random.Random(s["seed"])
    put = lambda o, **kw: srv.put(dict(o=o, c=c, **kw))
    sock = socket.socket()
    sock.settimeout(20)
    sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    t0 = us()
    sock.connect(("127.0.0.1", srv.port))
    if s["kind"] in ("idle", "half", "garbage"):
        try:
            if s["kind"] == "half":
                sock.sendall(b"GET /0/00 HTTP/1.1\r\nHost: x\r\nUpgr")
            if s["kind"] == "garbage":
                sock.sendall(b"\x16\x03\x01 nonsense\r\n\r\n")
            while sock.recv(4096):
                pass
            put("hs", dt=(us() - t0) // 1000, hs=srv.conf["hs"] if s["kind"] != "garbage" else 0)
            put("ceof")
        except socket.timeout:
            put("stuck")
        except OSError:
            put("hs", dt=(us() - t0) // 1000, hs=srv.conf["hs"] if s["kind"] != "garbage" else 0)
            put("ceof")
        put("end")
        sock.close()
        return
    init = dict(s["init"])
    hexed = json.dumps(dict(init, onclose=dict(s["onclose"], id="close"))).encode().hex()
    req = ("GET /%d/%s HTTP/1.1\r\nHost: 127.0.0.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
           "Sec-WebSocket-Version: 13\r\n\r\n" % (c, hexed)).encode()
    put("conn", deny=bool(init.get("deny")), init=act(init), onclose=act(s["onclose"]), trap=bool(init.get("trap")))
    cut = r.randrange(1, len(req)) if s.get("slowreq") else len(req)
    seen = dict(eof=False, up=False)

    def reader():
        buf, up = b"", False
        while True:
            try:
                d = sock.recv(65536)
            except OSError:
                d = b""
            buf += d
            if not up and b"\r\n\r\n" in buf:
                h, buf = buf.split(b"\r\n\r\n", 1)
                up = b" 101 " in h.split(b"\r\n")[0]
                with srv.got:
                    seen["up"] = up
                    srv.got.notify_all()
                if not up:
                    buf = b""
            while up:
                f = parse(buf)
                if not f:
                    break
                (k, dd), buf = f
                put("cr", k=k, d=dd)
            if not d:
                seen["eof"] = True
                put("ceof")
                return
    try:
        sock.sendall(req[:cut])
        if cut < len(req):
            time.sleep(0.02)
            sock.sendall(req[cut:])
    except OSError:
        pass
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    gone = lambda: srv.has("down", c) or seen["eof"]
    # (a client may not send before its request is answered)
    srv.wait(lambda: seen["up"] or seen["eof"], 12)
    inited = False
    for st in s["steps"]:
        if st[0] in ("info", "exit") and not inited:
            inited = srv.wait(lambda: any(e["o"] == "cbb" and e["c"] == c for e in srv.ev) or gone(), 10)
        if st[0] == "send":
            data = b"".join(encode(f, r) for f in st[1])
            for f in st[1]:
                for e in events_of(f):
                    put("cs", **e)
            cuts = sorted(r.randrange(len(data)) for _ in range(st[2])) if data else []
            try:
                for i, j in zip([0] + cuts, cuts + [len(data)]):
                    if i < j:
                        sock.sendall(data[i:j])
                        if cuts:
                            time.sleep(0.003)
            except OSError:
                put("rst")
        elif st[0] == "info":
            srv.order(dict(o="info", c=c, x=json.loads(wire(st[1]))))
            if st[2]:
                srv.wait(lambda: any(e["o"] == "sinfo" and e["c"] == c and e["x"]["id"] == st[1]["id"] for e in srv.ev) or gone(), 10)
        elif st[0] == "exit":
            srv.order(dict(o="exit", c=c, r=st[1]))
        elif st[0] == "sleep":
            time.sleep(st[1] / 1000)
        elif st[0] == "fin":
            put("fin")
            try:
                sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        elif st[0] == "rst":
            put("rst")
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            try:
                # (the reader must not keep it open)
                sock.shutdown(socket.SHUT_RD)
            except OSError:
                pass
            th.join(5)
            sock.close()
    if s["ends"]:
        ok = srv.wait(lambda: (srv.has("down", c) or init.get("deny")) and (seen["eof"]), 12)
    else:
        x = dict(id="sync", cmds=[dict(k="text", d="sync")])
        put("cs", k="text", d="sync", x=act(x))
        try:
            sock.sendall(frame(1, wire(x).encode(), r=r))
        except OSError:
            pass
        srv.wait(lambda: any(e["o"] == "cr" and e["c"] == c and e["d"] == "sync" for e in srv.ev) or gone(), 12)
        y = dict(id="isync", cmds=[dict(k="text", d="isync")])
        srv.order(dict(o="info", c=c, x=json.loads(wire(y))))
        ok = srv.wait(lambda: any(e["o"] == "cr" and e["c"] == c and e["d"] == "isync" for e in srv.ev) or gone(), 12)
    put("end" if ok else "stuck")
    try:
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        sock.shutdown(socket.SHUT_RDWR)
    except OSError:
        pass
    try:
        sock.close()
    except OSError:
        pass


def cmds(r, n, close):
    out = []
    for i in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.choice(["text", "text", "bin", "ping"])
        out.append(dict(k=k, d="%s.%d" % (n, i)))
    if close:
        out.insert(r.randint(0, len(out)), dict(k="c", d="%d:%s" % (r.choice([1000, 1001, 3000, 4000]), r.choice(["bye", "", "why"]))))
        if r.random() < 0.2:
            out.append(dict(k="c", d="1000:second"))
    return out


def conn(r, name, conf):
    """A connection: what the client does."""
    n = [0]

    def nid():
        n[0] += 1
        return "%s%d" % (name, n[0])
    if r.random() < 0.05:
        return dict(kind=r.choice(["idle", "half", "garbage"] if conf.get("hs", 9999) < 1000 else ["garbage"]), seed=r.random())
    init = dict(cmds=cmds(r, "i", r.random() < 0.06), trap=r.random() < 0.4, id="init")
    s = dict(kind="ws", seed=r.random(), init=init, onclose=dict(cmds=[]), steps=[], ends=False, slowreq=r.random() < 0.1)
    ends = any(m["k"] == "c" for m in init["cmds"])
    k = r.random()
    if k < 0.04:
        init["deny"] = True
        init["cmds"] = []
        s["ends"] = True
        return s
    if k < 0.08:
        init["err"] = r.choice(["c:x", "normal", "kill", "ignore", "c:shutdown"])
        ends = True
    elif k < 0.1:
        init["panic"] = True
        ends = True
    if r.random() < 0.15:
        init["sleep"] = r.choice([5, 20, 60])
    if r.random() < 0.2:
        init["tsleep"] = r.choice([5, 30])
    if r.random() < 0.25:
        s["onclose"] = dict(cmds=cmds(r, "c", r.random() < 0.3), err=r.choice(["", "", "c:x", "normal"]))

    def action(final=False):
        x = dict(id=nid(), cmds=[])
        k = r.random()
        if final:
            w = r.choice(["err", "close", "close", "panic"])
            if w == "err":
                x["err"] = r.choice(["c:x", "normal", "kill", "ignore", "c:shutdown", "c:y"])
                x["cmds"] = cmds(r, x["id"], False)
            elif w == "panic":
                x["panic"] = True
            else:
                x["cmds"] = cmds(r, x["id"], True)
        else:
            x["cmds"] = cmds(r, x["id"], False)
        if r.random() < 0.2:
            x["sleep"] = r.choice([2, 10, 30])
        return x

    def fr(final=False):
        k = r.choice(["text", "text", "text", "bin", "ping", "pong"]) if not final else r.choice(["text", "bin"])
        if k in ("ping", "pong"):
            return dict(k=k, d=nid() if r.random() < 0.9 else "")
        f = dict(k=k, x=action(final))
        if "maxmsg" in conf and r.random() < 0.15:
            f["x"]["pad"] = min(conf["maxmsg"], conf.get("maxframe", 10 ** 9))
            if r.random() < 0.5 and conf.get("maxframe", 10 ** 9) < conf["maxmsg"]:
                f["x"]["pad"] = conf["maxmsg"]
                f["cuts"] = [conf["maxmsg"] // 2]
        elif r.random() < 0.2:
            f["cuts"] = sorted(r.randrange(0, 60) for _ in range(r.choice([1, 1, 2, 3])))
        elif r.random() < 0.05:
            f["x"]["pad"] = r.choice([70000, 200, 1000]) if "maxmsg" not in conf else 200
        if f.get("cuts") and r.random() < 0.5:
            f["within"] = [dict(k=r.choice(["ping", "pong"]), d=nid())]
        return f
    for _ in range(r.randint(0, 6)):
        k = r.random()
        if k < 0.55:
            s["steps"].append(["send", [fr() for _ in range(r.choice([1, 1, 2, 3, 4]))], r.choice([0, 0, 0, 1, 2])])
        elif k < 0.85:
            s["steps"].append(["info", action(), r.random() < 0.5])
        elif k < 0.92 and init["trap"]:
            s["steps"].append(["exit", r.choice(["c:x", "normal", "c:shutdown"])])
        elif k < 0.92:
            s["steps"].append(["exit", "normal"])
        else:
            s["steps"].append(["sleep", r.choice([2, 10, 30])])
    if r.random() < 0.6:
        w = r.choice(["frame", "frame", "info", "close", "close", "fin", "rst", "bad", "kill"])
        ends = True
        extra = [fr() for _ in range(r.choice([0, 0, 1, 2]))]
        if w == "frame":
            s["steps"].append(["send", [fr(True)] + extra, 0])
        elif w == "info":
            s["steps"].append(["info", action(True), False])
        elif w == "close":
            # nothing may follow the close of a client
            s["steps"].append(["send", extra + [dict(k="close", d=r.choice(["", "1000:bye", "1001:", "3000:x", "4999:y"]))], r.choice([0, 1])])
            if r.random() < 0.2:
                s["steps"].append(["fin"])
        elif w == "fin":
            s["steps"].append(["fin"])
        elif w == "rst":
            s["steps"].append(["rst"])
        elif w == "bad":
            ws = ["opcode", "rsv", "unmasked", "control", "fragctl", "cont", "utf8", "closelen"]
            f = dict(k="bad", w=r.choice(ws))
            if "maxframe" in conf and r.random() < 0.4:
                f = dict(k="bad", w="bigframe", n=min(conf["maxframe"], conf["maxmsg"]))
            elif "maxmsg" in conf and r.random() < 0.4:
                f = dict(k="bad", w="bigmsg", n=conf["maxmsg"])
            s["steps"].append(["send", extra + [f] + [fr() for _ in range(r.choice([0, 0, 1]))], r.choice([0, 1])])
        else:
            s["steps"].append(["exit", r.choice(["kill"] if init["trap"] else ["kill", "c:x", "c:shutdown"])])
        if r.random() < 0.3:
            s["steps"].append(["info", action(), False])
    s["ends"] = ends
    return s


CONFS = [dict(), dict(hs=300), dict(maxmsg=4000, maxframe=3000), dict(maxmsg=1500), dict(hs=2000, maxmsg=3000, maxframe=5000)]


def groups(n, seed):
    """A group: the connections of one server, which run side by side in batches."""
    r = random.Random("ws-%d" % seed)
    out = []
    for i in range(n):
        conf = CONFS[i % len(CONFS)]
        bs = [[conn(r, "abcd"[j], conf) for j in range(r.choice([1, 2, 3, 4]))] for _ in range(6)]
        bs.append([dict(kind="ws", seed=1, init=dict(cmds=[], id="init"), onclose=dict(cmds=[]), steps=[["send", [dict(k="text", x=dict(id="z", cmds=[dict(k="text", d="z.0")]))], 0]], ends=False)])
        out.append(dict(id="w%d" % i, conf=conf, batches=bs))
    return out


def run_group(g):
    srv = Server(g["conf"])
    names, n = {}, 0
    try:
        for b in g["batches"]:
            ths = []
            for s in b:
                n += 1
                names[n] = "%s.%d" % (g["id"], n)
                ths.append(threading.Thread(target=run_conn, args=(srv, s, n)))
            for th in ths:
                th.start()
            for th in ths:
                th.join()
        srv.order(dict(o="alive"))
        srv.wait(lambda: srv.has("server") or srv.eof, 10)
        alive = [e for e in srv.ev if e["o"] == "server"]
    finally:
        srv.stop()
    out = [dict(id=g["id"] + ".server", ev=[dict(o="server", alive=bool(alive and alive[0]["alive"]))])]
    evs = sorted(srv.ev, key=lambda e: e["t"])
    for c, name in names.items():
        ev = []
        for e in evs:
            if e.get("c") != c:
                continue
            e = {k: v for k, v in e.items() if k not in ("c", "t")}
            if e["o"] == "sinfo":
                x = e.pop("x")
                e.update(d=x["id"], x=act(x))
            ev.append(e)
            if e["o"] in ("end", "stuck"):
                break
        out.append(dict(id=name, ev=ev))
    return out


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for name, q, t in MC[prop]:
        fw.design(res, name, "WsMC", cfg(*(t if thorough else q)), timeout=3000)
    gs = groups(3000 if thorough else 300, seed)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        got = list(ex.map(run_group, gs))
    byid = {t["id"]: g for g, ts in zip(gs, got) for t in ts}
    traces = [t for ts in got for t in ts]
    res.runs += len(traces)
    bad, st = vlib.validate("WsTrace", traces)
    again = []
    for t, i, msg in bad[:12]:
        if t["ev"][min(i, len(t["ev"]) - 1)]["o"] not in ("stuck", "hs", "end"):
            again.append(t)
            continue
        # too late: what happens once may be the machine's doing
        x = [u for _ in range(3) for u in run_group(byid[t["id"]]) if u["id"] == t["id"]]
        b, _ = vlib.validate("WsTrace", [dict(y, id="%s#%d" % (t["id"], j)) for j, y in enumerate(x)])
        if len(b) >= 2:
            again.append(t)
    ids = {b[0]["id"] for b in bad}
    good = [t for t in traces if t["id"] not in ids]
    fw.check_traces(res, "connections", "WsTrace", again + good, {t["id"]: byid[t["id"]] for t in traces}, "ws")
    return res
