"""C26: applications, each run in a process of its own with real signals and real time."""
import concurrent.futures, json, os, queue, random, signal, subprocess, threading, time

import framework as fw
import vlib

MC = {"C26": [("protocol", (4, "{0, 2}"), (8, "{0, 2, 3}"))]}


def cfg(maxt, timeouts):
    return """SPECIFICATION Spec
CONSTANTS Slack = 2
 MaxT = %d
 Timeouts = %s
INVARIANTS EndOk ReturnOk NotEarly HearOk
CHECK_DEADLOCK FALSE
""" % (maxt, timeouts)


def ms():
    return time.clock_gettime_ns(time.CLOCK_MONOTONIC) // 1000


def catches(pid, sig):
    try:
        for l in open("/proc/%d/status" % pid):
            if l.startswith("SigCgt:"):
                return bool(int(l.split()[1], 16) >> (sig - 1) & 1)
    except OSError:
        pass
    return False


def run_script(s):
    """Runs a script [dict(id, runs, steps)], returns the trace."""
    p = subprocess.Popen([vlib.BIN, "app"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    ev = []
    got = threading.Condition()

    def reader():
        for l in p.stdout:
            with got:
                ev.append(json.loads(l))
                got.notify_all()
        with got:
            ev.append(dict(o="eof", t=ms()))
            got.notify_all()
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    start = ms()

    def put(e):
        with got:
            ev.append(dict(e, t=ms()))

    def wait(cond, secs):
        with got:
            return got.wait_for(cond, secs)

    def count(o):
        return sum(1 for e in ev if e["o"] == o)

    def dead():
        return any(e["o"] == "eof" for e in ev)

    def send(l):
        try:
            p.stdin.write(l + "\n")
            p.stdin.flush()
        except OSError:
            pass
    send(json.dumps(s["runs"]))
    for i, steps in enumerate(s["steps"]):
        c = s["runs"][i]
        wait(lambda: count("startret") > i or dead(), 10)
        if c["start"] not in ("err", "panic", "pre"):
            wait(lambda: count("up") > i or dead(), 10)
            if c["graceful"] and not c.get("test"):
                t0 = time.time()
                while time.time() - t0 < 10 and not catches(p.pid, signal.SIGTERM) and count("returned") <= i and p.poll() is None:
                    time.sleep(0.002)
                time.sleep(0.01)
                if catches(p.pid, signal.SIGTERM) and catches(p.pid, signal.SIGINT):
                    put(dict(o="handler"))
        for st in steps:
            if st[0] == "sleep":
                with got:
                    got.wait_for(lambda: count("returned") > i or dead(), st[1] / 1000)
            elif st[0] == "sig":
                with got:
                    if count("returned") > i:
                        continue
                put(dict(o="term"))
                try:
                    os.kill(p.pid, st[1])
                except OSError:
                    pass
            elif st[0] == "say":
                send("%s %s" % (st[1], st[2]))
            elif st[0] == "wait":
                # until it has ended, or had all the time it needs
                ok = wait(lambda: count("returned") > i or dead(), st[1] / 1000)
                if not ok:
                    put(dict(o="still"))
    if s.get("ends", True):
        try:
            rc = p.wait(10)
            put(dict(o="exit", code=rc))
        except subprocess.TimeoutExpired:
            put(dict(o="still"))
    p.kill()
    p.wait()
    th.join(5)
    ev = sorted([e for e in ev if e["o"] != "eof"], key=lambda e: e["t"])
    for e in ev:
        e["t"] = (e["t"] - start) // 1000
    keys = ("graceful", "timeout", "test", "trap")
    return dict(id=s["id"], ev=[dict(o="cfg", runs=[{k: r.get(k, False) for k in keys} for r in s["runs"]])] + ev)


def one(r, first, last):
    """The configuration of a run and the steps of the driver."""
    c = dict(graceful=r.random() < 0.75, timeout=r.choice([400, 500, 700, 1000]), trap=r.random() < 0.65, start=r.choices(["ok", "slow", "err", "panic", "pre"], [12, 2, 1, 1, 1])[0],
             onshut=r.choice(["stop", "ignore"]), cleanup=r.choice([0, 50, 150, 300]), sides=r.randint(0, 2), reason=r.choice(["c:x", "normal", "c:shutdown"]),
             test=r.random() < 0.15)
    if r.random() < 0.12:
        c["linked"] = False
    st = []
    end = ["say", "root", r.choice(["ret", "panic", "c:x", "c:shutdown", "kill", "ignore", "normal"])] if r.random() < 0.85 else ["say", "x", "killroot"]
    if c["start"] in ("err", "panic", "pre"):
        return c, [["wait", 10000]], True
    for _ in range(r.choice([0, 1, 2, 3])):
        k = r.choice(["side", "poke", "spoof", "msg", "sleep", "linkdie"])
        if k == "side":
            st.append(["say", "side%d" % r.randint(0, 1), r.choice(["ret", "panic", "c:x", "kill", "c:shutdown"])])
        elif k == "poke":
            st.append(["say", "x", r.choice(["pokeapp", "pokeshut"])])
        elif k == "spoof":
            st.append(["say", "root", r.choice(["spoof", "spoofshut", "spoofnormal"])])
        elif k == "msg":
            st.append(["say", "x", "msgapp"])
        elif k == "linkdie":
            st.append(["say", "x", "linkdie"])
        else:
            st.append(["sleep", r.choice([5, 30, 100])])
    if r.random() < 0.6:
        st.append(["sleep", r.choice([20, 80, 150])])
    plain = not c["graceful"] or c["test"]
    k = r.random()
    if not first:
        # (a signal handler stays for ever)
        st += [end, ["wait", 10000]]
        return c, st, True
    if plain:
        if last and k < 0.4:
            st.append(["sig", r.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGTERM])])
            return c, st, True
        st += [end, ["wait", 10000]]
        return c, st, True
    if k < 0.75:
        st.append(["sig", r.choice([signal.SIGTERM, signal.SIGINT])])
        for _ in range(r.choice([0, 0, 1, 2])):
            st += [["sleep", r.choice([20, 150, 250])], r.choice([["sig", signal.SIGTERM], ["say", "x", "pokeapp"], ["say", "root", "spoof"], ["say", "side0", "panic"], end])]
        # it must have ended by then
        st.append(["wait", c["timeout"] + 9000])
    else:
        st += [end, ["wait", 10000]]
    return c, st, True


def scripts(n, seed):
    r = random.Random("app-%d" % seed)
    out = []
    for i in range(n):
        k = 2 if r.random() < 0.12 else 1
        rs = [one(r, j == 0, j == k - 1) for j in range(k)]
        out.append(dict(id="a%d" % i, runs=[c for c, _, _ in rs], steps=[s for _, s, _ in rs]))
    return out


def run(prop, tier, seed):
    res = fw.Result()
    thorough = tier == "thorough"
    for name, q, t in MC[prop]:
        fw.design(res, name, "AppMC", cfg(*(t if thorough else q)), timeout=3000)
    ss = scripts(3000 if thorough else 400, seed)
    byid = {s["id"]: s for s in ss}
    with concurrent.futures.ThreadPoolExecutor(16) as ex:
        traces = list(ex.map(run_script, ss))
    res.runs += len(traces)
    bad, st = vlib.validate("AppTrace", traces)
    again = []
    for t, i, msg in bad[:12]:
        # real time: what happens once may be the machine's doing
        x = [run_script(byid[t["id"]]) for _ in range(3)]
        b, _ = vlib.validate("AppTrace", [dict(y, id="%s#%d" % (t["id"], j)) for j, y in enumerate(x)])
        if len(b) >= 2:
            again.append(t)
    good = [t for t in traces if not any(t is b[0] for b in bad)]
    fw.check_traces(res, "runs", "AppTrace", good[:0] + again + good, byid, "app")
    res.parts[-1]["unrepeated"] = min(12, len(bad)) - len(again)
    return res
