"""Common machinery of the checks: building the harness, running it, running TLC, evidence."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
BIN = os.path.join(HARNESS, "target", "debug", "vh")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class ToolError(Exception):
    pass


class BuildError(Exception):
    pass


def repo_content():
    h = hashlib.sha256()
    for top in ("hydra", "hydra-macros", "hydra-websockets"):
        for d, ds, fs in sorted(os.walk("/repo/" + top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
    return h.hexdigest()


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env["PATH"] = env.get("PATH", "") + ":" + os.path.expanduser("~/.cargo/bin")
    env.pop("RUSTFLAGS", None)
    # Cargo goes by modification times; what counts here is the content.
    mark, now = os.path.join(HARNESS, "target", "repo-content"), repo_content()
    if os.path.exists(os.path.dirname(mark)) and (not os.path.exists(mark) or open(mark).read() != now):
        subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "hydra", "-p", "hydra-macros", "-p", "hydra-websockets"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if os.path.exists(mark):
            os.unlink(mark)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])
    with open(mark, "w") as f:
        f.write(now)


def _run_chunk(mode, scripts, timeout, env=None):
    """Runs scripts in one process; a process that dies is restarted after the script that killed it."""
    out = []
    rest = list(scripts)
    while rest:
        data = "".join(json.dumps(s) + "\n" for s in rest)
        try:
            p = subprocess.run([BIN] + mode, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, env=dict(os.environ, **(env or {})))
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = -9, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), ""
        got = []
        for l in so.splitlines():
            try:
                got.append(json.loads(l))
            except ValueError:
                pass
        if "harness:" in se:
            raise ToolError(se[-2000:])
        done = {g["id"] for g in got}
        out += got
        left = [s for s in rest if s["id"] not in done]
        if not left:
            break
        if rc == 0:
            raise ToolError("harness lost scripts: %s %s" % (left[0]["id"], se[-500:]))
        if len(left) == len(rest) or rc != 3:
            # it died (or ran out of time) in the first one that is left
            out.append({"id": left[0]["id"], "ev": [{"o": "crash", "rc": rc}]})
            left = left[1:]
        rest = left
    return out


def run_harness(mode, scripts, jobs=JOBS, timeout=300, env=None):
    if isinstance(mode, str):
        mode = [mode]
    n = max(1, min(jobs, len(scripts)))
    chunks = [scripts[i::n] for i in range(n)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda c: _run_chunk(mode, c, timeout, env), chunks))
    by = {}
    for r in res:
        for t in r:
            by[t["id"]] = t
    return [by[s["id"]] for s in scripts if s["id"] in by]


def tlc(module, cfg=None, env=None, extra=(), timeout=600, mem="2g", workers="1", metadir=None, cwd=SPEC, dfs=False):
    os.makedirs(WORK, exist_ok=True)
    md = metadir or os.path.join(WORK, "tlc-%d-%d" % (os.getpid(), random.getrandbits(40)))
    os.makedirs(md, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xmx" + mem, "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xss16m"] + \
          (["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []) + ["-cp", CP,
           "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-workers", workers,
           "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -1, (o.decode() if isinstance(o, bytes) else o) + "\nTLC TIMEOUT"
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def max_pid(t):
    m = 4
    for e in t["ev"]:
        for k in ("c", "p", "q") + (("n",) if e.get("e") == "ring" else ()):
            v = e.get(k)
            if isinstance(v, int) and v > m:
                m = v
    return m


def validate(module, traces, cfg=None, jobs=JOBS, timeout=600, env=None, chunk=400, bypid=False):
    """Checks traces against a trace specification.  Returns (bad, stats): bad = [(trace, index of the rejected event)]."""
    uniq = {}
    for t in traces:
        h = hashlib.sha256(json.dumps(t["ev"], sort_keys=True).encode()).hexdigest()
        uniq.setdefault(h, t)
    ts = list(uniq.values())
    if not ts:
        return [], {"unique": 0, "states": 0, "transitions": 0, "undecided": 0}
    # spread by size
    ts.sort(key=lambda t: -len(t["ev"]))
    n = max(min(jobs, len(ts)), (len(ts) + chunk - 1) // chunk)
    if bypid:
        # the number of processes is a parameter of the specification: traces of like size go together
        n = max(min(2 * jobs, len(ts)), n)
        ts.sort(key=lambda t: (-max_pid(t), -len(t["ev"])))
        z = (len(ts) + n - 1) // n
        chunks = [ts[i:i + z] for i in range(0, len(ts), z)]
    else:
        chunks = [ts[i::n] for i in range(n)]
    os.makedirs(WORK, exist_ok=True)

    def one(c):
        f = os.path.join(WORK, "tr-%d-%d.ndjson" % (os.getpid(), random.getrandbits(40)))
        with open(f, "w") as fh:
            for t in c:
                fh.write(json.dumps({"id": str(t["id"]), "ev": t["ev"], **{k: v for k, v in t.items() if k not in ("id", "ev")}}) + "\n")
        try:
            rc, out = tlc(module, cfg, env=dict(env or {}, TRACES=f, MAXP=str(max(map(max_pid, c)))), timeout=timeout, dfs=True)
        finally:
            os.unlink(f)
        m = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
        if not m and "Parsing or semantic analysis failed" in out:
            raise ToolError(out[-3000:])
        if not m:
            # An event the specification can not even evaluate: find which trace it is.
            if len(c) == 1 and rc != -1:
                return [(c[0], 0, out[-3000:])], (0, 0, 0)
            if len(c) == 1:
                raise ToolError("TLC gave no answer:\n" + out[-3000:])
            h = len(c) // 2
            b1, s1 = one(c[:h])
            b2, s2 = one(c[h:])
            return b1 + b2, tuple(x + y for x, y in zip(s1, s2))
        bad = [(c[int(i) - 1], int(l) - 1, "") for i, l in re.findall(r'<<"BAD", (\d+), (\d+)>>', out)]
        return bad, tlc_stats(out) + (len(re.findall(r'<<"BIG", ', out)),)

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, chunks))
    bad = [b for r in res for b in r[0]]
    return bad, {"unique": len(ts), "states": sum(r[1][1] for r in res), "transitions": sum(r[1][0] for r in res), "undecided": sum(r[1][2] for r in res)}
