"""A check is a list of parts.  A part returns a Result; the framework writes the evidence file and prints violations."""
import json, os, sys, time

import vlib

KNOWN = os.path.join(vlib.VERIF, "known_findings.txt")


class Result:
    def __init__(self):
        self.violations = []   # dict(what, ...) with everything needed to replay
        self.states = 0
        self.transitions = 0
        self.traces = 0        # executions of the real code validated against the specification
        self.runs = 0          # executions of the real code
        self.events = 0
        self.samples = []
        self.parts = []
        self.assumptions = []

    def add_part(self, name, **kw):
        self.parts.append(dict(part=name, **kw))


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                d = l[len("finding: property=%s " % prop):]
                key, _, text = d.partition(" ")
                out.append((key.split("=", 1)[1], text))
    return out


def finish(prop, tier, seed, res, t0, level="model_checking"):
    kf = known(prop)
    new = []
    for v in res.violations:
        if v.get("key") and v["key"] in [k for k, _ in kf]:
            continue
        new.append(v)
    for k, text in kf:
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, text))
    cov = dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
               executions=res.runs, events=res.events, parts=res.parts, samples=res.samples[:3],
               evaluations=res.runs, distinct_nontrivial=res.traces,
               rule="executions of generated scripts on the real code; distinct recorded traces of more than one event")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=res.assumptions,
              wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not new:
        print("OK property=%s states=%d traces=%d executions=%d wall=%.1fs" % (prop, res.states, res.traces, res.runs, time.time() - t0))
        return 0
    d = os.path.join(vlib.WORK, "replay")
    os.makedirs(d, exist_ok=True)
    for i, v in enumerate(new[:5]):
        path = os.path.join(d, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump(dict(property=prop, **v), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + v.get("what", "")[:600])
    return 1


def show_event(t, i):
    ev = t["ev"]
    if i < len(ev):
        return json.dumps({k: v for k, v in ev[i].items()})
    return "end of trace"


def clip(trace, n=40):
    return dict(id=trace["id"], ev=trace["ev"][:n])


def check_traces(res, name, module, traces, scripts_by_id, mode, env=None, cfg=None, timeout=800, chunk=400, rerun=None, bypid=False, done=None):
    """Validates traces; a rejected one is a violation.  Hangs and crashes only count if they happen again."""
    bad, st = done or vlib.validate(module, traces, cfg=cfg, env=env, timeout=timeout, chunk=chunk, bypid=bypid)
    res.states += st["states"]
    res.transitions += st["transitions"]
    res.traces += st["unique"]
    res.events += sum(len(t["ev"]) for t in traces)
    kept = 0
    for t, i, msg in bad:
        last = t["ev"][-1] if t["ev"] else {}
        if last.get("o") in ("hang", "crash") and rerun is not None and kept == 0:
            again = rerun(t)
            if again is not None and not again:
                print("note: %s in %s did not repeat" % (last.get("o"), t["id"]), file=sys.stderr)
                continue
        kept += 1
        res.violations.append(dict(
            what="%s: execution %s is not a behaviour of %s: event %d %s %s" % (name, t["id"], module, i, show_event(t, i), msg[-800:]),
            part=name, module=module, mode=mode, script=scripts_by_id.get(t.get("script", t["id"])), trace=t, event=i))
    if traces:
        res.samples.append(clip(traces[0]))
    res.add_part(name, spec=module, executions=len(traces), distinct=st["unique"], states=st["states"], transitions=st["transitions"], rejected=kept, undecided=st["undecided"])
    return bad


def design(res, name, module, cfgtext, timeout=600, workers="8", mem="6g"):
    """Exhaustive check of a specification in small constants."""
    os.makedirs(vlib.WORK, exist_ok=True)
    p = os.path.join(vlib.WORK, "%s-%s-%d.cfg" % (module, name.replace(" ", "_"), os.getpid()))
    with open(p, "w") as f:
        f.write(cfgtext)
    try:
        rc, out = vlib.tlc(module, p, workers=workers, mem=mem, timeout=timeout)
    finally:
        os.unlink(p)
    if "No error has been found" not in out:
        raise vlib.ToolError("design check %s failed:\n%s" % (name, (out if len(out) < 400000 else out[-400000:])))
    g, d = vlib.tlc_stats(out)
    res.states += d
    res.transitions += g
    res.add_part("design:" + name, spec=module, states=d, transitions=g)
