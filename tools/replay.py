"""Replays a violation: shows the recorded trace up to the event that was rejected, runs its script again on the current tree and
decides what comes of it."""
import json

import vlib


def again(mode, script, trace):
    if mode == "node":
        import dist
        return dist.run([dict(script, id="%s#%d" % (script["id"], j)) for j in range(3)], 3, 1)
    if mode == "app":
        import area_app
        return [area_app.run_script(script) for _ in range(3)]
    if mode == "ws":
        import area_ws
        return [t for _ in range(3) for t in area_ws.run_group(script) if t["id"] == trace["id"]]
    out = []
    for t in vlib.run_harness(mode, [script], timeout=3000):
        if "traces" in t and not t["ev"]:
            out += [dict(id="%s#%d" % (t["id"], i), ev=x["ev"]) for i, x in enumerate(t["traces"])]
        else:
            out.append(t)
    return out


def main(path):
    v = json.load(open(path))
    t, i = v["trace"], v["event"]
    print("property %s, %s: execution %s is not a behaviour of %s" % (v["property"], v.get("part", ""), t["id"], v["module"]))
    for j, e in enumerate(t["ev"][:i + 1]):
        print("%s %3d %s" % ("->" if j == i else "  ", j, json.dumps(e)[:400]))
    bypid = v["module"] in ("RegTrace", "RingTrace", "SemaTrace", "SupTrace")
    bad, _ = vlib.validate(v["module"], [t], bypid=bypid)
    print("the recorded trace is %s" % ("rejected" if bad else "accepted"))
    if not v.get("script"):
        return 1 if bad else 0
    ts = again(v["mode"], v["script"], t)
    bad, _ = vlib.validate(v["module"], ts, bypid=bypid)
    print("running the script again: %d executions, %d rejected" % (len(ts), len(bad)))
    for u, k, _ in bad[:1]:
        for j, e in enumerate(u["ev"][:k + 1]):
            print("%s %3d %s" % ("->" if j == k else "  ", j, json.dumps(e)[:400]))
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1 if bad else 0
