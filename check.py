#!/usr/bin/env python3
"""check.py ID [--thorough] : one property's check.   check.py --build : builds everything.   check.py --replay FILE"""
import importlib, json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import framework as fw
import vlib

AREA = {}
for a, ids in {"core": range(1, 11), "gs": (11, 12), "sup": range(13, 18), "reg": (18, 19), "dist": range(20, 25), "ring": (25,), "app": (26,),
               "ws": (27,), "sema": (28,)}.items():
    for i in ids:
        AREA["C%02d" % i] = "area_" + a


def main():
    args = sys.argv[1:]
    try:
        if args[:1] == ["--build"]:
            vlib.build()
            return 0
        if args[:1] == ["--replay"]:
            import replay
            vlib.build()
            return replay.main(args[1])
        prop = args[0]
        tier = "thorough" if "--thorough" in args else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        t0 = time.time()
        vlib.build()
        area = importlib.import_module(AREA[prop])
        res = area.run(prop, tier, seed)
        return fw.finish(prop, tier, seed, res, t0)
    except vlib.ToolError as e:
        print("ERROR of the check: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
