#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property for the code in /repo's working tree.  Exit 0: it held on
everything explored.  Exit 1 and a VIOLATION line: it is broken.  Exit 2: the
check could not be carried out."""
import argparse, importlib, json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import core

TABLE = {}
for mod in ("treechecks", "proofchecks", "argchecks", "miscchecks"):
    try:
        m = importlib.import_module(mod)
    except ModuleNotFoundError as e:
        if e.name != mod:
            raise
        continue
    TABLE.update(m.CHECKS)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.property not in TABLE:
        print("no check for", a.property)
        return 2
    ctx = core.Ctx(a.property, a.tier, a.seed)
    check = TABLE[a.property]
    violations = 0
    rc = 0
    try:
        if a.replay:
            replay = json.load(open(a.replay))
            scns = [replay["scenario"]]
            evs = ctx.replay(scns)
            for e in evs:
                print(json.dumps(e)[:400])
            ctx.validate(replay["trace_spec"], replay["consts"], evs, scns)
            print("the scenario is accepted")
            return 0
        check["run"](ctx)
    except core.Violation as v:
        violations = 1
        rc = 1
        d = os.path.join(core.VERIF, "out", a.property)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "replay-%s-%d.json" % (a.tier, a.seed))
        data = dict(v.data)
        data.update({"property": a.property, "what": v.what, "rerun": "python3 run.py %s --replay %s" % (a.property, f)})
        with open(f, "w") as fh:
            json.dump(data, fh, indent=1)
        print(v.what[:3000])
        print("VIOLATION property=%s replay=%s" % (a.property, f), flush=True)
    except core.CheckError as e:
        print("CHECK-ERROR: %s" % e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    for k in ctx.known_hit:
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    if a.replay:
        return rc
    cov = dict(ctx.cov)
    ev = {"property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": check["level"],
          "coverage": cov, "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - ctx.t0, 1), "violations": violations}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", a.property + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if rc == 0:
        ctx.log("held on everything explored")
    return rc


sys.exit(main())
