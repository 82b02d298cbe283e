"""python -m vmc.main <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N]"""
import argparse
import importlib
import json
import logging
import os
import sys
import time
import traceback


def find_check(pid):
    from vmc import registry
    modname, clsname = registry.CHECKS[pid]
    mod = importlib.import_module("vmc.checks." + modname)
    return getattr(mod, clsname)()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", default=None)
    ap.add_argument("-j", type=int, default=None)
    args = ap.parse_args(argv)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from vmc import boot, core
    t0 = time.time()
    evfn = os.path.join(core.VERIF, "evidence", args.pid + ".json")
    os.makedirs(os.path.dirname(evfn), exist_ok=True)
    rpdir = os.path.join(core.VERIF, "replays")
    os.makedirs(rpdir, exist_ok=True)

    def say_violation(case, msg):
        fn = os.path.join(rpdir, "{0}.json".format(args.pid))
        with open(fn, "w") as f:
            json.dump({"property": args.pid, "case": core.jsonable(case), "message": msg,
                       "replay_cmd": "bash run.sh {0} --replay replays/{0}.json".format(args.pid)}, f, indent=1)
            f.write("\n")
        print("  case: {0}".format(json.dumps(core.jsonable(case))[:600]))
        print("  why : {0}".format(msg[:900]))
        print("VIOLATION property={0} replay=replays/{0}.json".format(args.pid))
        sys.stdout.flush()

    def evidence(rec, nshards, level_cov, nviol, check=None, built=()):
        with open(evfn + ".tmp", "w") as f:
            json.dump({
                "property": args.pid, "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
                "seed": seed, "level": "model_checking", "coverage": level_cov,
                "assumptions": list(check.assumptions) if check else [],
                "wall_s": round(time.time() - t0, 3), "violations": nviol}, f, indent=1, sort_keys=True)
            f.write("\n")
        os.rename(evfn + ".tmp", evfn)

    try:
        try:
            built = boot.setup()
        except boot.BuildError as e:
            # the code under test does not build: nothing can be said to hold
            print(str(e)[-3000:])
            evidence(None, 0, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                               "samples": ["build of the extensions failed"]}, 1)
            say_violation({"build": "failed"}, "extensions do not build: " + str(e)[-500:])
            return 1
        check = find_check(args.pid)
        try:
            import viscid
            logging.disable(logging.CRITICAL)
            assert os.path.abspath(viscid.__file__).startswith(boot.REPO + "/"), viscid.__file__
            check.tier = args.tier
            check.setup()
        except Exception as e:  # pylint: disable=broad-except
            traceback.print_exc()
            evidence(None, 0, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                               "samples": ["import or setup failed"]}, 1, check)
            say_violation({"setup": "failed"}, "the code under test does not import / set up: " + core.brief(e))
            return 1

        if args.replay:
            with open(args.replay) as f:
                rp = json.load(f)
            rec = core.Recorder()
            case = rp["case"]
            if isinstance(case, dict) and set(case) == {"shard"}:
                sh = case["shard"]
                sh = tuple(sh) if isinstance(sh, list) else sh
                check.run_shard(sh, args.tier, rec)
            else:
                check.attempt(case, rec)
            for c, m in rec.violations[:1]:
                say_violation(c, m)
            for k, v in rec.known.items():
                print("KNOWN-FINDING: property={0} {1}: {2}".format(args.pid, k, v[2][:200]))
            print("replayed: {0} violation(s)".format(rec.n_violations))
            return 1 if rec.n_violations else 0

        rec, nshards = core.run_sharded(check, args.tier, boot.scratch(), njobs=args.j)
        known = {e["id"]: e for e in core.load_known() if e["property"] == args.pid and e["status"] == "known"}
        viol = list(rec.violations)
        nviol = rec.n_violations
        for k, v in sorted(rec.known.items()):
            if k in known:
                print("KNOWN-FINDING: property={0} {1} ({2}; {3} cases, e.g. {4})".format(
                    args.pid, known[k]["what"], k, v[0], json.dumps(core.jsonable(v[1]))[:160]))
            else:
                nviol += v[0]
                viol.append((v[1], v[2]))
        capped = bool(rec.notes.get("deadline_hit"))
        cov = {
            "states": len(rec.states), "transitions": rec.transitions,
            "traces_validated_against_impl": rec.traces,
            "distinct_outcomes": len(rec.outcomes),
            "outcomes": dict(rec.outcomes.most_common(12)),
            "rule": check.rule, "bounds": core.jsonable(check.bounds_for(args.tier) if hasattr(check, "bounds_for")
                                                        else check.bounds),
            "shards": nshards, "samples": core.jsonable(rec.samples[:4]),
            "known_finding_cases": {k: v[0] for k, v in rec.known.items()},
            "notes": core.jsonable(rec.notes), "exhaustive": not capped and nviol == 0,
            "extensions_rebuilt": built,
        }
        evidence(rec, nshards, cov, nviol, check, built)
        print("{0} [{1}]: states={2} transitions={3} traces={4} outcomes={5} wall={6:.1f}s{7}".format(
            args.pid, args.tier, len(rec.states), rec.transitions, rec.traces, len(rec.outcomes),
            time.time() - t0, " CAPPED" if capped else ""))
        if viol:
            for c, m in viol[1:6]:
                print("  also: {0} -- {1}".format(json.dumps(core.jsonable(c))[:300], m[:300]))
            if os.environ.get("VMC_KINDS"):
                for k, n in rec.kinds.most_common(30):
                    print("  kind: {0} x {1}".format(n, k))
            say_violation(*viol[0])
            return 1
        return 0
    finally:
        boot.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
