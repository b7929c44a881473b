import fnmatch
import importlib
import json
import os
import sys
import time
import warnings

warnings.filterwarnings("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    """Lines `finding: property=<id> key=<glob> :: <what>`; `fixed:` lines are a record only."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition("::")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv.get("property") == prop:
                    out.append((kv["key"], what.strip()))
    return out


def quiet_import():
    """Import the library once in the parent; workers are forked from it."""
    import logging
    logging.disable(logging.CRITICAL)
    import ylearn
    repo = os.path.realpath(os.environ.get("VM_REPO", "/repo"))
    assert os.path.realpath(ylearn.__file__).startswith(repo + os.sep), ylearn.__file__
    from ylearn.utils import logging as ylog
    try:
        ylog.set_level("error")
    except Exception:
        pass


def main():
    from vm import core, native
    if sys.argv[1] == "replay":
        spec = json.load(open(sys.argv[2]))
        prop, seed, tier = spec["property"], spec["seed"], spec["tier"]
    else:
        prop = sys.argv[1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        spec = None
    t0 = time.time()
    mod_name = "checks." + prop.lower()
    mod_path = os.path.join(VERIF, "checks", prop.lower() + ".py")
    src = open(mod_path).read()
    if "CUSTOM_NATIVE = True" not in src:
        native_from = native.ensure()
    else:
        from vm import sanitize
        sanitize.enter(sys.argv[1:])
        native_from = "sanitizers"
    try:
        quiet_import()
        mod = importlib.import_module(mod_name)
    except Exception:
        import traceback
        traceback.print_exc()
        print("check error: the library or the check could not be imported")
        return 2
    if spec is not None:
        g = [x for x in mod.GROUPS if x.name == spec["group"]][0]
        rec, err = core.run_case(g, spec["index"], seed, tier)
        for v in rec.viol:
            print("VIOLATED", v[0], v[1], json.dumps(v[2], indent=1))
        if err:
            print(err)
        return 1 if rec.viol else 0
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 780)
    ctx = core.Ctx(prop, seed, tier, time.time() + budget)
    groups = mod.GROUPS
    only = os.environ.get("VM_ONLY")
    if only:
        groups = [g for g in groups if g.name in only.split(",")]
    ctx.run(groups)
    if hasattr(mod, "finish"):
        mod.finish(ctx)

    known = load_known(prop)
    real, seen_known = {}, {}
    for key, lst in ctx.viol.items():
        for pat, what in known:
            if fnmatch.fnmatchcase(key, pat):
                seen_known.setdefault((pat, what), []).extend(lst)
                break
        else:
            real[key] = lst
    wall = time.time() - t0
    cov = dict(evaluations=ctx.evals, distinct_nontrivial=len(ctx.sigs), rule=mod.RULE,
               cases={k: ctx.cases[k] for k in ctx.planned}, planned=dict(ctx.planned),
               monitor_events={k: int(v) for k, v in sorted(ctx.events.items())},
               samples=sorted(ctx.samples, key=lambda s: (s["group"], s["index"]))[:12],
               native=native_from, known_findings_observed=sorted(w for _, w in seen_known),
               timeouts=len(ctx.timeouts))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 1), violations=sum(len(v) for v in real.values()))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    print(f"{prop} {tier} seed={seed}: {sum(ctx.cases.values())} cases, {ctx.evals} oracle evaluations, "
          f"{len(ctx.sigs)} distinct, {wall:.0f}s")
    for (pat, what), lst in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} [{len(lst)} occurrence(s)]")
    if real:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        n = 0
        for key, lst in sorted(real.items(), key=lambda kv: -len(kv[1])):
            g, i, msg, detail = lst[0]
            n += 1
            path = os.path.join(rdir, f"{prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, group=g, index=i, key=key, message=msg,
                               occurrences=len(lst), detail=detail), f, indent=1, default=str)
            print(f"  [{key}] x{len(lst)} in {g}#{i}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
            if n >= 15:
                break
        return 1
    if ctx.errors:
        print(f"check error: {len(ctx.errors)} case(s) failed inside the check itself; first:\n{ctx.errors[0][2]}",
              ctx.errors[0][:2])
        return 2
    bad = []
    for name, minimum in getattr(mod, "REQUIRE", {}).items():
        if ctx.events.get(name, 0) < minimum:
            bad.append(f"{name}={ctx.events.get(name, 0)} < {minimum}")
    if not only:
        for g in groups:
            need = max(1, int(0.25 * ctx.planned[g.name]))
            if ctx.planned[g.name] and ctx.cases[g.name] < need:
                bad.append(f"group {g.name}: {ctx.cases[g.name]} of {ctx.planned[g.name]} cases ran")
    if ctx.timeouts:
        bad.append(f"{len(ctx.timeouts)} case(s) timed out, e.g. {ctx.timeouts[0]}")
    if bad and not only:
        print("inconclusive: " + "; ".join(bad))
        return 3
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code) if False else sys.exit(code)
