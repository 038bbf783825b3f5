#!/usr/bin/env python3
"""check.py ID... : decide properties of /repo's current source by static analysis.
exit 0: holds; 1: violated (VIOLATION lines); 2: the analysis could not be carried out."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.environ.get("AARD_EV") or os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.dont_write_bytecode = True
import build
import common


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == prop:
                out.append(e)
    return out


def run(prop, tier):
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    res = mod.run(tier)
    kf = {e["key"]: e for e in known(prop)}
    bad = []
    for k, v in sorted(res.violations.items()):
        if k in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]["what"]))
        else:
            bad.append(v)
    os.makedirs(EV, exist_ok=True)
    replay = os.path.join(EV, "%s.violation.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    if bad:
        with open(replay, "w") as f:
            f.write("property %s: %s\nrule: %s\n\n" % (prop, getattr(mod, "TITLE", ""), (mod.__doc__ or "").strip()))
            for v in bad:
                f.write("%s\n  at %s\n  function %s\n  key %s\n" % (v["msg"], v["loc"], v["function"], v["key"]))
                if v["path"]:
                    f.write("  path (branches taken): %s\n" % " ".join(v["path"]))
                f.write("\n")
        for v in bad:
            print("%s: %s [in %s]" % (v["loc"], v["msg"], v["function"]))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=dict(
                  explanation="Static analysis of /repo's current source (LLVM IR, helpers inlined, path-sensitive "
                              "typestate dataflow to a fixpoint over all paths of the functions listed); nothing is executed.",
                  rule=(mod.__doc__ or "").strip(),
                  functions=sorted(res.functions), function_count=len(res.functions),
                  sites={k: sorted(v) for k, v in sorted(res.sites.items())},
                  site_counts={k: len(v) for k, v in sorted(res.sites.items())},
                  abstract_states_visited=res.states, joins=res.joins,
                  obligations=sum(len(v) for v in res.sites.values()),
                  samples=[dict(kind=k, at=sorted(v)[0]) for k, v in sorted(res.sites.items()) if v][:12],
                  notes=res.notes),
              assumptions=getattr(mod, "ASSUMES", []),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %s, %d functions, %d sites, %d states, %.1fs" %
          (prop, "VIOLATED" if bad else "holds", len(res.functions), sum(len(v) for v in res.sites.values()),
           res.states, time.time() - t0))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    rc = 0
    for p in sys.argv[1:]:
        if p == "--setup":
            build.tool()
            print("irdump built")
            continue
        try:
            r = run(p, tier)
        except build.AnalysisError as e:
            print("ANALYSIS-ERROR %s: %s" % (p, e), file=sys.stderr)
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
