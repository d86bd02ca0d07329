from __future__ import annotations
import importlib, json, multiprocessing as mp, os, sys, time
from . import core


def load_known():
    p = os.path.join(core.ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    modname = f"mc.props.{pid}"
    mod = importlib.import_module(modname)
    cases = [(modname, sub, case) for sub, case in mod.cases(tier)]
    nproc = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
    results = []
    # longest-first hint is up to the module's ordering; chunk size 1 balances the load
    budget = 840 if tier == "quick" else 6 * 3600
    hang = None
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=None) as pool:
        it = pool.imap_unordered(core.run_case, cases, chunksize=1)
        for _ in range(len(cases)):
            try:
                results.append(it.next(timeout=max(1.0, budget - (time.time() - t0))))
            except mp.TimeoutError:
                hang = f"exploration did not finish within {budget} s"
                pool.terminate()
                break
    subs = {}
    violations, known_hits = [], []
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    for r in results:
        s = subs.setdefault(r["sub"], dict(cases=0, states=0, transitions=0, judgements=0, traces=0, outcomes=set(), cpu_s=0.0))
        s["cases"] += 1
        for k in ("states", "transitions", "judgements", "traces"):
            s[k] += r[k]
        s["outcomes"] |= r["outcomes"]
        s["cpu_s"] += r["wall"]
        for v in r["violations"]:
            hit = next((k for k in known if matches(k, r["sub"], r["case"], v)), None)
            (known_hits if hit else violations).append((r, v, hit))
    if hang:
        violations.append((dict(sub="*", case={}), dict(what=hang, detail={}), None))
    # vacuity: a sub-check that judged nothing, or always saw one outcome, decides nothing
    for name, s in subs.items():
        if s["judgements"] == 0 and not any(r["violations"] for r in results if r["sub"] == name):
            violations.append((dict(sub=name, case={}), dict(what="explored nothing (vacuous)", detail={}), None))
    seen = set()
    for r, v, k in known_hits:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    evdir = os.path.join(core.ROOT, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rpdir, f))
    violations.sort(key=lambda t: (t[0]["sub"], json.dumps(core.jsonable(t[0]["case"]), sort_keys=True), t[1]["what"]))
    outv = []
    for i, (r, v, _) in enumerate(violations[:20]):
        path = os.path.join(rpdir, f"{pid}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=r["sub"], case=core.jsonable(r["case"]), what=v["what"], detail=v["detail"],
                           how="bash /verif/replay.sh " + path), f, indent=1)
        outv.append(dict(sub=r["sub"], what=v["what"], replay=path))
        if i < 5:
            print(f"  [{r['sub']}] {v['what']} case={json.dumps(core.jsonable(r['case']))[:300]} detail={json.dumps(v['detail'])[:600]}")
    tot = {k: sum(s[k] for s in subs.values()) for k in ("states", "transitions", "judgements", "traces")}
    outcomes = sum(len(s["outcomes"]) for s in subs.values())
    bounds = getattr(mod, "BOUNDS", {})
    samples = []
    for name in sorted(subs):
        rs = [r for r in results if r["sub"] == name]
        rs.sort(key=lambda r: json.dumps(core.jsonable(r["case"]), sort_keys=True))
        samples += [dict(sub=name, case=core.jsonable(r["case"]), states=r["states"], transitions=r["transitions"]) for r in rs[:2]]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"], exhaustive=not hang,
                            oracle_judgements=tot["judgements"], distinct_outcomes=outcomes, cases=len(cases),
                            bounds=bounds, samples=samples[:12],
                            sub_checks={n: dict(cases=s["cases"], states=s["states"], transitions=s["transitions"],
                                                judgements=s["judgements"], model_traces=s["traces"],
                                                distinct_outcomes=len(s["outcomes"]), cpu_s=round(s["cpu_s"], 2))
                                        for n, s in sorted(subs.items())}),
              wall_s=round(time.time() - t0, 3),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              violations=[f"{o['sub']}: {o['what']} replay={o['replay']}" for o in outv],
              )
    if seen:
        ev["known_findings"] = sorted(seen)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: cases={len(cases)} states={tot['states']} transitions={tot['transitions']} "
          f"judgements={tot['judgements']} outcomes={outcomes} wall={ev['wall_s']}s")
    if violations:
        print(f"VIOLATION property={pid} replay={outv[0]['replay']}")
        sys.exit(1)
    sys.exit(0)


def matches(k, sub, case, v):
    if k["sub"] != sub:
        return False
    if k.get("what_prefix") and not v["what"].startswith(k["what_prefix"]):
        return False
    jc = core.jsonable(case)
    for kk, vv in k.get("case", {}).items():
        if jc.get(kk) != vv:
            return False
    d = v.get("detail", {})
    for kk, vv in k.get("detail", {}).items():
        if d.get(kk) != vv:
            return False
    return True


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # the tree under test cannot even be loaded / enumerated
        import traceback
        traceback.print_exc()
        pid = sys.argv[1]
        rp = os.path.join(core.ROOT, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{pid}-0.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub="*", case={}, what="exploration could not start: " + repr(e),
                           detail=dict(traceback=traceback.format_exc())), f)
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
