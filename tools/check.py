#!/usr/bin/env python3
"""Decide one property:  check.py ID [quick|thorough]

1. the harness is built against /repo's working tree,
2. TLC checks the property on the specification's small-scope models and exports their behaviours,
3. the exported behaviours and seeded random ones are executed on the implementation,
4. TLC checks what was observed against the specification (Check.tla).

Exit status 0: held on everything explored, 1: VIOLATION printed, 2: the check itself failed.
"""
import json
import os
import random
import shutil
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import props
import vf


def known_findings(prop):
    """Listed findings of a property: {name: input}."""
    out = []
    path = os.path.join(vf.VERIF, "KNOWN_FINDINGS.json")
    for f in json.load(open(path))["findings"]:
        if f["property"] == prop:
            out.append(f)
    return out


def key(c):
    return json.dumps({k: v for k, v in c.items() if k not in ("id", "v", "oracle", "from", "of")}, sort_keys=True)


def flat(xs):
    for x in xs:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def run(prop, tier):
    conf = props.PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rng = random.Random("%s/%d/%s" % (prop, seed, tier))
    began = time.time()
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    replay = os.path.join(vf.VERIF, "replays", prop)
    try:
        cases, stats = [], {"models": [], "states": 0, "transitions": 0}
        plan = conf["models"][tier]
        with ThreadPoolExecutor(8) as pool:
            building = pool.submit(vf.build)
            jobs = min(len(plan), 3) or 1
            workers = {1: 8, 2: 4, 3: 3}[jobs]
            models = ThreadPoolExecutor(jobs)
            running = [(m, models.submit(vf.model, m["module"], m["consts"], work, m["inv"] + ["Export"],
                                         m.get("props", []), workers)) for m in plan]
            fresh = props.random_cases(conf, tier, gen.G(rng))
            seen = set()
            for m, job in running:
                exported, states, distinct = job.result()
                exported = list(flat(exported))
                total = len(exported)
                vary = m.get("vary")
                if vary:
                    exported = list(flat(vary(c, rng) for c in exported))
                unique = []
                for c in exported:
                    if m.get("keep") and not m["keep"](c):
                        continue
                    k = key(c)
                    if k not in seen:
                        seen.add(k)
                        c["from"] = m["module"] + "/" + str(m["consts"].get("Profile", ""))
                        unique.append(c)
                cap = m.get("cap")
                if cap and len(unique) > cap:
                    unique = rng.sample(unique, cap)
                for c in unique:
                    c["v"] = list(conf["aspects"].get(c["k"], []))
                    if "oracle" in m:
                        c["oracle"] = m["oracle"]
                cases += unique
                stats["states"] += distinct
                stats["transitions"] += states
                stats["models"].append({"module": m["module"], **m["consts"], "states": distinct,
                                        "invariants": m["inv"] + m.get("props", []),
                                        "behaviours": total, "replayed": len(unique)})
            models.shutdown()
            binary = building.result()
        from_models = len(cases)
        for c in fresh:
            if key(c) in seen:
                continue
            seen.add(key(c))
            c["from"] = "random"
            c["v"] = list(conf["aspects"].get(c["k"], [])) + c.pop("want", [])
            cases.append(c)
        findings = known_findings(prop)
        for f in findings:
            cases.append(dict(f["case"], v=f["v"], **{"from": "finding"}))
        modelled = time.time()
        obs = vf.execute(binary, cases, work)
        executed = time.time()
        bad, vstates, vdistinct = vf.validate(cases, obs, work)
        checked = time.time()
        # only aspects the property is about
        failures, expected = [], set()
        for i, aspects in sorted(bad.items()):
            c, o = cases[i - 1], obs[i - 1]
            if o.get("why") == "too many failures":
                continue
            if c["from"] == "finding":
                expected.add(key(c))
                continue
            failures.append((c, o, aspects))
        for f in findings:
            if key(f["case"]) in expected:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
            else:
                print("note: the known finding \"%s\" did not occur" % f["what"])
        shutil.rmtree(replay, ignore_errors=True)
        shown = []
        for n, (c, o, aspects) in enumerate(sorted(failures, key=lambda f: len(json.dumps(f[0])))[:8]):
            os.makedirs(replay, exist_ok=True)
            path = os.path.join(replay, "%d.json" % (n + 1))
            json.dump({"property": prop, "aspects": aspects, "readable": vf.readable(c), "observed": vf.readable(o),
                       "case": c}, open(path, "w"), indent=1)
            shown.append(path)
        kinds = {}
        for c in cases:
            kinds[c["k"]] = kinds.get(c["k"], 0) + 1
        outcomes = {}
        for o in obs:
            e = o.get("err", {}).get("e") if isinstance(o.get("err"), dict) else None
            w = o["st"] if o["st"] != "done" else (e or "done")
            if w == "Parse":
                w = "Parse:" + o["err"]["p"]["e"]
            outcomes[w] = outcomes.get(w, 0) + 1
        samples = [json.dumps(vf.readable({k: v for k, v in c.items() if k not in ("v",)}))[:300]
                   for c in rng.sample(cases, min(6, len(cases)))]
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "model_checking"),
            "coverage": {
                "states": stats["states"], "transitions": stats["transitions"],
                "traces_validated_against_impl": len(cases),
                "spec": "/verif/spec/" + ", ".join(sorted({m["module"] + ".tla" for m in plan} | {"Check.tla"})),
                "models": stats["models"],
                "validation_states": vdistinct,
                "cases_from_models": from_models, "cases_random": len(cases) - from_models - len(findings),
                "kinds": kinds, "observed_outcomes": outcomes, "aspects": conf["aspects"],
                "samples": samples,
            },
            "violations": len(failures), "known_findings": [f["what"] for f in findings],
            "wall_s": round(time.time() - began, 1),
            "phases_s": {"models_and_build": round(modelled - began, 1), "execution": round(executed - modelled, 1),
                         "validation": round(checked - executed, 1)},
        }
        os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(vf.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print("%s %s: %d model states, %d behaviours on the implementation (%d from models), %d deviations, %.1f s"
              % (prop, tier, stats["states"], len(cases), from_models, len(failures), time.time() - began))
        if failures:
            c, o, aspects = min(failures, key=lambda f: len(json.dumps(f[0])))
            print("deviates in %s: %s" % (", ".join(aspects), json.dumps(vf.readable({k: v for k, v in c.items() if k != "v"}))[:1500]))
            print("observed: %s" % json.dumps(vf.readable(o))[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, shown[0]))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay_file(path):
    """Execute the case of a replay file again: check.py --replay FILE"""
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        binary = vf.build()
        obs = vf.execute(binary, [r["case"]], work)
        bad, _, _ = vf.validate([r["case"]], obs, work)
        print(json.dumps(vf.readable(r["case"])))
        print(json.dumps(vf.readable(obs[0])))
        print("deviates in: %s" % ", ".join(bad.get(1, ["nothing"])))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay_file(sys.argv[2]))
        sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except vf.ToolError as e:
        print("check failed to run: %s" % e, file=sys.stderr)
        sys.exit(2)
