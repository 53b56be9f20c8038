#!/usr/bin/env python3
"""Shows that trace validation is not vacuous: observations of the unchanged tree are corrupted one
field at a time, and each corrupted one has to be rejected.   selftest.py [CASES_PER_PROPERTY]

Prints, per kind of case and field, how many corruptions were made and how many of them were rejected;
exit 1 if there is a field of which no corruption is rejected and which is not listed in FREE."""
import copy
import json
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import props
import vf

# not decided by the specification: measurements which have upper bounds only
FREE = set()


def leaves(o, path=()):
    """(path, normalised path) of everything that can be corrupted."""
    if isinstance(o, dict):
        if path:
            yield path
        for k, v in o.items():
            # (kinds and error names change together with the record they belong to)
            if path == () and k == "id" or k in ("k", "e") and path:
                continue
            yield from leaves(v, path + (k,))
    elif isinstance(o, list):
        yield path
        for i in random.sample(range(len(o)), min(2, len(o))):
            if not isinstance(o[i], int) or isinstance(o[i], bool):
                yield from leaves(o[i], path + (i,))
    else:
        yield path


def corrupt(v, rng, pool, items):
    """Another value: of the same enumeration for strings."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, dict):
        return rng.choice([d for d in pool if d != v] or [v])
    if isinstance(v, str):
        return rng.choice(sorted(pool - {v})) if pool - {v} else v + "x"
    if isinstance(v, list):
        if v and rng.random() < 0.5:
            return v[:-1]
        return v + [copy.deepcopy(v[-1]) if v else items[0] if items else 120]
    return v


def main(n):
    rng = random.Random(7)
    random.seed(7)
    work = tempfile.mkdtemp(prefix="vf-self-")
    try:
        cases = []
        for prop, conf in sorted(props.PROPS.items()):
            fresh = props.random_cases(conf, "quick", gen.G(rng))
            fresh = [c for c in fresh if len(json.dumps(c)) < 3000]
            for c in rng.sample(fresh, min(n, len(fresh))):
                # every aspect that is decided for this kind of case by any property
                # (those which need the case to be run in a special way only where it is)
                c["v"] = sorted(set(conf["aspects"].get(c["k"], [])) | set(c.pop("want", []))
                                | {a for other in props.PROPS.values() for a in other["aspects"].get(c["k"], [])}
                                - {"same", "reparse", "twice", "again", "source"})
                c["prop"] = prop
                cases.append(c)
        obs = vf.execute(vf.build(), cases, work)
        bad, _, _ = vf.validate(cases, obs, work)
        if bad:
            print("rejected as observed: %d" % len(bad))
        tc, to, fields, pools = [], [], [], {}
        for o in obs:
            for path in leaves(o):
                v = o
                for k in path:
                    v = v[k]
                name = [k for k in path if not isinstance(k, int)][-1]
                if isinstance(v, str):
                    pools.setdefault(name, set()).add(v)
                elif isinstance(v, dict) and v not in pools.setdefault(name + "{}", []):
                    pools[name + "{}"].append(v)
        for c, o in zip(cases, obs):
            if c["id"] in bad or len(json.dumps(o)) > 20000:
                continue
            for path in leaves(o):
                p = copy.deepcopy(o)
                at = p
                for k in path[:-1]:
                    at = at[k]
                name = [k for k in path if not isinstance(k, int)][-1]
                was = at[path[-1]]
                at[path[-1]] = corrupt(was, rng, pools.get(name + "{}" * isinstance(was, dict), set()),
                                        pools.get(name + "{}", []))
                if at[path[-1]] == was:
                    continue
                d = copy.deepcopy(c)
                d["id"] = p["id"] = len(tc) + 1
                tc.append(d)
                to.append(p)
                fields.append((c["k"], ".".join("*" if isinstance(k, int) else k for k in path)))
        vf.STRANGE = 30
        got, _, _ = vf.validate(tc, to, work, chunk=250)
        stat = {}
        for i, f in enumerate(fields):
            s = stat.setdefault(f, [0, 0])
            s[0] += 1
            s[1] += (i + 1) in got
        missed = []
        for f, (made, hit) in sorted(stat.items()):
            print("%-6s %-40s %6d made %6d rejected" % (f[0], f[1], made, hit))
            if hit == 0 and f not in FREE:
                missed.append(f)
        print("%d corruptions of %d observations, %d rejected" % (len(tc), len(cases), len(got)))
        for f in missed:
            print("never rejected: %s %s" % f)
        return 1 if missed else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 25))
