"""Building the harness, executing cases on the implementation, running TLC."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


def build(name="fuser-harness"):
    """Build the harness against /repo's working tree."""
    target = os.path.join(HARNESS, "target")
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "html5-fuser-*")):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints allow")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(target, "debug", name)


def _shard_run(binary, cases, path, scratch):
    """Run one list of cases; an aborted process is an observation of the case it was at."""
    src, out = path + ".cases", path + ".obs"
    with open(src, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, HARNESS_SCRATCH=scratch)
    open(out, "w").close()
    restarts = 0
    while True:
        seen = sum(1 for _ in open(out))
        if seen >= len(cases):
            break
        p = subprocess.run([binary, src, out, str(seen)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=3000)
        if p.returncode == 9:
            raise ToolError("harness: " + p.stdout.decode(errors="replace")[-2000:])
        now = sum(1 for _ in open(out))
        if now < len(cases):
            restarts += 1
            if p.returncode != 3:
                with open(out, "a") as f:
                    f.write(json.dumps({"id": cases[now]["id"], "st": "abort"}) + "\n")
                now += 1
        if now < len(cases) and restarts >= 6:
            with open(out, "a") as f:
                for c in cases[now:]:
                    f.write(json.dumps({"id": c["id"], "st": "skip", "why": "too many failures"}) + "\n")
    obs = [json.loads(l) for l in open(out)]
    if [o["id"] for o in obs] != [c["id"] for c in cases]:
        raise ToolError("observations do not correspond to the cases")
    return obs


def execute(binary, cases, work, jobs=CORES):
    """Observations of all cases, in order."""
    for i, c in enumerate(cases):
        c["id"] = i + 1
        # the way in which parse options are made
        c.setdefault("of", i % 6)
    parts = [cases[i::jobs] for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as pool:
        results = list(pool.map(
            lambda i: _shard_run(binary, parts[i], os.path.join(work, "x%d" % i),
                                 os.path.join(work, "scratch%d" % i)) if parts[i] else [],
            range(jobs)))
    by_id = {o["id"]: o for r in results for o in r}
    return [by_id[c["id"]] for c in cases]


GENERATED = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


def tlc(module, cfg, work, workers=CORES, env=None, timeout=3000, heap="6g", extra=()):
    """Run TLC; returns (output, states generated, distinct states)."""
    d = tempfile.mkdtemp(dir=work)
    cfgfile = os.path.join(d, module + ".cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-config", cfgfile, *extra, os.path.join(SPEC, module + ".tla")]
    outfile = os.path.join(d, "out.txt")
    with open(outfile, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
    out = open(outfile, errors="replace").read()
    m = GENERATED.search(out)
    if p.returncode != 0 or "No error has been found" not in out or not m:
        shown = "\n".join(l for l in out.splitlines() if not l.startswith(('"{', '"[')))
        e = ToolError("TLC failed on %s (%d)\n%s\n%s" % (module, p.returncode, cfg, shown[-6000:]))
        e.last = EVALUATING.findall(out)[-1:]
        raise e
    shutil.rmtree(d, ignore_errors=True)
    return out, int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def exported(out):
    """Cases printed by a model (ToJson strings)."""
    cases = []
    for line in out.splitlines():
        if line.startswith(('"{', '"[')):
            cases.append(json.loads(json.loads(line)))
    return cases


def model(module, consts, work, invariants=(), properties=(), workers=2, timeout=2400, spec="Spec"):
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    for k, v in consts.items():
        cfg += "CONSTANT %s = %s\n" % (k, json.dumps(v) if isinstance(v, str) else str(v))
    if invariants:
        cfg += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        cfg += "PROPERTIES " + " ".join(properties) + "\n"
    out, states, distinct = tlc(module, cfg, work, workers, timeout=timeout)
    return exported(out), states, distinct


MISMATCH = re.compile(r'<<"MISMATCH", (\d+), \{(.*?)\}>>', re.S)
STRANGE = 12
EVALUATING = re.compile(r"^/\\ l = (\d+)", re.M)
DONE = re.compile(r'<<"SHARD-DONE", (\d+), (\d+)>>')


def validate(cases, obs, work, timeout=3000, chunk=60000):
    """Check observations against the specification: ({case id: [aspects]}, states, distinct)."""
    bad, states, distinct = {}, 0, 0
    for at in range(0, len(cases), chunk):
        trace = os.path.join(work, "trace.ndjson")
        lines = [json.dumps({"c": c, "o": o}, separators=(",", ":"))
                 for c, o in zip(cases[at:at + chunk], obs[at:at + chunk])]
        strange = 0
        while True:
            with open(trace, "w") as f:
                f.write("\n".join(lines) + "\n")
            try:
                out, s, d = tlc("Check", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", work,
                                env={"TRACE": trace}, timeout=timeout, heap="8g")
                break
            except ToolError as e:
                # An observation the specification cannot even be evaluated on (it is none of the
                # forms an observation can have) deviates, too; the others are checked without it.
                if not getattr(e, "last", None) or strange >= STRANGE:
                    raise
                strange += 1
                n = int(e.last[0])
                i = json.loads(lines[n - 1])["c"]["id"]
                bad[i] = ["form"]
                lines[n - 1] = json.dumps({"c": dict(cases[at], id=i, v=[]), "o": dict(obs[at], id=i)},
                                          separators=(",", ":"))
        done = DONE.findall(out)
        if len(done) != 8:
            raise ToolError("trace validation did not finish:\n" + out[-3000:])
        found = {int(i): re.findall(r'"(\w+)"', a) for i, a in MISMATCH.findall(out)}
        if sum(int(n) for _, n in done) != len(found):
            raise ToolError("trace validation reports are incomplete:\n" + out[-3000:])
        bad.update(found)
        states += s
        distinct += d
        os.remove(trace)
    return bad, states, distinct


def show_text(x):
    try:
        return "".join(map(chr, x))
    except (TypeError, ValueError):
        return repr(x)


def readable(j):
    """JSON value with code point lists as strings, for reports."""
    if isinstance(j, list):
        if j and all(isinstance(i, int) and not isinstance(i, bool) and 0 <= i < 0x110000 for i in j):
            return "".join(map(chr, j))
        return [readable(i) for i in j]
    if isinstance(j, dict):
        return {k: (v if k in ("items", "maxd", "maxl", "id") else readable(v)) for k, v in j.items()}
    return j
