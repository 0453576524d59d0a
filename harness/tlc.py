"""Running TLC, sharded over processes."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from base import SPEC

JAR = "/opt/veriftools/tla/tla2tools.jar"
CP = os.environ.get("VERIF_TLA_CP") or None


def classpath():
    d = os.path.dirname(JAR)
    return os.pathsep.join([JAR] + sorted(os.path.join(d, f) for f in os.listdir(d)
                                          if f.endswith(".jar") and f != os.path.basename(JAR)))


class TLCError(Exception):
    pass


def tlc(module, cfg=None, env=None, workers=1, timeout=800, heap="4g", args=(), jit=1):
    """Runs TLC on spec/<module>.tla; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="vtlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
           f"-XX:TieredStopAtLevel={jit}",
           "-cp", classpath(), "tlc2.TLC", "-noTE", "-metadir", meta,
           "-workers", str(workers), "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
EVAL = (75, 76, 77)   # TLC: the specification could not be evaluated
VERDICT = re.compile(r'<<\s*"V",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def counts(out):
    m = STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def expressible(x):
    """can TLC read this value?  (None, NaN and the like cannot be observed values)"""
    if isinstance(x, dict):
        return all(map(expressible, x.values()))
    if isinstance(x, (list, tuple)):
        return all(map(expressible, x))
    return isinstance(x, (str, bool)) or (isinstance(x, int) and -2**31 < x < 2**31)


def validate(module, scens, heap="8g", timeout=800, workers=8):
    """Trace validation of many scenarios.  Returns (verdicts, states, transitions):
    verdicts[i] is the smallest set of differing clauses over all behaviours."""
    bad = frozenset({"ill-formed"})
    verdicts = [frozenset() if expressible(s) else bad for s in scens]
    live = [i for i, v in enumerate(verdicts) if v != bad]
    tmp = tempfile.mkdtemp(prefix="vscen")
    path = os.path.join(tmp, "s.ndjson")
    run = lambda w: tlc(module, env={"VSCEN": path}, heap=heap, timeout=timeout, workers=w)
    over = 0
    try:
        while live:
            with open(path, "w") as f:
                for i in live:
                    f.write(json.dumps(scens[i]) + "\n")
            rc, out = run(workers)
            if "Model checking completed" in out:
                break
            t = re.findall(r"^(?:/\\ )?tid = (\d+)$", out, re.M)   # the trace of the failing state
            if t and "Overflow when computing" in out and over < 5:
                over += 1       # beyond TLC's 32-bit integers: not judged
                del live[int(t[-1]) - 1]
                continue
            if t and (rc in EVAL or over):
                # an observation the specification cannot even be compared with
                # (a number where it has a name, say); the others are not judged
                verdicts[live[int(t[-1]) - 1]] = bad
                return verdicts, 0, 0
            rc, out = run(1)    # once more, sequentially, before giving up
            if "Model checking completed" in out:
                break
            at = max(out.find("Error:"), 0)
            raise TLCError(f"TLC on {module} failed (rc={rc}):\n" + out[at:at + 1500] + "\n...\n" + out[-1500:])
        else:
            return verdicts, 0, 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res = {}
    for t, c in VERDICT.findall(out):
        res.setdefault(int(t), []).append(frozenset(re.findall(r'"([^"]*)"', c)))
    for j, i in enumerate(live):
        v = res.get(j + 1)
        verdicts[i] = min(v, key=lambda c: (len(c), sorted(c))) if v else frozenset({"no-behaviour"})
    gen, dist = counts(out)
    return verdicts, dist, gen
