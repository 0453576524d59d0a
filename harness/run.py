"""Running a check: parts, verdicts, evidence."""
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

from base import REPO, VERIF, Skip
import tlc

EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Check:
    """Collects what the parts of one check covered and found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.parts, self.known = [], [], {}, []
        self.level = "model_checking"

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *key):
        return random.Random(repr((self.seed, self.prop) + key))

    def part(self, name, **numbers):
        d = self.parts.setdefault(name, {})
        for k, v in numbers.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                d[k] = round(d.get(k, 0) + v, 3)
            else:
                d[k] = v

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def violation(self, what, replay):
        self.bad.append((what, replay))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        out = []
        for i, (what, replay) in enumerate(self.bad[:5]):
            d = os.path.join(EVIDENCE, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}-{self.tier}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "case": replay}, f, indent=1, default=str)
            out.append((what, path))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples,
                           "parts": self.parts, "known_findings": self.known},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        tmp = os.path.join(EVIDENCE, f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, f"{self.prop}.json"))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for what, path in out:
            print(f"  {what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if len(self.bad) > len(out):
            print(f"  ... and {len(self.bad) - len(out)} more")
        print(f"{self.prop} {self.tier}: {self.traces} traces validated, {self.states} states, "
              f"{self.transitions} transitions, {len(self.bad)} violations, {time.time() - self.t0:.1f} s")
        return 1 if self.bad else 0


def from_repo(e):
    """was the exception raised by the implementation?"""
    tb = traceback.extract_tb(e.__traceback__)
    return any(os.path.abspath(f.filename).startswith(REPO + os.sep) for f in tb)


# ------------------------------------------------------------------ parallel
_job = None


def _call(key):
    try:
        return "ok", key, _job(key if getattr(_job, "by_key", False) else random.Random(repr(key)))
    except Skip as e:
        return "skip", key, str(e)
    except Exception as e:
        if from_repo(e):
            return "raised", key, "".join(traceback.format_exception_only(type(e), e)).strip()[:500]
        return "error", key, traceback.format_exc()


def produce(f, keys, procs=8, timeout=500):
    """f(rng) for every key, in parallel; the order of keys is kept."""
    keys = list(keys)
    if not keys:
        return []
    global _job
    _job = f
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(keys))) as pool:
        got = pool.map_async(_call, keys, chunksize=max(1, min(20, len(keys) // (procs * 2) or 1)))
        try:
            res = got.get(timeout=timeout)
        except multiprocessing.TimeoutError:
            return [("raised", keys[0], f"(nothing: no result after {timeout} s)")]
    # what the recorder cannot digest is reported like a failure of the implementation
    return [("raised", key, "(something the recorder cannot digest) " + val[-1500:]) if kind == "error" else (kind, key, val)
            for kind, key, val in res]


def validate_traces(chk, module, name, f, count, clauses=None, batch=400, describe=None, ignore=()):
    """Generates `count` scenarios with f(rng) (a record with `obs`), and has the
    specification judge them."""
    t0 = time.time()
    res = produce(f, [(chk.seed, chk.prop, name, i) for i in range(count)])
    scens, keys, skipped = [], [], 0
    for kind, key, val in res:
        if kind == "ok":
            if val is not None:
                scens.append(val)
                keys.append(key)
        elif kind == "skip":
            skipped += 1
        else:
            chk.violation(f"{name}: the implementation raised {val}", {"part": name, "key": key, "raised": val})
    t1 = time.time()
    differ = 0
    for a in range(0, len(scens), batch):
        part = scens[a:a + batch]
        verdicts, d, g = tlc.validate(module, part)
        chk.states += d
        chk.transitions += g
        for i, v in enumerate(verdicts):
            w = set(v) - set(ignore)
            if clauses is not None:
                w &= set(clauses) | {"failed", "no-behaviour", "not-rejected", "ill-formed"}
            if w:
                differ += 1
                chk.violation(f"{name}: the specification differs in {', '.join(sorted(w))}",
                              {"part": name, "key": keys[a + i], "module": module, "clauses": sorted(v),
                               "scenario": part[i]})
    chk.traces += len(scens)
    chk.part(name, traces=len(scens), skipped=skipped, differing=differ, generate_s=t1 - t0, tlc_s=time.time() - t1)
    if scens:
        chk.sample({"part": name, "key": repr(keys[0]), "case": describe(scens[0]) if describe else None})
    return scens


def model_check(chk, module, cfg=None, name=None, env=None, timeout=600, workers=8, jit=1, heap="8g"):
    """Exhaustive model checking of a closed model; a failure is an error of the
    specification, never of the implementation."""
    t0 = time.time()
    rc, out = tlc.tlc(module, cfg=cfg, env=env, workers=workers, timeout=timeout, heap=heap, jit=jit)
    g, d = tlc.counts(out)
    if "No error has been found" not in out:
        at = max(out.find("Error:"), 0)
        raise RuntimeError(f"model {name or cfg or module} fails:\n{out[at:at + 3000]}")
    chk.states += d
    chk.transitions += g
    chk.part(name or (cfg or module), states=d, transitions=g, seconds=time.time() - t0)
    return out


def known_findings(prop):
    """name -> text of the recorded findings of a property"""
    out = {}
    for line in open(KNOWN):
        head = f"known: property={prop} "
        if line.startswith(head):
            name, text = line[len(head):].strip().split(":", 1)
            out[name] = text.strip()
    return out
