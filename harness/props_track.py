"""Checks of the state-keeping parts: histories enumerated by TLC are replayed
into the real trackers (spec/MCHist.tla), random longer ones recorded from them
are judged by TLC (spec/TraceHist.tla), and whole rotations by TracePipe."""
import json
import os
import re
import tempfile
import time

import gen
import pipe
import ser
import tlc
from base import INF as BIG, quiet
from props_pipe import EVENT, INST, PRESS, family, mixed, real, synth
from raw import (ChannelingSpec, ComboSpec, DamageSpec, FollowUp, ForcedCritOrDH, JobResourceSettings, JobResourceSpec, R, Skill,
                 StatusEffectSpec, TimingSpec)
from run import produce, validate_traces

from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.utils import Utils
from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker
from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker

INF = float("inf")
TARGETS = ["Default Target", "Boss", "Add"]


class World:
    """Actions and settings, as declared, and the real objects made of them."""

    def __init__(self, skills, prio=(), res=None, brks=None):
        self.decl, self.prio, self.res, self.brks = skills, tuple(prio), res or {}, brks or {}
        self.tab = ser.Table()
        self.ids = [self.tab.add(s) for s in skills]
        self.objs = [s.obj() for s in skills]

    def rec(self, **kw):
        return dict({"prio": list(self.prio), "res": ser.resources(self.res), "sk": self.tab.finish(),
                     "brks": [{"g": str(g), "by": [str(x) for x in by]} for g, by in self.brks.items()]}, **kw)

    def op(self, k, i=0, cond="", force=False, off=0, tgs=("Default Target",), tg="Default Target"):
        return {"k": k, "sk": self.ids[i], "c": ser.conds(cond), "f": force, "off": off, "tgs": list(tgs), "tg": tg,
                "_i": i, "_cond": cond}


def strip(op):
    return {k: v for k, v in op.items() if k[0] != "_"}


class Trackers:
    """The real trackers, driven by the operations of spec/Hist.tla."""

    def __init__(self, w):
        self.w = w
        self.se = StatusEffectTracker(w.prio)
        self.combo = ComboTracker(dict(w.brks))
        self.res = JobResourceTracker({n: c.obj() for n, c in w.res.items()})
        self.chan = ChannelingTracker()

    def do(self, op, t):
        sk = self.w.objs[op["_i"]]
        mod = SkillModifier(with_condition=op["_cond"], force_combo=op["f"])
        k = op["k"]
        with quiet():
            if k == "q":
                self.se.expire_status_effects(t)
                try:
                    b, bc = self.se.compile_buffs(t, sk)
                    d, dc = self.se.compile_debuffs(t, sk, op["tg"])
                except AssertionError:
                    return {"k": "rejected"}
                return {"k": "q", "b": b, "d": d, "bc": ser.conds(bc), "dc": ser.conds(dc)}
            if k == "a":
                self.se.expire_status_effects(t)
                self.se.add_to_status_effects(t + op["off"], sk, mod, tuple(op["tgs"]))
            elif k == "c":
                return {"k": "c", "ok": self.combo.compile_and_update_combo(t, sk, mod) != "No Combo"}
            elif k == "r":
                self.res.add_resource(t + op["off"], sk, mod)
            elif k == "g":
                return {"k": "g", "c": ser.conds(self.res.compile_job_resources(t, sk))}
            elif k == "h":
                self.chan.process_channeling(t, sk, mod)
            elif k == "w":
                self.chan.finalize()
                return {"k": "w", "w": [list(x) for x in self.chan.get_channeling_windows()]}
        return {"k": "none"}


FIELDS = {"crit": ("crit_rate_add", 10000), "dh": ("dh_rate_add", 10000), "ms": ("main_stat_add", 1)}
RATIOS = {"mult": "damage_mult", "msm": "main_stat_mult", "aa": "auto_attack_delay_mult", "ha": "haste_time_mult"}


def same_totals(e, o):
    """expected (exact, from TLC) against observed totals"""
    if sorted(e["names"]) != sorted(o.status_effects):
        return "effects"
    for k, (f, s) in FIELDS.items():
        if abs(getattr(o, f) * s - e[k]) > 1e-6:
            return f
    for k, f in RATIOS.items():
        if abs(getattr(o, f) - e[k][0] / e[k][1]) > 1e-9:
            return f
    for k, f in (("fc", "flat_cast_time_reduction"), ("fg", "flat_gcd_recast_time_reduction")):
        if min(getattr(o, f), BIG) != e[k]:
            return f
    for k, f in (("gc", "guaranteed_crit"), ("gd", "guaranteed_dh")):
        if ser.FORCE.get(getattr(o, f), 9) != e[k]:
            return f
    return None


def differs(e, o):
    if e["k"] != o["k"]:
        return f"{o['k']} instead of {e['k']}"
    if e["k"] == "q":
        for x in "bd":
            w = same_totals(e[x], o[x])
            if w:
                return f"{'buffs' if x == 'b' else 'debuffs'}: {w}"
        if sorted(e["bc"]) != o["bc"] or sorted(e["dc"]) != o["dc"]:
            return "conditions"
    elif e["k"] == "c" and e["ok"] != o["ok"]:
        return "combo success"
    elif e["k"] == "g" and sorted(e["c"]) != o["c"]:
        return "resources seen"
    elif e["k"] == "w" and [list(x) for x in e["w"]] != o["w"]:
        return "channel windows"
    return None


# ------------------------------------------------------------ exhaustive histories
_worlds = None


def _replay(lines):
    """replays the histories of some output lines; returns the first few differences"""
    bad, n, ops = [], 0, 0
    for line in lines:
        d = json.loads(json.loads(line)[2:])
        w, menu = _worlds[d["w"] - 1]
        tr = Trackers(w)
        n += 1
        for j, s in enumerate(d["h"]):
            ops += 1
            op = menu[s["m"] - 1]
            try:
                o = tr.do(op, s["t"])
                x = differs(s["out"], o)
            except Exception as e:   # the real code has no reason to raise here
                x = f"raised {type(e).__name__}: {e}"
            if x:
                if len(bad) < 3:
                    bad.append((x, {"history": [{"t": q["t"], **strip(menu[q["m"] - 1])} for q in d["h"][:j + 1]],
                                    "expected": s["out"], "world": w.rec()}))
                break
    return bad, n, ops


def exhaustive(chk, name, make, count, depth, dts, t0=0):
    """all histories of `depth` operations over `count` small worlds"""
    global _worlds
    start = time.time()
    _worlds, recs = [], []
    for i in range(count):
        rng = chk.rng(name, i)
        w, menu, ends = make(rng)
        _worlds.append((w, menu))
        recs.append(w.rec(menu=[strip(o) for o in menu], ends=ends, depth=depth, dts=dts(rng) if callable(dts) else dts,
                          t0=t0))
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
        f.flush()
        rc, out = tlc.tlc("MCHist", env={"VSCEN": f.name}, workers=8, heap="8g")
        if "No error has been found" not in out:
            rc, out = tlc.tlc("MCHist", env={"VSCEN": f.name}, workers=1, heap="8g")
    if "No error has been found" not in out:
        at = max(out.find("Error:"), 0)
        raise RuntimeError(f"MCHist ({name}) fails:\n{out[at:at + 3000]}")
    g, d = tlc.counts(out)
    chk.states += d
    chk.transitions += g
    t1 = time.time()
    lines = [x for x in out.splitlines() if x.startswith('"H ')]
    import multiprocessing
    step = max(1, len(lines) // 32 + 1)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(_replay, [lines[a:a + step] for a in range(0, len(lines), step)])
    n = sum(x[1] for x in res)
    for bad, _, _ in res:
        for what, case in bad:
            chk.violation(f"{name}: the real tracker differs from the specification in {what}", dict(case, part=name))
    chk.traces += n
    chk.part(name, worlds=count, depth=depth, histories=n, operations=sum(x[2] for x in res), states=d,
             tlc_s=t1 - start, replay_s=time.time() - t1)
    if lines:
        chk.sample({"part": name, "history": json.loads(json.loads(lines[len(lines) // 2])[2:])})


def spec(rng, **kw):
    return R(StatusEffectSpec, **kw)


def lifetime_world(rng):
    """a buff with duration, maximum and charges, something that ends or extends it, and queries"""
    dur = rng.choice([1000, 1000, 2000, 0])
    kw = dict(duration=dur)
    if rng.random() < 0.5:
        kw["max_duration"] = dur + rng.choice([0, 500, 1000])
    if rng.random() < 0.5:
        kw["num_uses"] = rng.randint(1, 2)
        if rng.random() < 0.6:
            kw["max_num_uses"] = rng.randint(kw["num_uses"], 3)
    if rng.random() < 0.2:
        kw["extends_existing_duration"] = False
    on = rng.choice(["buff_spec", "buff_spec", "debuff_spec"])
    a = R(Skill, name="A", **{on: R(StatusEffectSpec, **kw, damage_mult=1.1)})
    what = rng.choice(["end", "extend", "clear", "other"])
    k2 = {"end": dict(duration=500, expires_status_effects=("A",)),
          "extend": dict(duration=rng.choice([500, 1000]), extend_only=True, max_duration=3000),
          "clear": dict(duration=0, clear_all_status_effects=True),
          "other": dict(duration=1500, max_num_uses=2, num_uses=1)}[what]
    on2 = on if what in ("extend", "end") else "buff_spec"
    b = R(Skill, name="A" if what == "extend" else "B", **{on2: R(StatusEffectSpec, **k2)})
    q = R(Skill, name="Q", damage_spec=R(DamageSpec, potency=100))
    w = World([a, b, q])
    return w, [w.op("a", 0), w.op("a", 1), w.op("q", 2)], ["q"]


def priority_world(rng):
    """three or four prioritised effects, active together in every order"""
    names = ["A", "B", "C", "D"][:rng.choice([3, 3, 4])]
    on = rng.choice(["buff_spec", "buff_spec", "debuff_spec"])
    mixed = rng.random() < 0.2
    sk = [R(Skill, name=n, **{rng.choice(["buff_spec", "debuff_spec"]) if mixed else on: R(
        StatusEffectSpec, duration=rng.choice([1000, 3000, 5000]), damage_mult=1 + (i + 1) / 100,
        num_uses=rng.choice([INF, INF, INF, 2]))}) for i, n in enumerate(names)]
    sk.append(R(Skill, name="Q", status_effect_denylist=tuple(rng.sample(names, rng.choice([0, 0, 1])))))
    w = World(sk, prio=rng.sample(names, rng.choice([3, len(names)])))
    return w, [w.op("a", i) for i in range(len(names))] + [w.op("q", len(names))], ["q"]


def selection_world(rng):
    """three effects with restrictions, exclusions and priorities; queries by two actions on two targets"""
    if rng.random() < 0.3:
        return priority_world(rng)
    names = ["A", "B", "C"]
    sk = []
    for n in names:
        kw = dict(duration=rng.choice([1500, 3000, INF]))
        kw[rng.choice(["damage_mult", "main_stat_mult"])] = rng.choice([1.1, 1.05, 0.9])
        kw[rng.choice(["crit_rate_add", "dh_rate_add"])] = rng.choice([0.1, 0.05])
        kw[rng.choice(["haste_time_reduction", "auto_attack_delay_reduction"])] = rng.choice([0.1, 0.15, 0])
        kw[rng.choice(["flat_cast_time_reduction", "flat_gcd_recast_time_reduction", "main_stat_add"])] = rng.choice([100, 500])
        if rng.random() < 0.4:
            kw["skill_allowlist"] = tuple(rng.sample(["Q", "P", "A"], rng.randint(0, 2)))
        if rng.random() < 0.3:
            kw["add_to_skill_modifier_condition"] = True
        if rng.random() < 0.3:
            kw["num_uses"] = rng.randint(1, 2)
        if rng.random() < 0.25:
            kw[rng.choice(["guaranteed_crit", "guaranteed_dh"])] = rng.choice([ForcedCritOrDH.FORCE_YES, ForcedCritOrDH.FORCE_NO])
        sk.append(R(Skill, name=n, **{rng.choice(["buff_spec", "debuff_spec"]): R(StatusEffectSpec, **kw)}))
    sk.append(R(Skill, name="Q", status_effect_denylist=tuple(rng.sample(names, rng.choice([0, 0, 1])))))
    sk.append(R(Skill, name="P", status_effect_denylist=tuple(rng.sample(names, rng.choice([0, 1, 2])))))
    w = World(sk, prio=rng.sample(names, rng.choice([0, 2, 3])))
    tg = lambda: rng.choice([("Default Target",), ("Boss",), ("Default Target", "Boss")])
    menu = [w.op("a", i, tgs=tg()) for i in range(3)]
    menu += [w.op("q", 3), w.op("q", 4, tg="Boss")]
    return w, menu, ["q"]


def breaker_world(rng):
    """two combos; actions of one break the other, whether they succeed or fail"""
    by = rng.choice([{0: (1,)}, {1: (0,)}, {0: (1,), 1: (0,)}, {0: (0,)}, {0: (2, 1)}])
    sk = [R(Skill, name="A", combo_spec=(R(ComboSpec, combo_group=0),)),
          R(Skill, name="B", combo_spec=(R(ComboSpec, combo_actions=("A",), combo_group=0),)),
          R(Skill, name="C", combo_spec=(R(ComboSpec, combo_group=1),)),
          R(Skill, name="D", combo_spec=(R(ComboSpec, combo_actions=("C",), combo_group=1),))]
    if rng.random() < 0.3:
        sk[3] = R(Skill, name="D", combo_spec=(R(ComboSpec, combo_actions=("C",), combo_group=1),
                                               R(ComboSpec, combo_actions=("B",), combo_group=0)))
    w = World(sk, brks=by)
    return w, [w.op("c", i) for i in range(4)], ["c"]


def combo_world(rng):
    if rng.random() < 0.35:
        return breaker_world(rng)
    names = ["A", "B", "C", "D"][:rng.choice([3, 3, 4])]
    sk = []
    for n in names:
        rules = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
            if rng.random() < 0.08:
                rules.append(R(ComboSpec, break_all_combos_only=True))
            else:
                rules.append(R(ComboSpec, combo_actions=tuple(rng.sample(names, rng.choice([0, 1, 1, 2]))),
                               combo_group=rng.choice([0, 0, 1, 2]), combo_auto_succeed=rng.random() < 0.1))
        sk.append(R(Skill, name=n, combo_spec=tuple(rules)))
    brks = {rng.choice([0, 1]): tuple(rng.sample([0, 1, 2], rng.randint(1, 2)))} if rng.random() < 0.6 else {}
    w = World(sk, brks=brks)
    menu = [w.op("c", i) for i in range(len(names))]
    if rng.random() < 0.4:
        menu.append(w.op("c", rng.randrange(len(names)), force=True))
    return w, menu, ["c"]


def resource_world(rng):
    mx = rng.choice([1, 2, 3])
    res = {"Gauge": R(JobResourceSettings, max_value=mx, skill_allowlist=("Q",),
                      expiry_from_last_gain=rng.choice([INF, 1000, 2000]), add_number_to_conditional=rng.random() < 0.7)}
    if rng.random() < 0.4:
        res["Kenki"] = R(JobResourceSettings, max_value=2, skill_allowlist=rng.choice([("Q",), ("A",)]))
    ch = lambda c: R(JobResourceSpec, name=rng.choice(list(res)) if c < 1 else "Gauge", change=c,
                     duration=rng.choice([INF, INF, 1000, 1500]), refreshes_duration_of_last_gained=rng.random() < 0.6)
    sk = [R(Skill, name="A", job_resource_spec=(ch(rng.choice([1, 2])),)),
          R(Skill, name="B", job_resource_spec=rng.choice([(ch(-1),), (ch(-INF),), (ch(1), ch(-2)),
                                                           (R(JobResourceSpec, clear_all_resources_only=True),)])),
          R(Skill, name="Q")]
    w = World(sk, res=res)
    return w, [w.op("r", 0), w.op("r", 1, off=rng.choice([0, 0, 500])), w.op("g", 2)], ["g"]


def channel_world(rng):
    names = ["A", "B", "C", "D"]
    sk = []
    for i, n in enumerate(names):
        kw = {}
        if i < 2:
            kw["channeling_spec"] = R(ChannelingSpec, duration=rng.choice([1000, 2000, 3000]),
                                      skill_allowlist=tuple(rng.sample(names[2:], rng.randint(0, 2))),
                                      num_uses=rng.choice([INF, 1, 2]))
        sk.append(R(Skill, name=n, **kw))
    sk.append(R(Skill, name="Wait 0.50s"))
    w = World(sk)
    menu = [w.op("h", i) for i in ([0, 1, 2, 3, 4] if rng.random() < 0.5 else [0, 2, 3, 4])]
    return w, menu + [w.op("w", 0)], ["w"]


# ------------------------------------------------------------ random histories
def history(kind, lo=8, hi=25):
    """a random world from the generator of rotations, and a random history on it"""

    def f(rng):
        feats = {"se": "buffs debuffs uses expire allow deny prio ac clear haste flat forced cond",
                 "combo": "combo cond", "res": "res cond", "chan": "chan cond"}[kind].split()
        k = gen.Synth(rng, feats, n=rng.randint(3, 7))
        decl = [k.decl["sk"][(k.job, n)] for n in k.names]
        if kind == "chan":
            decl.append(R(Skill, name="Wait 1.00s"))
        w = World(decl, k.decl["prio"], k.decl["res"], k.decl["brks"])
        tr = Trackers(w)
        t, ops = rng.choice([0, -2000, 5000]), []
        n = rng.randint(lo, hi)
        for j in range(n):
            t += rng.choice([0, 1, 500, 1000, 1500, 2500, 5000, 7000, 29999, 30000] if kind == "combo" else
                            [0, 0, 1, 500, 1000, 1500, 2500, 3000])
            cond = gen.spell(rng, rng.sample(gen.CONDS, rng.choice([0, 0, 1, 2])))
            i = rng.randrange(len(decl))
            o = {"se": lambda: w.op(rng.choice("qaa"), i, cond, off=rng.choice([0, 0, 0, 500, 1340]),
                                    tgs=tuple(rng.sample(TARGETS, rng.randint(1, 2))), tg=rng.choice(TARGETS)),
                 "combo": lambda: w.op("c", i, cond, force=rng.random() < 0.05),
                 "res": lambda: w.op(rng.choice("rg"), i, cond, off=rng.choice([0, 0, 0, 700])),
                 "chan": lambda: w.op("h" if j < n - 1 else "w", i, cond)}[kind]()
            out = tr.do(o, t)
            if out["k"] == "q":
                out = dict(out, b=ser.totals(out["b"]), d=ser.totals(out["d"]))
            ops.append(dict(strip(o), t=t, out=out))
            if out["k"] == "rejected":
                break
        return w.rec(ops=ops)
    return f


def histories(chk, kind, quick, thorough, **kw):
    return validate_traces(chk, "TraceHist", "histories-" + kind, history(kind, **kw), chk.n(quick, thorough),
                           describe=lambda s: {"ops": [f"{o['t']} {o['k']} {s['sk'][o['sk'] - 1]['n']}" for o in s["ops"]][:15]})


# ------------------------------------------------------------------ checks
def c03(chk):
    exhaustive(chk, "all-lifetimes", lifetime_world, chk.n(6, 30), 5, lambda r: [0, 500, r.choice([1000, 501])])
    exhaustive(chk, "more-lifetimes", lifetime_world, chk.n(16, 100), 4, lambda r: [0, 500, r.choice([1000, 501])])
    histories(chk, "se", 2500, 20000)
    cl = INST + PRESS + EVENT
    family(chk, "rotations", synth("cast buffs debuffs uses expire clear fol multi"), 250, 4000, cl)
    family(chk, "rotations-speed", synth("cast haste flat buffs debuffs uses expire", timed=False), 150, 3000, cl)


def c04(chk):
    exhaustive(chk, "all-selections", selection_world, chk.n(24, 100), chk.n(4, 4), [0, 1000])
    histories(chk, "se", 3000, 20000)
    family(chk, "rotations", synth("buffs debuffs allow deny prio ac multi cond uses"), 250, 4000, INST + EVENT)
    family(chk, "rotations-forced", synth("buffs debuffs forced prio multi", sim=False), 100, 2000, INST + EVENT)


def c10(chk):
    exhaustive(chk, "all-combos", combo_world, chk.n(16, 60), chk.n(4, 4), [2500, 30000, 30001])
    histories(chk, "combo", 3000, 20000)
    family(chk, "rotations", synth("combo cond cast fol", lo=5, hi=12), 300, 5000)
    family(chk, "real", real(autos=False, n=14), 120, 2500)


def c11(chk):
    exhaustive(chk, "all-resources", resource_world, chk.n(6, 30), 5, lambda r: [0, 1000, r.choice([500, 1001])])
    exhaustive(chk, "more-resources", resource_world, chk.n(16, 100), 4, lambda r: [0, 1000, r.choice([500, 1001])])
    histories(chk, "res", 3000, 20000)
    family(chk, "rotations", synth("res cond cast fol multi", lo=5, hi=12), 250, 4000)
    family(chk, "real", real(autos=False, n=14), 120, 2500)


def c12(chk):
    exhaustive(chk, "all-channels", channel_world, chk.n(2, 24), chk.n(5, 5), [0, 1000, 2500])
    exhaustive(chk, "more-channels", channel_world, chk.n(16, 100), 4, [0, 1000, 2000])
    histories(chk, "chan", 3000, 20000)
    family(chk, "rotations", synth("autos chan cast cond", timed=True, lo=5, hi=12), 180, 4000, EVENT)


# ------------------------------------------------------------------ variants
def _variants(lines):
    """replays enumerated tables of variants for every aspect of an action"""
    import random
    bad = []
    T = TimingSpec
    for line in lines:
        rng = random.Random(line)
        d = json.loads(json.loads(line)[2:])
        ks = [gen.spell(rng, list(k) + (rng.sample(list(k), 1) if k and rng.random() < 0.2 else [])) for k in d["o"]]
        sk = Skill(name="A", damage_spec={k: DamageSpec(potency=i + 1) for i, k in enumerate(ks)},
                   timing_spec={k: T(base_cast_time=i + 1) for i, k in enumerate(ks)},
                   buff_spec={k: StatusEffectSpec(duration=i + 1) for i, k in enumerate(ks)},
                   debuff_spec={k: StatusEffectSpec(duration=i + 1) for i, k in enumerate(ks)},
                   channeling_spec={k: ChannelingSpec(duration=i + 1) for i, k in enumerate(ks)},
                   combo_spec={k: (ComboSpec(combo_group=i + 1),) for i, k in enumerate(ks)},
                   job_resource_spec={k: (JobResourceSpec(name="R", change=i + 1),) for i, k in enumerate(ks)},
                   follow_up_skills={k: (FollowUp(skill=Skill(name="F"), delay_after_parent_application=i + 1),)
                                     for i, k in enumerate(ks)})
        m = SkillModifier(with_condition=gen.spell(rng, d["c"]))
        for c in d["c"]:
            if rng.random() < 0.2:
                m.add_to_condition(f" {c} ")
        got = {"damage": sk.get_damage_spec(m).potency, "timing": sk.get_timing_spec(m).base_cast_time,
               "buff": sk.get_buff_spec(m).duration, "debuff": sk.get_debuff_spec(m).duration,
               "channel": sk.get_channeling_spec(m).duration,
               "combo": sk.get_combo_spec(m)[0].combo_group, "resource": sk.get_job_resource_spec(m)[0].change,
               "follow-up": sk.get_follow_up_skills(m)[0].delay_after_parent_application}
        for k, v in got.items():
            if v != d["b"] and len(bad) < 3:
                bad.append((f"the {k} variant used", {"declared": ks, "conditions": d["c"], "expected": d["b"], "got": v}))
    return bad, len(lines), 8 * len(lines)


def all_variants(chk):
    t0 = time.time()
    rc, out = tlc.tlc("MCCond", workers=8, cfg="MCCond.cfg" if chk.quick else "MCCondBig.cfg")
    if "No error has been found" not in out:
        raise RuntimeError("MCCond fails: " + out[-2000:])
    g, d = tlc.counts(out)
    chk.states += d
    chk.transitions += g
    lines = [x for x in out.splitlines() if x.startswith('"H ')]
    import multiprocessing
    step = max(1, len(lines) // 32 + 1)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(_guarded, [lines[a:a + step] for a in range(0, len(lines), step)])
    for bad, _, _ in res:
        for what, case in bad:
            chk.violation(f"all-variants: {what} is not the most specific one", case)
    chk.traces += len(lines)
    chk.part("all-variants", tables=len(lines), lookups=8 * len(lines), seconds=time.time() - t0)
    chk.sample({"part": "all-variants", "case": json.loads(json.loads(lines[-1])[2:])})


def _guarded(lines):
    try:
        return _variants(lines)
    except Exception as e:
        return [(f"(raised {type(e).__name__}: {e}) and", {"lines": lines[:3]})], 0, 0


def _positional(rec, sk, uses):
    cases = []
    for cond, b in uses:
        m = SkillModifier(with_condition=cond, bonus_percent=b)
        with quiet():
            try:
                o = sorted(SkillModifier(with_condition=cond).add_to_condition(
                    Utils.get_positional_condition(sk, m)).with_condition)
            except ValueError:
                o = ser.conds(cond)
        cases.append({"c": ser.conds(cond), "b": pipe.NONE if b is None else b, "o": o})
    return {"pos": rec["pos"], "ign": rec["ign"], "cases": cases, "n": rec["n"]}


def positional(rng):
    """a random positional action and all percentages"""
    conds = ["", "No Positional", "No Combo", "No Combo, No Positional", "Alpha", "Alpha, No Positional",
             "Alpha, No Combo, No Positional"]
    ks = ["", "No Positional"] + rng.sample(conds[2:], rng.randint(0, 5))
    rng.shuffle(ks)
    tab = {gen.spell(rng, ser.conds(k)): R(DamageSpec, potency=rng.randrange(100, 700, 10), **(
        {"use_min_potency": rng.randrange(100, 500, 10)} if rng.random() < 0.15 else {})) for k in ks}
    kw = dict(ignored_conditions_for_bonus_potency=("Alpha",)) if rng.random() < 0.4 else {}
    if rng.random() < 0.25:
        def fs(v):   # the first follow-up that deals damage decides
            f = lambda n, d: R(FollowUp, skill=R(Skill, name=n, **({"damage_spec": d} if d else {})), delay_after_parent_application=0)
            out = [f("E", None)] if rng.random() < 0.4 else []
            out.append(f("F", v))
            if rng.random() < 0.5:
                out.append(f("G", R(DamageSpec, potency=rng.randrange(100, 700, 10))))
            return tuple(out)
        kw["follow_up_skills"] = {k: fs(v) for k, v in tab.items()}
    else:
        kw["damage_spec"] = tab
    sk = R(Skill, name="A", **kw)
    t = ser.Table()
    rec = t.recs[t.add(sk) - 1]
    uses = [(c, b) for c in ("", "Alpha", "No Combo", "Beta, Alpha") for b in [None, 0] + list(range(-5, 95))]
    return _positional(rec, sk.obj(), uses)


def real_positional(chk):
    """every positional action of every library, every percentage"""
    jobs = {}
    for version, level in gen.VERSIONS:
        lib = gen.real_lib(version, level)
        for job in gen.REAL_JOBS:
            if version < "7.0" and job in ("VPR", "PCT"):
                continue
            for n in gen.pressable(lib, job):
                sk = lib.get_skill(n, job)
                d = sk.damage_spec
                if isinstance(d, dict) and any("No Positional" in k for k in d):
                    t = ser.Table()
                    try:
                        rec = [r for r in t.recs[:t.add(sk)] if r["n"] == n][0]
                    except pipe.Skip:
                        continue
                    every = sorted(set().union(*d))
                    every = [""] + [c for c in every if not c.startswith("No ") and not c.startswith("Target")][:4]
                    jobs[(version, level, job, n)] = (rec, sk, [(c, b) for c in every for b in [None] + list(range(0, 80))])
    keys = list(jobs)
    scens = [_positional(*jobs[k]) for k in keys]
    verdicts, d, g = tlc.validate("TraceCond", scens)
    for k, s, v in zip(keys, scens, verdicts):
        if v:
            x = s["cases"][int(sorted(v)[0]) - 1] if "no-behaviour" not in v else None
            chk.violation(f"real-positionals: {k} resolves a bonus percentage to another outcome", {"action": k, "case": x})
    chk.states += d
    chk.traces += len(scens)
    chk.part("real-positionals", actions=len(scens), outcomes=sum(len(s["cases"]) for s in scens))


def c13(chk):
    all_variants(chk)
    validate_traces(chk, "TraceCond", "positionals", positional, chk.n(200, 4000),
                    describe=lambda s: {"table": s["pos"], "ignored": s["ign"], "cases": len(s["cases"])})
    real_positional(chk)
    family(chk, "rotations", synth("cond combo pos ac res multi fol cast buffs"), 250, 4000)
    family(chk, "rotations-positional", synth("pos combo cond", lo=5, hi=12), 150, 3000)
