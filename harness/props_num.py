"""Checks of the numbers: stat functions, base damage, chances, ranges, samples,
summaries and kill times (spec/Damage.tla, TraceNum, TraceFreq, TraceSum, Kill)."""
import math

import gen
import pipe
from base import NONE, Skip, quiet
from pipe import CONSTS, FORCED, level_consts
from props_pipe import family, mixed, synth
from raw import DamageSpec, FollowUp, R, Skill, StatusEffectSpec, TimingSpec
from run import model_check, validate_traces

import numpy as np
from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.stats import Stats
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects

JOBS = list(CONSTS["jobs"])
CLASSES = ["DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "AUTO", "PET"]
MULTS = [1050, 1100, 1030, 1200, 900, 1500, 1130, 1150, 1010, 500, 1060]
MAINS = [750, 500, 1100, 1050, 950]
OUT = [(False, False), (True, False), (False, True), (True, True)]
BAD = [9999] * 6


def limbs(n):
    """a natural number for BigNat; anything else is no number"""
    if n is None or n < 0 or not math.isfinite(n):
        return BAD
    out, n = [], int(n)
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def scaled(x, k):
    """x in 1/k units, if it is (nearly) a multiple"""
    x = float(x)
    if not math.isfinite(x):
        return None
    r = round(x * k)
    return r if abs(x * k - r) <= 1e-4 * max(1, abs(r) * 1e-9) else None


def rate(x):
    r = scaled(x, 10**4)
    return -7 if r is None else int(r)


# ------------------------------------------------------------------ characters
def character(rng, job=None, version=None, level=None, **kw):
    if version is None:
        version, level = rng.choice(gen.VERSIONS)
    job = job or rng.choice(JOBS)
    L, J = level_consts(version, level), CONSTS["jobs"][job]
    stat = lambda lo, hi: rng.choice([lo, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi)])
    d = dict(wd=rng.randint(1, 200), main=stat(L["main"], 6000), det=stat(L["main"], 3500), dhs=stat(L["sub"], L["sub"] + L["div"] * 11 // 10),
             crs=stat(L["sub"], 3500), spd=stat(L["sub"], 2500), ten=stat(L["sub"], 2500), str=rng.randint(100, 700),
             roles=rng.randint(0, 5), dly=rng.choice([J["delay"], J["delay"], rng.randrange(1800, 3600, 40)]))
    d.update(kw)
    st = Stats(wd=d["wd"], weapon_delay=d["dly"] / 1000, main_stat=d["main"], det_stat=d["det"], crit_stat=d["crs"],
               dh_stat=d["dhs"], speed_stat=d["spd"], job_class=job, version=version, level=level, tenacity=d["ten"],
               num_roles_in_party=d["roles"], healer_or_caster_strength=d["str"])
    d.update(L=L, jm=J["mod"], role=J["role"], sks=J["sks"], job=job)
    return st, d


def effects(rng, n=3, force=True):
    """what a kind of effects adds up to: (StatusEffects arguments, their integers)"""
    mult = [rng.choice(MULTS) for _ in range(rng.choice([0, 0, 1, 1, 2, n]))]
    msm = [rng.choice(MAINS) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    v = dict(mult=mult, msm=msm, msa=rng.choice([0, 0, 0, 262, 339, rng.randint(0, 500)]),
             ca=rng.choice([0, 0, 200, 1000, rng.randint(0, 1800)]), da=rng.choice([0, 0, 200, 1000, rng.randint(0, 1800)]),
             gc=rng.choice([0, 0, 0, 1, 2]) if force else 0, gd=rng.choice([0, 0, 0, 1, 2]) if force else 0)
    return v


def status(v):
    return StatusEffects(crit_rate_add=v["ca"] / 10**4, dh_rate_add=v["da"] / 10**4,
                         damage_mult=math.prod(x / 1000 for x in v["mult"]) if v["mult"] else 1,
                         main_stat_add=v["msa"], main_stat_mult=math.prod(x / 1000 for x in v["msm"]) if v["msm"] else 1,
                         guaranteed_crit=FORCED[v["gc"]], guaranteed_dh=FORCED[v["gd"]])


def hit(rng, cls=None, force=True):
    """an action's damage: (arguments of DamageSpec, integers)"""
    pot = rng.choice([rng.randrange(20, 1500, 10), rng.randrange(20, 1500, 10), rng.randint(1, 2000), rng.choice([0, 1, 3]),
                      rng.randrange(100, 900, 5) + rng.choice([0, 0.5, 0.25, 0.2])])
    v = dict(cls=cls or rng.choice(CLASSES + ["DIRECT"]), pot=round(pot * 1000), sdm=rng.choice([1000, 1000, 1000, 1500, 1050, 400]),
             gc=rng.choice([0, 0, 0, 1, 2]) if force else 0, gd=rng.choice([0, 0, 0, 1, 2]) if force else 0,
             tmo=rng.choice([None, None, None, 1000, 1400]), pjm=rng.choice([None, 100, 115, 100]),
             psc=rng.choice([1000, 1000, 880, 950]))
    sp = DamageSpec(potency=v["pot"] / 1000 if v["pot"] % 1000 else v["pot"] // 1000, damage_class=DamageClass[v["cls"]], guaranteed_crit=FORCED[v["gc"]], guaranteed_dh=FORCED[v["gd"]],
                    trait_damage_mult_override=None if v["tmo"] is None else v["tmo"] / 1000,
                    pet_job_mod_override=v["pjm"], pet_scalar=v["psc"] / 1000,
                    single_damage_mult=1 if v["sdm"] == 1000 else v["sdm"] / 1000)
    return sp, v


def record(ch, v, mod, b, d):
    """the specification's input for one instance"""
    J = CONSTS["jobs"][ch["job"]]
    x = {k: ch[k] for k in ("L", "jm", "role", "sks", "wd", "dly", "main", "det", "dhs", "crs", "spd", "ten", "str", "roles")}
    x.update(cls=v["cls"], pot=v["pot"], sdm=v["sdm"], msm=b["msm"] + d["msm"], msa=b["msa"] + d["msa"],
             mult=b["mult"] + d["mult"], ca=b["ca"] + d["ca"], da=b["da"] + d["da"],
             gc=[v["gc"], mod[0], b["gc"], d["gc"]], gd=[v["gd"], mod[1], b["gd"], d["gd"]],
             trait=J["trait"] if v["tmo"] is None else v["tmo"], pjm=NONE if v["pjm"] is None else v["pjm"], psc=v["psc"])
    return x


def contradicts(x):
    return any({1, 2} <= set(g) for g in (x["gc"], x["gd"]))


EMPTY = {"err": "", "base": [], "crit": 0, "dh": 0, "rng": [], "smp": []}
LABEL = {"No crit, no DH": 0, "Crit, no DH": 1, "No crit, DH": 2, "Crit, DH": 3}


def ranges(r):
    out = [None] * 4
    for label, lo, hi, p in r[1:]:
        q = scaled(p, 10**8)
        out[LABEL[label]] = {"lo": limbs(scaled(lo, 1)), "hi": limbs(scaled(hi, 1)), "p": 7 if q is None else int(q)}
        if q is not None and q < -1:
            raise Skip("a chance above 1")
    return out


def simulate(stats, insts, n=4, full=True):
    """observations of a simulation, one per instance"""
    try:
        with quiet():
            sim = DamageSimulator(stats, insts, n, save_damage_matrix=True, save_crit_dh_status=True)
            base = [ComputeDamageUtils.get_base_damage(s, m, stats, se) for _, s, m, se, _, _ in insts]
            cr, dr = sim.get_crit_and_dh_rates()
            cr, dr = np.atleast_1d(cr), np.atleast_1d(dr)
            rg = sim.get_damage_ranges()
            mat, cs, ds = sim.get_damage_matrix(), sim.get_crit_status(), sim.get_dh_status()
    except Exception as e:
        return [dict(EMPTY, err=type(e).__name__, msg=str(e)[:200]) for _ in insts]
    out = []
    for i in range(len(insts)):
        out.append({"err": "", "base": limbs(scaled(base[i], 1000)), "crit": rate(cr[i]), "dh": rate(dr[i]),
                    "rng": ranges(rg[i]) if full else [],
                    "smp": [{"k": 1 + OUT.index((bool(cs[i, s]), bool(ds[i, s]))), "d": limbs(scaled(mat[i, s], 1))}
                            for s in range(n)] if full else []})
    return out


def show(s):
    return {"instances": len(s["x"]), "first": {k: s["x"][0][k] for k in ("cls", "pot", "role", "main", "mult", "gc", "gd")},
            "observed": s["x"][0]["o"]}


def instances(force=True, cls=None, job=None, count=6, n=3, **kw):
    """instances given directly to the simulator"""
    def f(rng):
        np.random.seed(rng.randrange(2**32))
        st, ch = character(rng, job=rng.choice(job) if job else None, **kw)
        xs, ins, single = [], [], []
        for i in range(count):
            sp, v = hit(rng, rng.choice(cls) if cls else None, force)
            b, d = effects(rng, force=force), effects(rng, 2, force)
            mod = (rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 0, 1, 2])) if force else (0, 0)
            x = record(ch, v, mod, b, d)
            inst = (1000 * i, Skill(name=f"A{i}", damage_spec=sp), SkillModifier(guaranteed_crit=FORCED[mod[0]], guaranteed_dh=FORCED[mod[1]]),
                    (status(b), status(d)), i, "T")
            if contradicts(x):
                x["o"] = simulate(st, [inst], n)[0]
                single.append(x)
            else:
                xs.append(x)
                ins.append(inst)
        for x, o in zip(xs, simulate(st, ins, n)):
            x["o"] = o
        return {"x": xs + single}
    return f


def end_to_end(rng):
    """effects and hits of a rotation; the effects an instance carries are taken by name"""
    np.random.seed(rng.randrange(2**32))
    st, ch = character(rng)
    job = ch["job"]
    lib = SkillLibrary(st.version, st.level)
    lib.set_current_job_class(job)
    t0 = R(TimingSpec, base_cast_time=0, animation_lock=0, application_delay=0)
    eff, names = {}, []
    for i in range(5):
        v = effects(rng, 1, force=False)
        v["mult"], v["msm"] = v["mult"][:1], v["msm"][:1]
        v["ca"], v["da"] = v["ca"] // 3, v["da"] // 3
        if i == 4:
            v[rng.choice(["gc", "gd"])] = rng.choice([1, 2])
        sp = StatusEffectSpec(duration=rng.choice([3000, 10000, 30000]), crit_rate_add=v["ca"] / 10**4, dh_rate_add=v["da"] / 10**4,
                              damage_mult=v["mult"][0] / 1000 if v["mult"] else 1, main_stat_add=v["msa"],
                              main_stat_mult=v["msm"][0] / 1000 if v["msm"] else 1,
                              guaranteed_crit=FORCED[v["gc"]], guaranteed_dh=FORCED[v["gd"]])
        kind = rng.choice(["buff_spec", "debuff_spec"])
        lib.add_skill(Skill(name=f"E{i}", is_GCD=False, timing_spec=t0.obj(), **{kind: sp}))
        eff[f"E{i}"] = v
    hits = {}
    for i in range(5):
        sp, v = hit(rng, CLASSES[i], force=False)
        if v["pot"] == 0:
            sp, v = hit(rng, CLASSES[i], force=False)
        lib.add_skill(Skill(name=f"H{i}", is_GCD=False, timing_spec=t0.obj(), damage_spec=sp))
        hits[f"H{i}"] = v
    presses, t = [], 0
    for _ in range(14):
        presses.append({"name": rng.choice(list(eff) + 2 * list(hits)), "t": t, "mod": None, "tg": None})
        t += rng.choice([1, 500, 1000, 2500])
    rot = pipe.Rotation(st, lib, {"fst": 0}, presses)
    with quiet():
        ins = DamageBuilder(st, lib).get_damage_instances(rot.entered().get_skill_timing())
    if not ins:
        return None
    none = dict(mult=[], msm=[], msa=0, ca=0, da=0, gc=0, gd=0)

    def add(ns):
        v = dict(none)
        for n in ns:
            e = eff[n]
            v = {k: v[k] + e[k] for k in v}
        return v
    xs = [record(ch, hits[s.name], (0, 0), add(se[0].status_effects), add(se[1].status_effects)) for _, s, _, se, _, _ in ins]
    keep = [i for i, x in enumerate(xs) if not contradicts(x)]
    if not keep:
        return None
    for i, o in zip(keep, simulate(st, [ins[i] for i in keep], 2)):
        xs[i]["o"] = o
    return {"x": [xs[i] for i in keep]}


def forced_grid(rng):
    """all combinations of what action, press, buffs and debuffs force, for one kind of hit"""
    st, ch = character(rng, main=2500)
    xs = []
    both = rng.random() < 0.5
    other = rng.choice([0, 0, 1, 2])
    for k in range(81):
        g = [k % 3, k // 3 % 3, k // 9 % 3, k // 27]
        h = [other, 0, 0, 0]
        rng.shuffle(h)
        gc, gd = (g, h) if both else (h, g)
        b, d = effects(rng, force=False), effects(rng, force=False)
        _, v = hit(rng, rng.choice(CLASSES), force=False)
        b["gc"], d["gc"], v["gc"] = gc[2], gc[3], gc[0]
        b["gd"], d["gd"], v["gd"] = gd[2], gd[3], gd[0]
        v["pot"] = 300000
        sp = DamageSpec(potency=300, damage_class=DamageClass[v["cls"]], guaranteed_crit=FORCED[gc[0]], guaranteed_dh=FORCED[gd[0]],
                        trait_damage_mult_override=None if v["tmo"] is None else v["tmo"] / 1000,
                        pet_job_mod_override=v["pjm"], pet_scalar=v["psc"] / 1000, single_damage_mult=v["sdm"] / 1000)
        x = record(ch, v, (gc[1], gd[1]), b, d)
        x["o"] = simulate(st, [(0, Skill(name="A", damage_spec=sp), SkillModifier(guaranteed_crit=FORCED[gc[1]], guaranteed_dh=FORCED[gd[1]]),
                                (status(b), status(d)), 0, "T")], 1, full=False)[0]
        xs.append(x)
    return {"x": xs}


def numbers(chk, name, f, quick, thorough, clauses):
    return validate_traces(chk, "TraceNum", name, f, chk.n(quick, thorough), clauses=clauses, describe=show)


BASE, RATES, RANGES = ("base",), ("crit", "dh", "base"), ("ranges", "probabilities", "samples")


def c15(chk):
    model_check(chk, "MCBig")
    numbers(chk, "direct", instances(cls=["DIRECT"], n=1), 400, 4000, BASE)
    numbers(chk, "dots", instances(cls=["MAGICAL_DOT", "PHYSICAL_DOT"], n=1), 400, 4000, BASE)
    numbers(chk, "autos-pets", instances(cls=["AUTO", "PET"], n=1), 400, 4000, BASE)
    numbers(chk, "tanks", instances(job=["PLD", "WAR", "DRK", "GNB"], n=1), 250, 3000, BASE)
    numbers(chk, "healers-casters", instances(job=["WHM", "SCH", "AST", "SGE", "BLM", "SMN", "RDM", "PCT"], n=1), 250, 3000, BASE)
    numbers(chk, "end-to-end", end_to_end, 150, 2000, BASE)


def c16(chk):
    numbers(chk, "all-guarantees", forced_grid, 32, 300, RATES)
    numbers(chk, "instances", instances(n=1), 400, 4000, RATES)
    numbers(chk, "end-to-end", end_to_end, 150, 2000, RATES)
    family(chk, "conflicting-effects", synth("forced buffs debuffs multi allow cast", skills=(3, 5), lo=5, hi=12), 200, 3000,
           ("instance-buffs", "instance-debuffs", "instances", "instance-damage"))


# ------------------------------------------------------------------ sampling
def frequencies(n):
    def f(rng):
        np.random.seed(rng.randrange(2**32))
        st, ch = character(rng, job=rng.choice(["SAM", "DRG", "NIN", "MNK", "RPR", "VPR"]), main=4000, wd=140,
                           crs=rng.randint(1500, 3500), dhs=rng.randint(1500, 2400))
        xs, ins = [], []
        for i in range(4):
            v = dict(cls="DIRECT", pot=60000000, sdm=1000, gc=0, gd=0, tmo=1000, pjm=None, psc=1000)
            b, d = effects(rng, force=False), effects(rng, force=False)
            b["mult"] = d["mult"] = []
            b["ca"], d["ca"] = rng.choice([0, 1000]), rng.choice([0, 500])
            if i == 3:
                v["gc"] = v["gd"] = 2
            sp = DamageSpec(potency=60000, damage_class=DamageClass.DIRECT, guaranteed_crit=FORCED[v["gc"]], guaranteed_dh=FORCED[v["gd"]],
                            trait_damage_mult_override=1)
            xs.append(record(ch, v, (0, 0), b, d))
            ins.append((rng.choice([0, 1000 * i]), Skill(name=f"A{i}", damage_spec=sp), SkillModifier(), (status(b), status(d)), i, "T"))
        order = sorted(range(4), key=lambda i: ins[i][0])
        ins, xs = [ins[i] for i in order], [xs[i] for i in order]
        with quiet():
            sim = DamageSimulator(st, ins, n, save_damage_matrix=True, save_crit_dh_status=True)
            cb = float(st.processed_stats.crit_bonus)
        m, c, d = sim.get_damage_matrix(), sim.get_crit_status().astype(bool), sim.get_dh_status().astype(bool)
        base = [float(ComputeDamageUtils.get_base_damage(s, mo, st, se)) for _, s, mo, se, _, _ in ins]
        # position of the roll within its range (up to truncation, which is small: rolls are huge)
        pos = np.stack([(m[i] / (1 + cb * c[i]) / (1 + 0.25 * d[i]) / base[i] - 0.95) / 0.1 for i in range(4)])
        ev = []

        def add(k, hits, i, j=None, o=1):
            ev.append({"k": k, "i": i + 1, "j": (i if j is None else j) + 1, "o": o, "n": int(hits.size), "c": int(hits.sum())})
        for i in range(4):
            for o, (x, y) in enumerate(OUT):
                add("outcome", (c[i] == x) & (d[i] == y), i, o=o + 1)
            for q in range(4):
                add("quarter", (pos[i] >= q / 4 - (q == 0)) & (pos[i] < (q + 1) / 4 + (q == 3)), i)
            h = pos[i] < 0.5
            e = n // 2 * 2
            add("half-again", h[0:e:2] & h[1:e:2], i)
            add("half-crit", h & c[i], i)
            add("half-direct", h & d[i], i)
            add("crit-again", c[i][0:e:2] & c[i][1:e:2], i)
            add("direct-again", d[i][0:e:2] & d[i][1:e:2], i)
            for j in range(i + 1, 4):
                add("crits", c[i] & c[j], i, j)
                add("directs", d[i] & d[j], i, j)
                add("crit-direct", c[i] & d[j], i, j)
                add("crit-direct", c[j] & d[i], j, i)
                add("halves", h & (pos[j] < 0.5), i, j)
        return {"x": xs, "ev": ev}
    return f


def c17(chk):
    numbers(chk, "ranges", instances(n=4), 400, 4000, RANGES)
    numbers(chk, "samples", instances(force=False, count=3, n=25, cls=["DIRECT", "AUTO"]), 200, 2000, RANGES)
    numbers(chk, "end-to-end", end_to_end, 120, 2000, RANGES)
    validate_traces(chk, "TraceFreq", "frequencies", frequencies(chk.n(20000, 100000)), chk.n(30, 400),
                    describe=lambda s: s["ev"][:2])


# ------------------------------------------------------------------ summaries
def summary(st, sim, rb, insts, n, rng):
    def pos(x, k):
        x = float(x)
        return limbs(round(x * k)) if math.isfinite(x) else BAD
    with quiet():
        per = sim.get_per_skill_damage(rb)
        ex, va = sim.get_expected_damage_per_damage_instance(), sim.get_variance_per_damage_instance()
        rg = sim.get_damage_ranges()
        mat, raw, dps = sim.get_damage_matrix(), sim.get_raw_damage(), sim.get_dps()
    ins = []
    for i in range(len(insts)):
        vs = 1 if va[i] > 1e5 else 1000
        ins.append({"rng": ranges(rg[i]), "e": pos(ex[i], 10**4), "v": pos(va[i], vs), "w": pos(per[i].standard_deviation**2, vs),
                    "vs": vs, "t": int(insts[i][0]), "sn": int(per[i].snapshot_time)})
    smp = [{"d": [pos(mat[i, s], 1) for i in range(len(insts))], "total": pos(raw[s], 1), "inf": bool(dps[s] == math.inf),
            "dps": pos(dps[s], 1000) if dps[s] != math.inf else []} for s in range(n)]
    q, iv = [], {"k": 0, "ts": [], "r": []}
    if insts:
        sns = [int(p.snapshot_time) for p in per]
        for t in [rng.choice(sns), rng.choice(sns), rng.choice(sns) - 1, rng.choice(sns) + 1, max(sns), min(sns) - 1, rng.randint(min(sns), max(sns) + 1)]:
            q.append({"t": t, "r": pos(RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp(per, t / 1000), 10**4)})
        if max(sns) >= 0:
            k = rng.choice([1, 2, 3, 5, 10, 60])
            r = RotationAnalysisUtils.get_dps_at_intervals(per, k)
            iv = {"k": 1000 * k, "ts": [int(round(1000 * t)) for t in r["snapshot_time"]],
                  "r": [pos(x, 10**4) for x in r["total_snapshotted_damage"]]}
    agree = len(per) == len(insts) and list(ex) == [p.expected_damage for p in per]
    return {"ins": ins, "tot": pos(sim.get_expected_damage(), 10**4) if agree else BAD, "totv": pos(sim.get_damage_variance(), 1),
            "smp": smp, "q": q, "iv": iv}


def summaries(feats, **kw):
    def f(rng):
        np.random.seed(rng.randrange(2**32))
        version, level = rng.choice(gen.VERSIONS)
        some = [x for x in feats.split() if rng.random() < 0.6]
        k = gen.Synth(rng, some, n=rng.randint(2, 6), version=version, level=level)
        rot = k.rotation(rng.randint(1, 9), **kw)
        n = 3
        with quiet():
            try:
                rb = rot.entered()
                ins = DamageBuilder(rot.stats, rot.lib).get_damage_instances(rb.get_skill_timing())
            except (AssertionError, RuntimeError):
                return None
            given = list(ins)
            if rng.random() < 0.4:   # in any order
                rng.shuffle(given)
                ins = sorted(given, key=lambda x: x[0])
            try:
                sim = DamageSimulator(rot.stats, given, n, save_damage_matrix=True)
            except RuntimeError:
                return None
        return summary(rot.stats, sim, rb, ins, n, rng)
    return f


def small(rng):
    """instances of tiny damage, and single or simultaneous ones, given directly"""
    np.random.seed(rng.randrange(2**32))
    st, ch = character(rng, wd=1, main=level_consts("7.0", 100)["main"])
    m = rng.choice([0, 1, 1, 2, 5])
    ins = []
    times = sorted(rng.choice([0, 0, 1, 1500, 30000]) for _ in range(m))
    for i in range(m):
        sp, v = hit(rng, force=False)
        sp = DamageSpec(potency=rng.choice([0, 1, 2, 5, 20, 300]), damage_class=sp.damage_class, single_damage_mult=rng.choice([1, 1, 0.4, 1.5]),
                        guaranteed_crit=FORCED[rng.choice([0, 1, 2])], guaranteed_dh=FORCED[rng.choice([0, 1, 2])])
        b, d = effects(rng, force=False), effects(rng, force=False)
        ins.append((times[i], Skill(name=f"A{i}", damage_spec=sp), SkillModifier(), (status(b), status(d)), i, "T"))
    with quiet():
        sim = DamageSimulator(st, ins, 3, save_damage_matrix=True)

    class Rb:   # a timeline with one event per instance
        class Q:
            @staticmethod
            def get_q():
                from types import SimpleNamespace as N
                return [N(event_id=x[4], event_times=N(primary=x[0] - 5, secondary=x[0]), skill=x[1]) for x in ins]

        @staticmethod
        def get_skill_timing():
            return Rb.Q
    return summary(st, sim, Rb, ins, 3, rng)


def best_of(rng):
    """the estimate of the best of k runs"""
    np.random.seed(rng.randrange(2**32))
    x = [rng.randint(0, 100) for _ in range(rng.choice([1, 2, 3, 5, 8]))]
    k, n = rng.choice([1, 1, 2, 2, 3, 5, 8]), rng.choice([1, 1, 5000, 5000, 10000])
    keep = list(x)
    given = {"list": list(x), "array": np.array(x), "floats": np.array(x, dtype=float)}[rng.choice(["list", "array", "floats"])]
    r = RotationAnalysisUtils.get_expected_max_in_k_runs(given, k, **({} if n == 10000 else {"num_trials": n}))
    if list(given) != keep:
        raise ValueError("the given samples were changed")
    return {"x": x, "k": k, "n": n, "m": limbs(round(float(r) * 1000))}


def c21(chk):
    validate_traces(chk, "TraceBest", "best-of-k", best_of, chk.n(200, 2000), describe=lambda s: s)
    d = lambda s: {"instances": len(s["ins"]), "queries": len(s["q"]), "interval": s["iv"]["k"]}
    validate_traces(chk, "TraceSum", "rotations", summaries("cast buffs debuffs fol classes dots multi fst down"), chk.n(600, 6000), describe=d)
    validate_traces(chk, "TraceSum", "small", small, chk.n(600, 6000), describe=d)


# ------------------------------------------------------------------ kill time
def lb_library(rng, job, version, level):
    lib = SkillLibrary(version, level)
    lib.set_current_job_class(job)
    t = lambda: TimingSpec(base_cast_time=0, animation_lock=0, application_delay=rng.choice([0, 0, 500]))
    lib.add_skill(Skill(name="Hit", is_GCD=False, timing_spec=t(), damage_spec={
        "": DamageSpec(potency=rng.choice([100, 300])), "Big": DamageSpec(potency=2000)}))
    for i in (1, 2, 3):
        lib.add_skill(Skill(name=f"LB {i}", is_GCD=False, timing_spec=t(), damage_spec=DamageSpec(potency=1)))
    return lib


def kills(rng):
    np.random.seed(rng.randrange(2**32))
    n = rng.choice([1, 2, 4])
    ins, rbs = [], []
    err, kt, cum, ts = "", [], [], []
    exact = rng.random() < 0.4
    for _ in range(rng.randint(1, 3)):
        version, level = rng.choice(gen.VERSIONS)
        job = rng.choice(["SAM", "NIN", "WAR", "AST"])
        st = gen.stats(rng, job, version, level)
        lib = lb_library(rng, job, version, level)
        presses, t = [], rng.choice([0, 0, 500])
        for _ in range(rng.randint(0, 8)):
            if exact or rng.random() < 0.4:
                k = rng.choice(["Exact", "Mean"])
                dmg = rng.choice([0, 1, 7, 100, 5000, rng.randint(1, 100000)])
                cond = [f"{k} Damage: {dmg}"] + rng.sample(["Alpha", "zeta", "Buff"], rng.choice([0, 0, 1, 2]))
                presses.append({"name": f"LB {rng.randint(1, 3)}", "t": t, "mod": {"cond": gen.spell(rng, cond)}, "tg": None,
                                "_": (k, dmg)})
            else:
                presses.append({"name": "Hit", "t": t, "mod": rng.choice([None, {"cond": "Big"}]), "tg": rng.choice([None, None, "A, B"])})
            t += rng.choice([0, 0, 1, 500, 2500, 700])
        rot = pipe.Rotation(st, lib, {"fst": rng.choice([None, 0, 0])}, presses)
        with quiet():
            rb = rot.entered()
            got = DamageBuilder(st, lib).get_damage_instances(rb.get_skill_timing())
            rg = DamageSimulator(st, got, 1).get_damage_ranges()
        rbs.append(rb)
        for (tt, s, m, se, _, _), r in zip(got, rg):
            lb = [x for x in m.with_condition if " Damage: " in x]
            if s.name.startswith("LB"):
                k, dmg = lb[0].split(" Damage: ")
                dmg = int(dmg)
                lo, hi = (dmg, dmg) if k == "Exact" else (dmg * 95 // 100 - 1, dmg * 105 // 100)
            else:
                lo, hi = min(x[1] for x in r[1:]), max(x[2] for x in r[1:])
            ins.append({"t": int(tt), "lo": max(0, int(lo)), "hi": int(hi)})
    if not ins:
        return None
    total = sum(i["lo"] for i in ins)
    hp = rng.choice([1, total, total + 1, max(1, total // 2), rng.randint(1, max(1, 2 * total)), 10**8,
                     max(1, sum(i["lo"] for i in ins if i["t"] <= rng.choice(ins)["t"]))])
    try:
        with quiet():
            k = KillTimeEstimator(hp)
            for rb in rbs:
                k.add_rotation(rb)
            a, b, c = k.estimate_kill_time(num_samples=n, verbose=False)
        kt = [NONE if x is None else int(round(1000 * x)) for x in a]
        cum = [[int(round(x)) for x in b[:, s]] for s in range(b.shape[1])]
        ts = [int(round(x)) for x in c]
    except Exception as e:
        err = type(e).__name__ + ": " + str(e)[:200]
    return {"err": err, "ins": ins, "ts": ts, "cum": cum, "kt": kt, "n": n, "hp": hp, "mean": []}


def lb_means(rng):
    """the average contribution of limit breaks of a declared mean"""
    np.random.seed(rng.randrange(2**32))
    version, level = rng.choice(gen.VERSIONS)
    job = rng.choice(["SAM", "NIN", "WAR", "AST"])
    st, lib = gen.stats(rng, job, version, level), lb_library(rng, job, version, level)
    dmg = [rng.choice([100, 5000, rng.randint(1, 100000)]) for _ in range(rng.randint(1, 3))]
    presses = [{"name": f"LB {rng.randint(1, 3)}", "t": 1000 * i, "mod": {"cond": f"Mean Damage: {d}"}, "tg": None}
               for i, d in enumerate(dmg)]
    err, mean = "", []
    try:
        with quiet():
            k = KillTimeEstimator(1)
            k.add_rotation(pipe.Rotation(st, lib, {"fst": 0}, presses).entered())
            _, b, _ = k.estimate_kill_time(num_samples=4800, verbose=False)
        a = [float(x) for x in b.mean(axis=1)]
        mean = [{"d": d, "m10": round(10 * (x - (a[i - 1] if i else 0)))} for i, (d, x) in enumerate(zip(dmg, a))]
    except Exception as e:
        err = type(e).__name__ + ": " + str(e)[:200]
    return {"err": err, "ins": [], "ts": [], "cum": [], "kt": [], "n": 0, "hp": 1, "mean": mean}


def c18(chk):
    model_check(chk, "MCKill")
    validate_traces(chk, "TraceKill", "kill-times", kills, chk.n(1500, 15000),
                    describe=lambda s: {"instances": len(s["ins"]), "hp": s["hp"], "kill_times": s["kt"]})
    validate_traces(chk, "TraceKill", "limit-breaks", lb_means, chk.n(40, 400), describe=lambda s: s["mean"])


# ------------------------------------------------------------------ stat functions
VL = [("6.55", 90), ("6.55", 100), ("7.0", 90), ("7.0", 100), ("7.05", 100), ("7.1", 100), ("test", 90)]


def whole(x, k=1):
    r = scaled(x, k)
    return -12345 if r is None else int(r)


def tables(chk):
    """(function, arguments) of every table"""
    top = chk.n(5000, 9000)
    one = {
        "crit-rate": lambda s, v, l: whole(StatFns.get_crit_stats(s, v, l)[0], 1000),
        "crit-bonus": lambda s, v, l: whole(StatFns.get_crit_stats(s, v, l)[1], 1000),
        "dh-rate": lambda s, v, l: whole(StatFns.get_dh_rate(s, v, l), 1000),
        "det": lambda s, v, l: whole(StatFns.fDet(s, v, l)),
        "tenacity": lambda s, v, l: whole(StatFns.fTnc(s, v, l)),
        "speed": lambda s, v, l: whole(StatFns.fSpd(s, v, l)),
        "ap": lambda s, v, l: whole(StatFns.fAP(s, False, v, l)),
        "ap-tank": lambda s, v, l: whole(StatFns.fAP(s, True, v, l)),
    }
    out = []
    for v, l in VL:
        L = level_consts(v, l)
        rng = chk.rng("tables", v, l)
        for k, f in one.items():
            for a in range(250, top, 500):
                out.append((L, k, v, l, [[s] for s in range(a, min(a + 500, top))], f))
        out.append((L, "det-dh", v, l, [[rng.randint(300, 4000), rng.randint(300, 4000)] for _ in range(600)],
                    lambda d, h, v, l: whole(StatFns.fDetDH(d, h, v, l))))
        out.append((L, "wd", v, l, [[w, j] for w in range(1, 200) for j in (100, 105, 110, 112, 115)],
                    lambda w, j, v, l: whole(StatFns.fWD(w, j, v, l))))
        dl = sorted({J["delay"] for J in CONSTS["jobs"].values()} | {1800, 2000, 3000})
        out.append((L, "auto", v, l, [[w, d, j] for w in range(1, 200) for d in dl for j in (100, 105, 110, 112, 115)],
                    lambda w, d, j, v, l: whole(StatFns.fAuto(w, d / 1000, j, v, l))))
        for t in (0, 10, 650, 1500, 2000, 2500, 2800, 3500, 5000, 8000, 60000, 1235, 2000 * 87 // 100, 2500 * 85 // 100):
            out.append((L, "time", v, l, [[t, s] for s in range(L["sub"], chk.n(2600, 4500))],
                        lambda t, s, v, l: whole(StatFns.get_time_using_speed_stat(t, s, v, l))))
    return out


def processed(rng):
    """the rates a character is given"""
    st, ch = character(rng)
    p, L = st.processed_stats, ch["L"]
    k = rng.choice(["crit-rate", "crit-bonus", "dh-rate", "det"])
    arg, val = {"crit-rate": ("crs", whole(p.crit_rate, 1000)), "crit-bonus": ("crs", whole(p.crit_bonus, 1000)),
                "dh-rate": ("dhs", whole(p.dh_rate, 1000)), "det": ("det", whole(p.det_bonus))}[k]
    return {"L": L, "k": k, "rows": [[ch[arg], val]]}


def c25(chk):
    model_check(chk, "MCStat")
    tabs = tables(chk)

    def f(key):
        L, k, v, l, args, fn = tabs[key[-1]]
        return {"L": L, "k": k, "rows": [a + [fn(*a, v, l)] for a in args]}
    f.by_key = True
    validate_traces(chk, "TraceStat", "tables", f, len(tabs), describe=lambda s: {"function": s["k"], "rows": len(s["rows"])})
    chk.part("tables", values=sum(len(t[4]) for t in tabs))
    validate_traces(chk, "TraceStat", "characters", processed, chk.n(600, 5000), describe=lambda s: s["k"])
