"""Checks decided by trace validation of the whole pipeline (spec/TracePipe.tla)."""
import gen
import pipe
from raw import DamageSpec, FollowUp, R, Skill, StatusEffectSpec, TimingSpec
from run import known_findings, validate_traces
from props_small import small
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary

PRESS = ("press-times", "press-order", "press-conditions")
EVENT = ("event-times", "event-targets", "event-snapshots", "event-conditions")
INST = ("instances", "instance-conditions", "instance-buffs", "instance-debuffs", "instance-damage")


def describe(s):
    """a short readable form of a scenario"""
    n = lambda i: s["sk"][i - 1]["n"] if i else "?"
    return {"presses": [f"{p.get('t', 'next')} {n(p['sk'])} {','.join(p['c'])} -> {','.join(p['tg'])}"
                        for p in s["seq"] + s["tim"]][:12],
            "options": s["o"], "events": len(s["obs"]["evs"]), "instances": len(s["obs"]["ins"]),
            "error": s["obs"]["err"]}


def synth(feats, lo=3, hi=9, timed=None, opts=None, sim=True, jobs=None, skills=(2, 8)):
    feats = feats.split()

    def f(rng):
        version, level = rng.choice(gen.VERSIONS)
        k = gen.Synth(rng, feats, n=rng.randint(*skills), version=version, level=level,
                      job=rng.choice(jobs) if jobs else None)
        o = opts(rng) if opts else None
        return pipe.traced(k.rotation(rng.randint(lo, hi), timed=timed, opts=o), sim=sim)
    return f


def mixed(feats, keep=0.6, **kw):
    """a random selection of the features"""
    every = feats.split()

    def f(rng):
        some = [x for x in every if rng.random() < keep] or every[:1]
        return synth(" ".join(some), **kw)(rng)
    return f


def real(**kw):
    def f(rng):
        return pipe.traced(gen.real_rotation(rng, **kw))
    return f


def family(chk, name, f, quick, thorough, clauses=None):
    return validate_traces(chk, "TracePipe", name, f, chk.n(quick, thorough), clauses=clauses, describe=describe)


# ------------------------------------------------------------------ checks
def c01(chk):
    cl = PRESS + ("event-times",)
    jobs = ["MNK", "NIN", "SAM", "BLM", "WAR"]
    small(chk, "seq", cl)
    small(chk, "seq-trait", cl)
    family(chk, "sequence-speed", synth("cast ignore", timed=False, jobs=jobs), 250, 3000, cl)
    family(chk, "sequence-haste", synth("cast haste flat buffs debuffs uses", timed=False, jobs=jobs), 350, 4000, cl)
    family(chk, "sequence-conditions", synth("cast haste flat buffs debuffs ac cond fst multi allow", timed=False, jobs=jobs),
           200, 3000, cl)
    family(chk, "sequence-mixed", mixed("cast haste flat buffs debuffs uses expire allow deny prio ac clear fol combo res "
                                        "cond ignore fst multi off dots", timed=False, keep=0.4), 200, 4000, cl)
    family(chk, "real-sequence", real(timed=False, autos=False, n=12), 200, 3000, cl)


def c02(chk):
    cl = PRESS + EVENT
    small(chk, "snap", cl)
    family(chk, "cast-application", synth("cast ignore fst"), 200, 2500, cl)
    family(chk, "follow-ups", synth("cast fol ignore multi"), 300, 4000, cl)
    family(chk, "follow-ups-effects", synth("cast fol buffs debuffs haste flat multi cond"), 250, 4000, cl)
    family(chk, "timed", synth("cast fol cond off multi", timed=True), 250, 3000, cl)
    family(chk, "real", real(autos=False, opts={"snap": None}), 150, 3000, cl)
    follow_up_order(chk)


def follow_up_order(chk):
    """The recorded finding: the one scenario it names, and nothing else."""
    known = known_findings("C02")
    t = lambda d: R(TimingSpec, base_cast_time=0, animation_lock=0, application_delay=d)
    f1 = R(Skill, name="F1", is_GCD=False, timing_spec=t(0),
           buff_spec=R(StatusEffectSpec, duration=5000, add_to_skill_modifier_condition=True))
    f2 = R(Skill, name="F2", is_GCD=False, timing_spec=t(0),
           damage_spec={"": R(DamageSpec, potency=100), "F1": R(DamageSpec, potency=200)})
    for delay in (0, 1000):
        a = R(Skill, name="A", is_GCD=False, timing_spec=t(delay), follow_up_skills=tuple(
            R(FollowUp, skill=f, delay_after_parent_application=0, snapshot_buffs_with_parent=b)
            for f, b in ((f1, True), (f2, False))))
        lib = SkillLibrary("7.05", 100)
        lib.set_current_job_class("SAM")
        lib.add_skill(a.obj())
        s = pipe.traced(pipe.Rotation(gen.stats(chk.rng(), "SAM"), lib, {"fst": 0}, [{"name": "A", "t": 0}],
                                      {"sk": {("SAM", "A"): a}, "prio": [], "res": {}, "brks": {}}))
        in_order = [i["pot"] for i in s["obs"]["ins"]] == [200000]
        if not in_order:
            if delay and "follow-up-order" in known:
                chk.known.append("follow-up-order: " + known["follow-up-order"])
            else:
                chk.violation("follow-ups that apply together take effect out of order", {"delay": delay, "obs": s["obs"]})
    chk.part("follow-up-order", scenarios=2)


def c05(chk):
    cl = EVENT + INST
    small(chk, "snap", cl)
    family(chk, "buffs", synth("cast fol buffs uses"), 250, 3000, cl)
    family(chk, "debuffs", synth("cast fol debuffs multi uses"), 250, 3000, cl)
    family(chk, "both", synth("cast fol buffs debuffs multi expire allow deny ignore ac cond"), 250, 4000, cl)
    family(chk, "dots", synth("cast dots fol buffs debuffs multi"), 120, 2000, cl)
    family(chk, "dots-charges", synth("dots buffs debuffs uses multi", lo=4, skills=(2, 4), timed=True), 100, 2000, cl)
    family(chk, "autos", synth("autos autoc cast buffs debuffs uses expire allow deny prio ac res cond multi", lo=4), 100, 2000, cl)
    family(chk, "real", real(), 150, 3000, cl)


def c06(chk):
    cl = EVENT + INST
    small(chk, "dot", cl)
    family(chk, "dots", synth("dots"), 250, 3000, cl)
    family(chk, "dots-multi", synth("dots multi cast"), 200, 3000, cl)
    family(chk, "dots-follow-ups", synth("dots fol cast cond multi fst ignore", lo=4, hi=12), 200, 3000, cl)
    family(chk, "dots-refresh", synth("dots", lo=8, hi=14, skills=(1, 2), timed=True), 150, 2500, cl)
    family(chk, "dots-autos", synth("dots autos"), 80, 1500, cl)
    family(chk, "real-dots", real(autos=False, n=14), 100, 2000, cl)


def c07(chk):
    cl = EVENT
    small(chk, "auto", cl)
    family(chk, "autos", synth("autos cast"), 150, 2000, cl)
    family(chk, "autos-haste", synth("autos haste buffs debuffs expire uses fol", lo=5, hi=12), 250, 4000, cl)
    family(chk, "autos-pauses", synth("autos chan cast haste buffs", timed=True, lo=5, hi=12), 250, 3000, cl)
    family(chk, "autos-targets", synth("autos multi down classes fst", lo=5, hi=12), 250, 3000, cl)
    family(chk, "autos-jobs", synth("autos haste buffs debuffs cond ac", jobs=["MNK", "NIN", "BRD", "BLM"]), 120, 2000, cl)
    family(chk, "autos-lists", synth("autos autoc haste buffs debuffs allow deny prio", lo=4), 100, 2000, cl)
    family(chk, "real-autos", real(autos=True), 60, 2000, cl)
    family(chk, "real-autos-downtime", real(autos=True, down=True), 60, 2000, cl)


def c08(chk):
    cl = EVENT + ("instances", "instance-conditions", "instance-damage")
    small(chk, "down", cl)
    family(chk, "downtime", synth("down cast classes fst"), 250, 3000, cl)
    family(chk, "downtime-targets", synth("down cast multi classes deft fst"), 300, 4000, cl)
    family(chk, "downtime-follow-ups", synth("down cast multi classes fol dots buffs", hi=12), 200, 3000, cl)
    family(chk, "downtime-conditions", synth("down cond combo classes multi", timed=True), 150, 3000, cl)
    family(chk, "downtime-variants", synth("down cond classes vclass multi", lo=5, hi=12), 200, 3000, cl)
    family(chk, "real-downtime", real(down=True), 100, 2000, cl)


def c09(chk):
    cl = PRESS + EVENT + INST
    small(chk, "snap", cl)
    family(chk, "shift", synth("cast fst fol dots"), 300, 4000, cl)
    family(chk, "shift-timed", synth("cast fst fol cond multi buffs", timed=True), 300, 4000, cl)
    family(chk, "shift-autos", synth("autos fst cast buffs haste"), 100, 2000, cl)
    family(chk, "real", real(autos=None), 100, 2000, cl)


def c14(chk):
    every = ("cast haste flat buffs debuffs uses expire allow deny prio ac clear fol dots combo res chan pos multi cond "
             "classes down fst deft off ignore drop")
    small(chk, "snap")
    small(chk, "down")
    family(chk, "mixed", mixed(every, keep=0.35), 350, 6000)
    family(chk, "simultaneous", synth("fol buffs debuffs multi classes uses", timed=True,
                                      opts=None, lo=4, hi=8, skills=(2, 3)), 200, 3000)
    family(chk, "mixed-autos", mixed(every + " autos", keep=0.3), 120, 2000)
    family(chk, "real", real(), 150, 4000)


def c23(chk):
    small(chk, "clear")
    family(chk, "clear", synth("clear buffs debuffs uses ac combo res fol cond multi"), 250, 3000)
    family(chk, "real-death", real(generic=0.3, n=14), 200, 3000)
    family(chk, "real-weakness", weakness, 100, 2000)


def weakness(rng):
    """deaths with Weakness / Brink of Death and presses up to their ends"""
    import random
    version, level = rng.choice(gen.VERSIONS)
    job = rng.choice([j for j in gen.REAL_JOBS if not (version < "7.0" and j in ("VPR", "PCT"))])
    lib = gen.real_lib(version, level)
    names = [x for x in gen.pressable(lib, job) if x not in gen.GENERIC]
    t, presses = 0, []
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 3)):
            presses.append({"name": rng.choice(names), "mod": None, "tg": None, "t": t})
            t += rng.choice([700, 2500])
        g = rng.choice(["Weakness", "Brink of Death"])
        if rng.random() < 0.7:
            presses.append({"name": "Death", "mod": None, "tg": None, "t": t})
            t += rng.choice([0, 1, 3000])
        presses.append({"name": g, "mod": None, "tg": None, "t": t})
        presses.append({"name": rng.choice(names), "mod": None, "tg": None, "t": t + rng.choice([0, 1, 99999, 100000, 100001])})
        t += rng.choice([2000, 40000, 100500])
    for _ in range(3):
        presses.append({"name": rng.choice(names), "mod": None, "tg": None, "t": t})
        t += rng.choice([700, 2500])
    return pipe.traced(pipe.Rotation(gen.stats(rng, job, version, level), lib, {}, presses))


def c24(chk):
    small(chk, "multi")
    family(chk, "multi", synth("multi many cast debuffs fol uses"), 250, 4000)
    family(chk, "multi-dots", synth("multi many cast debuffs dots fol fst"), 80, 2000)
    family(chk, "drop-off", synth("multi many drop cond combo debuffs"), 250, 4000)
    family(chk, "drop-off-effects", synth("multi many drop ac buffs debuffs res cond fol"), 150, 3000)
    family(chk, "real-multi", real(multi=True, autos=False), 150, 3000)
