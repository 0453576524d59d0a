"""Checks of repeatability, libraries, imported rotations and advertised effects
(spec/TracePipe.tla, Library.tla, TraceLib.tla, Advert.tla)."""
import copy
import hashlib
import itertools
import json
import os
import shutil
import tempfile

import gen
import pipe
import ser
from base import NONE, SPEC, Skip, quiet
from props_pipe import describe, family
from raw import DEFAULTS, DamageSpec, FollowUp, R, Skill, StatusEffectSpec, TimingSpec
from run import model_check, validate_traces

from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder

STAT_FIELDS = ("wd", "weapon_delay", "main_stat", "det_stat", "dh_stat", "crit_stat", "speed_stat", "job_class", "version",
               "tenacity", "num_roles_in_party", "healer_or_caster_strength", "level")


# ------------------------------------------------------------------ fingerprints
def plain(x):
    """the declared content of a value, as JSON"""
    if isinstance(x, dict):
        return sorted(([sorted(k) if isinstance(k, (set, frozenset)) else str(k), plain(v)] for k, v in x.items()),
                      key=lambda p: json.dumps(p[0]))
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    for c in DEFAULTS:
        if isinstance(x, c):
            out = {}
            for a in sorted(fields(c)):   # what differs from the documented defaults
                v = getattr(x, a)
                if a not in DEFAULTS[c] or v is not DEFAULTS[c][a] and v != DEFAULTS[c][a]:
                    out[a] = plain(v)
            return out
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return "inf" if x == float("inf") else "-inf" if x == float("-inf") else int(x) if x == int(x) else round(x, 9)
    return getattr(x, "name", str(type(x)))


EXTRA = {Skill: ("name", "has_buff", "has_debuff", "has_party_buff", "has_party_debuff"), DamageSpec: ("potency",),
         TimingSpec: ("base_cast_time",), StatusEffectSpec: ("max_duration", "max_num_uses"),
         FollowUp: ("skill", "delay_after_parent_application")}


def fields(c):
    return set(DEFAULTS[c]) | set(EXTRA.get(c, ()))


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


SETS = ("skill_allowlist", "status_effect_denylist", "combo_actions", "expires_status_effects",
        "ignored_conditions_for_bonus_potency")


def canon(x):
    """content up to what makes no difference: the order of lists that serve as sets, a table of only the unconditioned variant"""
    if isinstance(x, dict):
        return {k: sorted(set(v)) if k in SETS and isinstance(v, list) else canon(v) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) == 1 and isinstance(x[0], list) and len(x[0]) == 2 and x[0][0] == []:
            return canon(x[0][1])
        return [canon(y) for y in x]
    return x


def lib_content(lib, jobs=None):
    out = []
    for j in sorted(jobs or lib.get_jobs()):
        out.append([j, plain(lib.get_status_effect_priority(j)), plain(lib.get_all_resource_settings(j)),
                    plain(lib.get_all_combo_breakers(j)), [[n, plain(lib.get_skill(n, j))] for n in gen.skill_names(lib, j)]])
    return out


def stats_content(s):
    return [plain(getattr(s, f)) for f in STAT_FIELDS]


def mod_content(m):
    return [sorted(m.with_condition), m.guaranteed_crit.name, m.guaranteed_dh.name, m.force_combo, m.ignore_cast_times,
            m.ignore_application_delay, m.bonus_percent]


def inst_content(inst):
    return [[float(t), plain(s), mod_content(m), [plain(vars_of(x)) for x in se], i, tg] for t, s, m, se, i, tg in inst]


def vars_of(x):
    return {k: sorted(v) if isinstance(v, (set, frozenset, tuple, list)) else v for k, v in ser.totals(x).items()}


# ------------------------------------------------------------------ C19
class Watch:
    """digests of what the caller passed in, before and after"""

    def __init__(self):
        self.items = []

    def on(self, name, f):
        self.items.append((name, f, digest(f())))

    def rec(self):
        return [{"n": n, "a": a, "b": digest(f())} for n, f, a in self.items]


def ask(rb, rot, rng):
    """one use of a rotation; what comes out does not matter"""
    k = rng.randint(0, 3)
    tl = rb.get_skill_timing()
    if k >= 1:
        rb.get_button_press_timing()
    if k >= 2:
        tl.get_q()
    if k >= 3:
        inst = DamageBuilder(rot.stats, rot.lib).get_damage_instances(tl)
        if inst:
            DamageSimulator(rot.stats, inst, 2).get_per_skill_damage(rb)


def repeated(make, others=0, often=0.3):
    """enters the presses in portions, asking in between, possibly while other
    rotations on the same library, stats and modifiers are built; the portion
    entered when the timeline is finally recorded is judged"""
    def f(rng):
        rots = [make(rng)]
        a = rots[0]
        for _ in range(others):   # other rotations of the same character
            ps = list(a.presses)
            rng.shuffle(ps)
            if all(p.get("t") is not None for p in ps):
                ps = [dict(p, t=p["t"] + rng.choice([0, 500, 2500])) for p in ps]
            o = dict(a.opts, autos=not a.opts.get("autos") if rng.random() < 0.3 else a.opts.get("autos"))
            if rng.random() < 0.5:
                o["dt"] = []
            rots.append(pipe.Rotation(a.stats, a.lib, o, ps[:rng.randint(1, len(ps))], a.decl))
        for r in rots:
            r.scenario()   # raises Skip if it cannot be expressed
        upto = len(a.presses) if rng.random() < 0.7 else rng.randint(1, len(a.presses))
        w = Watch()
        job = a.stats.job_class
        w.on("library", lambda: lib_content(a.lib, [job]))
        w.on("stats", lambda: stats_content(a.stats))
        # modifier objects are shared between presses and rotations
        mods = {}
        for r in rots:
            for p in r.presses:
                if p.get("mod") is not None:
                    k = json.dumps(p["mod"], sort_keys=True)
                    if k not in mods:
                        mods[k] = pipe.modifier(p["mod"])
        w.on("modifiers", lambda: [[k, mod_content(m)] for k, m in sorted(mods.items())])
        dts = [r.downtime() for r in rots]
        w.on("downtime", lambda: plain(dts))
        obj = lambda p: dict(p, mod=None if p.get("mod") is None else mods[json.dumps(p["mod"], sort_keys=True)])
        with quiet():
            rbs = [r.builder(dts[i]) for i, r in enumerate(rots)]
            toggled = rng.random() < 0.4
            if toggled:   # switches set otherwise at first, and right before the last question
                rbs[0].set_enable_autos(rng.random() < 0.5 and "autos" in a.opts)
                rbs[0].set_ignore_trailing_dots(rng.random() < 0.5)
            todo = [list(r.presses) for r in rots]
            todo[0] = todo[0][:upto]
            while any(todo):
                i = rng.choice([i for i in range(len(rots)) if todo[i]])
                pipe.Rotation.enter(rbs[i], obj(todo[i].pop(0)))
                if rng.random() < often:
                    j = rng.randrange(len(rots))
                    ask(rbs[j], rots[j], rng)
            for _ in range(rng.randint(0, 2)):
                j = rng.randrange(len(rots))
                ask(rbs[j], rots[j], rng)
            if toggled:
                rbs[0].set_enable_autos(a.opts.get("autos", False))
                rbs[0].set_ignore_trailing_dots(a.opts.get("trail", False))
        r = pipe.Rotation(a.stats, a.lib, a.opts, a.presses[:upto], a.decl)
        s, tab = r.scenario()
        s["obs"] = pipe.observe(r, tab, rb=rbs[0])
        if not s["obs"]["err"]:
            with quiet():
                inst = DamageBuilder(a.stats, a.lib).get_damage_instances(rbs[0].get_skill_timing())
                if inst:
                    first = digest(inst_content(inst))
                    if rng.random() < 0.3:   # in any order
                        rng.shuffle(inst)
                    w.on("instances", lambda: inst_content(inst))
                    sim = DamageSimulator(a.stats, inst, rng.choice([1, 3]))
                    sim.get_per_skill_damage(rbs[0])
                    sim.get_dps(), sim.get_raw_damage()
                    # simulating again gives the same instances
                    again = DamageBuilder(a.stats, a.lib).get_damage_instances(rbs[0].get_skill_timing())
                    w.items.append(("instances-again", lambda: inst_content(again), first))
        s["obs"]["inp"] = w.rec()
        s["sk"] = tab.finish()
        return s
    return f


def synth_rot(feats, lo=3, hi=9, timed=None, distinct=False, keep=0.6):
    feats = feats.split()

    def f(rng):
        some = [x for x in feats if rng.random() < keep] or feats[:1]
        version, level = rng.choice(gen.VERSIONS)
        k = gen.Synth(rng, some, n=rng.randint(2, 6), version=version, level=level)
        r = k.rotation(rng.randint(lo, hi), timed=timed)
        if distinct:   # no two presses coincide, in any order
            t = -2000
            for p in r.presses:
                p["t"] = t
                t += rng.choice([1, 100, 250, 700, 2500, rng.randint(2, 3000)])
            rng.shuffle(r.presses)
        elif rng.random() < 0.3:   # timed presses besides the sequence
            for p in r.presses:
                if rng.random() < 0.3:
                    p["t"] = rng.randint(-1000, 12000)
                    p.pop("times", None)
        return r
    return f


def real_rot(rng):
    return gen.real_rotation(rng, n=8)


EVERY = "cast haste flat buffs debuffs uses ac clear fol dots combo res chan multi cond classes down fst deft off autos ignore"


def c19(chk):
    family(chk, "asked-repeatedly", repeated(synth_rot(EVERY)), 250, 4000)
    family(chk, "interleaved", repeated(synth_rot(EVERY), others=2), 200, 4000)
    family(chk, "any-order", repeated(synth_rot(EVERY, timed=True, distinct=True)), 200, 3000)
    family(chk, "any-order-autos", repeated(synth_rot("autos chan cast haste flat buffs debuffs multi", timed=True, distinct=True,
                                                      lo=5, hi=10, keep=0.85), often=0.6), 120, 2000)
    family(chk, "real", repeated(real_rot, others=1), 100, 2000)


# ------------------------------------------------------------------ C26
def advert(s):
    """an action as Advert.tla sees it, from its declaration"""
    asp = lambda x: ser.aspect(x, lambda e: bool(e.is_party_effect))
    leaf = lambda f: {"buf": asp(f.skill.buff_spec), "deb": asp(f.skill.debuff_spec)}
    return {"n": s.name, "buf": asp(s.buff_spec), "deb": asp(s.debuff_spec), "fol": ser.list_aspect(s.follow_up_skills, leaf)}


def advertised(s, obj):
    return dict(advert(s), ob=obj.has_buff is True, od=obj.has_debuff is True, opb=obj.has_party_buff is True,
                opd=obj.has_party_debuff is True)


def eff(kind, i=0):
    return None if kind == "none" else R(StatusEffectSpec, duration=1000 + i, damage_mult=1.05, is_party_effect=kind == "party")


def shapes():
    ks = ["none", "plain", "party"]
    yield from ks
    for a, b in itertools.product(ks, ks):
        yield (a, b)


def shape_spec(x):
    if isinstance(x, tuple):
        return {"": eff(x[0]), "A": eff(x[1], 1)}
    return eff(x)


def shape_cases():
    """all small actions: the aspect of the action and of up to two follow-ups"""
    S = list(shapes())
    out = []
    for m in S:
        for n in (0, 1, 2):
            for fs in itertools.product(S, repeat=n):
                out.append((m, "tuple", fs))
        for a, b in itertools.product([None] + S, repeat=2):
            out.append((m, "dict", (a, b)))
    return out


def build_shape(m, kind, fs, which):
    sp = lambda x: {which: shape_spec(x)} if shape_spec(x) is not None else {}
    fu = lambda i, x: R(FollowUp, skill=R(Skill, name=f"F{i}", **sp(x)), delay_after_parent_application=0)
    kw = dict(name="S", is_GCD=False, **sp(m))
    if kind == "tuple":
        kw["follow_up_skills"] = tuple(fu(i, x) for i, x in enumerate(fs))
    else:
        kw["follow_up_skills"] = {c: (() if x is None else (fu(i, x),)) for i, (c, x) in enumerate(zip(("", "B"), fs))}
    return R(Skill, **kw)


def exhaustive_shapes(key):
    which, part, parts = key[-3:]
    cs = shape_cases()
    return {"acts": [advertised(s, s.obj()) for s in (build_shape(*c, which) for c in cs[part::parts])]}


exhaustive_shapes.by_key = True


def random_adverts(rng):
    acts = []
    for _ in range(20):
        k = gen.Synth(rng, ["buffs", "debuffs", "fol", "cond", "dots"], n=4)
        for s in list(k.decl["sk"].values()):
            # some effects affect the party
            for x in effects_of(s):
                if rng.random() < 0.15:
                    x.kw["is_party_effect"] = True
        for s in k.decl["sk"].values():
            fresh(s)
            acts.append(advertised(s, s.obj()))
    return {"acts": acts}


def effects_of(s):
    for a in (s.buff_spec, s.debuff_spec):
        for v in (a.values() if isinstance(a, dict) else [a]):
            if v is not None:
                yield v
    f = s.follow_up_skills
    for fs in (f.values() if isinstance(f, dict) else [f]):
        for x in fs:
            yield from effects_of(x.skill)


def fresh(x):
    """forget what was built from a declaration"""
    if isinstance(x, R):
        x.__dict__["made"] = None
        for v in x.kw.values():
            fresh(v)
    elif isinstance(x, dict):
        for v in x.values():
            fresh(v)
    elif isinstance(x, tuple):
        for v in x:
            fresh(v)


def real_adverts(key):
    version, level = key[-2:]
    lib = gen.real_lib(version, level)
    acts = []
    for j in lib.get_jobs():
        for n in gen.skill_names(lib, j):
            s = lib.get_skill(n, j)
            acts.append(dict(advertised(s, s), n=f"{j} {n}"))
    return {"acts": acts}


real_adverts.by_key = True


def c26(chk):
    model_check(chk, "MCAdvert")
    names = lambda s: {"actions": len(s["acts"]), "first": s["acts"][0]["n"]}
    keyed(chk, "TraceAdvert", "shapes", exhaustive_shapes,
          [(w, i, 24) for w in ("buff_spec", "debuff_spec") for i in range(24)], names)
    keyed(chk, "TraceAdvert", "real", real_adverts, LIBS, names)
    validate_traces(chk, "TraceAdvert", "random", random_adverts, chk.n(100, 3000), describe=names)


LIBS = [("6.55", 90)] + [(v, l) for v in ("7.0", "7.01", "7.05", "7.1") for l in (90, 100)]


def keyed(chk, module, name, f, keys, desc=None):
    """validate_traces over given keys instead of random ones"""
    g = lambda k: f(tuple(keys[k[-1]]))
    g.by_key = True
    return validate_traces(chk, module, name, g, len(keys), describe=desc)


# ------------------------------------------------------------------ C20
VER = ["6.55", "7.0", "7.01", "7.05", "7.1"]        # the patches with data
ASKED = VER + ["7.02", "7.06", "7.2"]               # and versions in between and after


def vnum(v):
    return int(round(100 * float(v)))


def lib_entries(lib):
    """(job, name, content) of everything a library holds"""
    out = []
    for j in lib.get_jobs():
        out.append((j, "*priority", plain(lib.get_status_effect_priority(j))))
        for k, v in lib.get_all_resource_settings(j).items():
            out.append((j, "*resource " + k, plain(v)))
        for k, v in lib.get_all_combo_breakers(j).items():
            out.append((j, f"*combo {k}", plain(sorted(v))))
        waits = []
        for n in gen.skill_names(lib, j):
            x = plain(lib.get_skill(n, j))
            if n.startswith("Wait "):
                waits.append([n, x])
            else:
                out.append((j, n, x))
        out.append((j, "*waits", {"number": len(waits), "all": digest(sorted(waits, key=lambda w: w[0]))}))
    return out


def create(version, level):
    from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
    with quiet():
        return create_skill_library(version=version, level=level)


LIBRARY = os.path.join(SPEC, "library.ndjson")


def library_table():
    """the declared table with digests for contents, as TraceLib.tla reads it"""
    out = []
    for line in open(LIBRARY):
        d = json.loads(line)
        out.append({"l": d["l"], "j": d["j"], "n": d["n"],
                    "e": [{"v": vnum(v), "x": "" if x is None else digest(canon(x))} for v, x in d["e"]]})
    return out


def supported(rng=None):
    combos = [("6.55", 90)] + [(v, l) for v in ASKED[1:] for l in (90, 100)]
    return rng.choice(combos) if rng else combos


def histories(rng, combos=None):
    """libraries built one after the other, recorded when all are built"""
    combos = combos or [supported(rng) for _ in range(rng.randint(2, 4))]
    libs = []
    for v, l in combos:
        libs.append((v, l, create(v, l)))
        if rng.random() < 0.3:   # the same again: must be equal, and no part of the other
            libs.append((v, l, create(v, l)))
    return {"kind": "lib", "builds": [{"v": vnum(v), "l": l, "got": [{"j": j, "n": n, "x": digest(canon(x))} for j, n, x in
                                                                     lib_entries(lib)]} for v, l, lib in libs]}


def one_library(key):
    import random
    return histories(random.Random(repr(key)), [key[-2:]])


def synthetic_jobs(rng):
    """job classes on common data tables, for many versions and levels"""
    from ama_xiv_combat_sim.simulator.game_data.generic_job_class import GenericJobClass
    from ama_xiv_combat_sim.simulator.game_data.specific_skills import SpecificSkills
    data = SpecificSkills()
    names = [f"{rng.choice('ZQA')}{i}" for i in range(rng.randint(2, 6))]
    tables, tab = {}, []
    for n in names:
        t = {}
        for l in (90, 100):
            vs = rng.sample(VER, rng.randint(1, 4))
            if rng.random() < 0.5:
                vs.sort()
            t[l] = {"potency": {v: rng.randrange(100, 900, 10) for v in vs}}
        tables[n] = t
        data.add_skill_data(n, t)
    kinds = {n: rng.choice(["one", "one", "list", "gated"]) for n in names}
    gate = {n: rng.choice([90, 96]) for n in names}

    def method(n):
        def f(self):
            if kinds[n] == "gated" and self._level < gate[n]:
                return None
            if self._skill_data.get_skill_data(n, "potency") is None:
                return None
            s = Skill(name=n, is_GCD=True, timing_spec=TimingSpec(base_cast_time=0),
                      damage_spec=DamageSpec(potency=self._skill_data.get_potency(n)))
            return [s] if kinds[n] == "list" else s
        return GenericJobClass.is_a_skill(f)

    job = "SAM"
    ns = {f"m{i}": method(n) for i, n in enumerate(names)}

    def init(self, version, level):
        GenericJobClass.__init__(self, version=version, level=level, skill_data=data)
        self._job_class = job
    ns["__init__"] = init
    cls = type("J", (GenericJobClass,), ns)
    for n in names:
        for l in (90, 100):
            absent = kinds[n] == "gated" and l < gate[n]
            tab.append({"l": l, "j": job, "n": n, "e": [{"v": vnum(v), "x": "" if absent else str(p)}
                                                        for v, p in tables[n][l]["potency"].items()]})
    libs = []
    for _ in range(rng.randint(2, 5)):
        v, l = rng.choice(ASKED), rng.choice([90, 100])
        lib = SkillLibrary(v, l)
        with quiet():
            lib.add_all_skills_from(cls(v, l))
        libs.append((v, l, lib))
    return {"kind": "synth", "tab": tab,
            "builds": [{"v": vnum(v), "l": l, "got": [{"j": j, "n": n, "x": str(lib.get_skill(n, j).damage_spec.potency)}
                                                      for j in lib.get_jobs() for n in gen.skill_names(lib, j)]}
                       for v, l, lib in libs]}


def call_history(ops):
    lib = SkillLibrary("7.05", 100)
    out, k = [], 0
    for o in ops:
        k += 1
        r = {"op": o[0], "j": "", "n": "", "x": "", "r": ""}
        if o[0] == "job":
            r["j"] = o[1]
            lib.set_current_job_class(o[1])
        elif o[0] == "add":
            r.update(n=o[1], x=f"#{k}")
            try:
                lib.add_skill(Skill(name=o[1], off_class_default_condition=f"#{k}"))
                r["r"] = "ok"
            except RuntimeError:
                r["r"] = "rejected"
        elif o[0] == "get":
            r.update(j=o[1], n=o[2])
            try:
                r["r"] = lib.get_skill(o[2], o[1]).off_class_default_condition
            except KeyError:
                r["r"] = "unknown"
        elif o[0] == "names":
            r.update(j=o[1], r=gen.skill_names(lib, o[1]))
        elif o[0] == "has":
            r.update(j=o[1], n=o[2], r="yes" if lib.has_skill(o[2], o[1]) else "no")
        elif o[0] == "has-job":
            r.update(j=o[1], r="yes" if lib.has_job_class(o[1]) else "no")
        elif o[0] == "jobs":
            r["r"] = list(lib.get_jobs())
        elif o[0] == "set":
            r.update(j=o[1], n=o[2], x=f"#{k}")
            if o[1] == "priority":
                lib.set_status_effect_priority((f"#{k}", "E"))
            elif o[1] == "resource":
                lib.add_resource(o[2], JobResourceSettings(max_value=k, skill_allowlist=(f"#{k}",)))
            else:
                lib.add_combo_breaker(int(o[2]), (k,))
        elif o[0] == "own":
            res, brk, pri = lib.get_all_resource_settings(o[1]), lib.get_all_combo_breakers(o[1]), lib.get_status_effect_priority(o[1])
            r.update(j=o[1], r=[{"k": "resource", "n": n, "x": x.skill_allowlist[0]} for n, x in res.items()]
                     + [{"k": "breakers", "n": str(n), "x": f"#{x[0]}"} for n, x in brk.items()]
                     + [{"k": "priority", "n": "", "x": x} for x in pri[:1]])
            res["asked"] = brk[99] = None   # the answer is the caller's own
        out.append(r)
    return {"kind": "ops", "ops": out}


def call_alphabet():
    return [("job", j) for j in "JK"] + [("add", n) for n in "AB"] + [("get", j, n) for j in "JK" for n in "AB"]


def call_histories(key):
    first, n = key
    al = call_alphabet()
    return [call_history([("job", "J"), al[first]] + list(ops) + [("names", "J")])
            for ops in itertools.product(al, repeat=n)]


def random_calls(rng):
    ops = [("job", "J")]
    seen = ["J"]
    for _ in range(rng.randint(5, 25)):
        o = rng.choice(call_alphabet() + [("names", rng.choice(seen)), ("add", rng.choice("CDE")),
                                          ("has", rng.choice(seen), rng.choice("ABC")), ("has-job", rng.choice("JK")), ("jobs",),
                                          ("set", "priority", ""), ("set", "resource", rng.choice("RS")),
                                          ("set", "breakers", rng.choice("12")), ("own", rng.choice(seen)), ("own", rng.choice(seen))])
        if o[0] == "job":
            seen.append(o[1])
        ops.append(o)
    return call_history(ops)


def versioned_values(key):
    """every set of up to three patches in every order, asked for every version"""
    from ama_xiv_combat_sim.simulator.game_data.specific_skills import SpecificSkills
    out = []
    for n in range(0, 4):
        for vs in itertools.permutations(VER, n):
            d = SpecificSkills()
            d.add_skill_data("S", {90: {"potency": {"6.55": -1}}, 100: {"potency": {v: 100 + i for i, v in enumerate(vs)}}})
            d.set_level(100)
            e = [{"v": vnum(v), "x": str(100 + i)} for i, v in enumerate(vs)]
            for v in ["6.0"] + ASKED:
                d.set_version(v)
                r = d.get_skill_data("S", "potency")
                out.append({"e": e, "v": vnum(v), "r": "" if r is None else str(r)})
                try:
                    r = str(d.get_potency("S"))
                except ValueError:
                    r = ""
                out.append({"e": e, "v": vnum(v), "r": r})
    return {"kind": "vals", "vals": out}


def traits(key):
    """job traits by version and level"""
    from ama_xiv_combat_sim.simulator.game_data.job_class_fns import JobClassFns as F
    out = []
    for what, kind in (("haste", F.compute_trait_haste_time_reduction), ("auto", F.compute_trait_auto_attack_delay_reduction)):
        for level in (90, 100):
            tab = pipe.CONSTS["traits"][what][str(level)]
            for job in pipe.CONSTS["jobs"]:
                e = [{"v": vnum(v), "x": str(d.get(job, 0))} for v, d in tab.items()]
                for v in ASKED:
                    out.append({"e": e, "v": vnum(v), "r": str(ser.scaled(kind(job, v, level), 1000))})
    for level in (90, 100):
        for job, c in pipe.CONSTS["jobs"].items():
            for v in ASKED:
                out.append({"e": [{"v": 0, "x": str(c["trait"])}], "v": vnum(v),
                            "r": str(ser.scaled(F.compute_trait_damage_mult(job, v, level), 1000))})
    return {"kind": "vals", "vals": out}


def with_table(f):
    tmp = tempfile.mkdtemp(prefix="vlib")
    try:
        p = os.path.join(tmp, "lib.ndjson")
        with open(p, "w") as o:
            for r in library_table():
                o.write(json.dumps(r) + "\n")
        os.environ["VLIB"] = p
        return f()
    finally:
        os.environ.pop("VLIB", None)
        shutil.rmtree(tmp, ignore_errors=True)


def c20(chk):
    model_check(chk, "MCLibrary")
    d = lambda s: {"kind": s["kind"], "builds": [(b["v"], b["l"], len(b["got"])) for b in s.get("builds", ())],
                   "calls": len(s.get("ops", ())), "values": len(s.get("vals", ()))}

    def go():
        keyed(chk, "TraceLib", "libraries", one_library, supported(), d)
        validate_traces(chk, "TraceLib", "library-histories", histories, chk.n(16, 200), describe=d, batch=50)
        validate_traces(chk, "TraceLib", "job-classes", synthetic_jobs, chk.n(400, 10000), describe=d)
        keyed(chk, "TraceLib", "versioned-values", lambda k: (versioned_values if k[0] else traits)(k), [(0,), (1,)], d)
        al = call_alphabet()
        n = chk.n(3, 4)
        for first in range(len(al)):
            hs = call_histories((first, n))
            keyed_values(chk, "TraceLib", "all-calls", hs)
        validate_traces(chk, "TraceLib", "random-calls", random_calls, chk.n(300, 6000), describe=d)
    with_table(go)


def keyed_values(chk, module, name, values):
    g = lambda k: values[k[-1]]
    g.by_key = True
    return validate_traces(chk, module, name, g, len(values), batch=5000)


# ------------------------------------------------------------------ C22
def write_csv(rng, path, presses):
    """the presses as a user may write them into a file"""
    import csv
    cols = ["time", "skill_name", "job_class", "skill_conditional"]
    if any(p.get("tg") for p in presses) or rng.random() < 0.5:
        cols.append("targets")
    if rng.random() < 0.3:
        cols.append("comment")
    if rng.random() < 0.4:
        rng.shuffle(cols)
    caps = rng.choice([str.lower, str.upper, str.title, lambda c: "".join(rng.choice([x.upper(), x]) for x in c)])

    def cell(c, p):
        if c == "time":
            t = p["t"]
            return rng.choice([repr(t / 1000), f"{t / 1000:.3f}"]) if t % 1000 else rng.choice([str(t // 1000), f"{t / 1000:.1f}"])
        return {"skill_name": p["name"], "job_class": p.get("job") or "", "targets": p.get("tg") or "",
                "skill_conditional": (p.get("mod") or {}).get("cond", ""), "comment": rng.choice(["", "opener", "1"])}[c]

    with open(path, "w", newline="") as f:
        w = csv.writer(f, lineterminator=rng.choice(["\n", "\r\n"]), quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_NONNUMERIC]))
        w.writerow([caps(c) for c in cols])
        for p in presses:
            w.writerow([cell(c, p) for c in cols])


def plain_presses(rng, presses):
    """only what a row can say: time, action, job, conditions and targets"""
    t, out = rng.choice([0, -1500, 250]), []
    for i, p in enumerate(presses):
        ties = i < 2   # each order of coinciding presses is a behaviour of its own
        c = (p.get("mod") or {}).get("cond")
        q = {"name": p["name"], "job": p.get("job"), "tg": p.get("tg"), "mod": {"cond": c} if c else None, "t": t}
        if q["job"] is None and rng.random() < 0.2:
            q["own"] = True   # the own job spelled out
        out.append(q)
        t += rng.choice([0 if ties else 1, 1, 135, 500, 700, 1234, 2500, 2500, rng.randint(1, 4000)])
    if rng.random() < 0.4:
        rng.shuffle(out)
    return out


def from_csv(make):
    def f(rng):
        r = make(rng)
        ps = plain_presses(rng, r.presses)
        own = r.stats.job_class
        for p in ps:
            if p.pop("own", False):
                p["job"] = own
        if rng.random() < 0.1 and r.decl is not None:   # names a reader may take for blanks
            for p in ps:
                if p.get("tg") is None and "dt" not in r.opts:
                    p["tg"] = rng.choice(["NA", "None", "null", "nan"])
        missing = rng.random() < 0.06
        r = pipe.Rotation(r.stats, r.lib, r.opts, [] if missing else ps if rng.random() < 0.95 else [], r.decl)
        s, tab = r.scenario()
        from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
        tmp = tempfile.mkdtemp(prefix="vcsv")
        try:
            path = os.path.join(tmp, "r.csv")
            if not missing:
                write_csv(rng, path, r.presses)
            rb = r.builder()
            with quiet():
                CSVUtils.populate_rotation_from_csv(rb, path)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if not r.presses and not tab.recs:
            tab.add(R(Skill, name="none", is_GCD=False, timing_spec=R(TimingSpec, base_cast_time=0)))
        s["obs"] = pipe.observe(r, tab, rb=rb)
        s["sk"] = tab.finish()
        return s
    return f


def touches_resources(s):
    """the job gauge is the own job's: an action that changes it cannot be another job's"""
    f = s.follow_up_skills
    fs = [x for v in f.values() for x in v] if isinstance(f, dict) else list(f or ())
    return bool(s.job_resource_spec) or any(touches_resources(x.skill) for x in fs)


def lends(s):
    return bool(s.off_class_default_condition or s.has_party_buff or s.has_party_debuff)


def party_rot(rng):
    """a real rotation with what other jobs give the party in between"""
    r = gen.real_rotation(rng, n=6, autos=False)
    own = r.stats.job_class
    for _ in range(rng.randint(1, 4)):
        j = rng.choice([x for x in r.lib.get_jobs() if x != own])
        ns = [n for n in gen.pressable(r.lib, j) if lends(r.lib.get_skill(n, j))]
        if not ns:
            continue
        n = rng.choice(ns)
        sk = r.lib.get_skill(n, j)
        cs = gen.skill_conditions(sk)
        mod = None
        if touches_resources(sk):
            if not sk.off_class_default_condition:
                continue
        elif cs and rng.random() < 0.4:
            mod = {"cond": gen.spell(rng, rng.sample(cs, 1))}
        r.presses.insert(rng.randint(0, len(r.presses)), {"name": n, "job": j, "mod": mod, "tg": None, "t": 0})
    return r


def infos():
    """key -> rotation data, of the examples of all jobs"""
    import importlib
    from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
    out = {}
    base = os.path.join(os.path.dirname(importlib.import_module("ama_xiv_combat_sim.example_rotations").__file__))
    for role in ("tank", "healer", "ranged", "caster", "melee"):
        for f in sorted(os.listdir(os.path.join(base, role))):
            if f.endswith("_data.py"):
                m = importlib.import_module(f"ama_xiv_combat_sim.example_rotations.{role}.{f[:-3]}")
                for v in vars(m).values():
                    if isinstance(v, SpecificRotations):
                        out.update(v.rotations)
    return out


def example_character(d, version, level):
    from ama_xiv_combat_sim.simulator.stats import Stats
    kw = {k: v for k, v in d.items()}
    job = kw["job_class"]
    kw.setdefault("weapon_delay", pipe.CONSTS["jobs"][job]["delay"] / 1000)
    kw.setdefault("healer_or_caster_strength", pipe.CONSTS["jobs"][job].get("str"))
    return Stats(version=version, level=level, **kw)


def mod_dict(m):
    d = {"gc": ser.FORCE[m.guaranteed_crit], "gd": ser.FORCE[m.guaranteed_dh], "f": m.force_combo, "ic": m.ignore_cast_times,
         "ia": m.ignore_application_delay, "cond": ", ".join(sorted(m.with_condition))}
    if m.bonus_percent is not None:
        d["b"] = m.bonus_percent
    return d


def example_presses(d):
    out = [{"name": n, "mod": None, "tg": None, "t": None} for n in d["skills"]]
    for p in d.get("party_skills") or ():
        out.append({"name": p[1], "job": p[2], "t": int(round(1000 * p[0])), "tg": None,
                    "mod": mod_dict(p[3]) if len(p) > 3 else None})
    return out


EXAMPLE_OPTS = {"autos": True, "trail": True, "snap": 0}
NO_AUTOS = ("AST", "SGE", "WHM")   # jobs whose examples cast throughout


def example(key):
    version, level, name = key[-3:]
    from ama_xiv_combat_sim.example_rotations.get_example_rotations import get_example_rotations
    lib = gen.real_lib(version, level)
    with quiet():
        rb = get_example_rotations(lib)[name]
    d = infos()[name][level]
    r = pipe.Rotation(example_character(d["stats"], version, level), lib,
                      dict(EXAMPLE_OPTS, autos=d["stats"]["job_class"] not in NO_AUTOS), example_presses(d))
    s, tab = r.scenario()
    s["obs"] = pipe.observe(r, tab, rb=rb)
    s["obs"]["inp"] = [{"n": "character", "a": digest(stats_content(r.stats)), "b": digest(stats_content(rb.get_stats()))}]
    s["sk"] = tab.finish()
    return s


def offered(key):
    version, level = key
    from ama_xiv_combat_sim.example_rotations.get_example_rotations import get_example_rotations
    with quiet():
        got = sorted(get_example_rotations(gen.real_lib(version, level)))
    tab = [{"k": k, "l": l, "s": vnum(d["start_version"]), "e": vnum(d["end_version"]) if d.get("end_version") else NONE}
           for k, ls in infos().items() for l, d in ls.items()]
    return {"kind": "ex", "v": vnum(version), "l": level, "tab": tab, "got": got}


def synthetic_example(rng):
    """rotation data of our own, read by the implementation"""
    from ama_xiv_combat_sim.example_rotations.example_rotation_utils import ExampleRotationUtils
    from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
    version, level = rng.choice(gen.VERSIONS)
    some = [x for x in "cast haste buffs debuffs ac fol dots combo res cond".split() if rng.random() < 0.6]
    k = gen.Synth(rng, some + ["off"], n=rng.randint(2, 6), version=version, level=level)
    st = gen.stats(rng, k.job, version, level)
    d = {"stats": {f: getattr(st, f) for f in ("wd", "main_stat", "det_stat", "crit_stat", "dh_stat", "speed_stat", "job_class",
                                               "tenacity")},
         "skills": tuple(rng.choice(k.names) for _ in range(rng.randint(1, 8))), "start_version": "6.55"}
    if rng.random() < 0.5:
        d["stats"]["weapon_delay"] = rng.choice([2.4, 3.0, 3.36])
    party = []
    for _ in range(rng.randint(0, 3)):
        p = (rng.choice([0, 0.5, 1.234, 5, 7.77]), rng.choice(k.offnames), k.off)
        if rng.random() < 0.5:
            p += (SkillModifier(with_condition=rng.choice(["", "Party"])),)
        party.append(p)
    if party or rng.random() < 0.5:
        d["party_skills"] = tuple(party)
    info = SpecificRotations()
    info.add_rotation_data("Mine", {level: d})
    info.set_version(version)
    info.set_level(level)
    opts = EXAMPLE_OPTS
    if rng.random() < 0.5:
        opts = {"autos": rng.random() < 0.5, "trail": rng.random() < 0.5, "fst": rng.choice([None, 0])}
    r = pipe.Rotation(example_character(d["stats"], version, level), k.lib, opts, example_presses(d), k.decl)
    s, tab = r.scenario()
    with quiet():
        if opts is EXAMPLE_OPTS:
            got = ExampleRotationUtils.get_example_rotation(k.lib, "Mine", info)
        else:
            got = ExampleRotationUtils.get_example_rotation_with_rb("Mine", r.builder(), info)
    s["obs"] = pipe.observe(r, tab, rb=got[1])
    s["obs"]["inp"] = [{"n": "name", "a": "Mine", "b": got[0]},
                       {"n": "character", "a": digest(stats_content(r.stats)), "b": digest(stats_content(info.get_stats("Mine")))}]
    s["sk"] = tab.finish()
    return s


def c22(chk):
    family(chk, "csv", from_csv(synth_rot("cast buffs debuffs ac fol dots combo res cond off multi fst deft")), 160, 4000)
    family(chk, "csv-real", from_csv(party_rot), 60, 3000)
    family(chk, "examples-synthetic", synthetic_example, 100, 3000)
    libs = LIBS
    with_table(lambda: keyed(chk, "TraceLib", "examples-offered", offered, libs))
    every = [(v, l, k) for v, l in libs for k in offered((v, l))["got"]]
    if chk.quick:
        every = chk.rng("examples").sample(every, 30)
    keyed(chk, "TracePipe", "examples", example, every, describe)
