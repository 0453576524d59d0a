"""Seeded generators of action libraries and rotations."""
import random

from base import Skip, quiet
from pipe import Rotation
from raw import R

from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.skills.skill import Skill
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
from ama_xiv_combat_sim.simulator.stats import Stats

INF = float("inf")
JOBS = ["SAM", "MNK", "NIN", "WAR", "BLM", "BRD", "AST"]
DELAY = {"SAM": 2.64, "MNK": 2.56, "NIN": 2.56, "WAR": 3.36, "BLM": 3.28, "BRD": 3.04, "AST": 3.2}
MULTS = [1.05, 1.1, 1.03, 1.2, 0.9, 1.5, 1.13]
HASTES = [0.1, 0.13, 0.15, 0.2, 0.25, 0.03]
CONDS = ["Alpha", "Beta", "Gamma"]


def stats(rng, job, version="7.05", level=100, **kw):
    d = dict(wd=rng.randint(100, 146), weapon_delay=DELAY.get(job, 3.0), main_stat=rng.randint(1500, 4000),
             det_stat=rng.randint(400, 2500), crit_stat=rng.randint(400, 3000), dh_stat=rng.randint(400, 2000),
             speed_stat=rng.choice([400, 420, 420, 500, 650, 804, 1000, rng.randint(400, 1800)]), job_class=job,
             tenacity=rng.randint(400, 900), healer_or_caster_strength=rng.randint(150, 400), version=version, level=level,
             num_roles_in_party=rng.randint(1, 5))
    d.update(kw)
    return Stats(**d)


def spell(rng, cs):
    """a condition as a user may spell it"""
    cs = list(cs)
    rng.shuffle(cs)
    return rng.choice([", ", ",", " , "]).join(cs)


class Synth:
    """A synthetic action library.  feats selects what its actions can do."""

    def __init__(self, rng, feats, n=8, job=None, version="7.05", level=100):
        self.rng, self.feats = rng, set(feats)
        self.job = job or rng.choice(JOBS)
        self.lib = SkillLibrary(version, level)
        self.version, self.level = version, level
        self.nhaste = self.nmult = self.nforce = 0
        self.names = [f"{rng.choice('ZQMKA')}{i}" for i in range(n)]
        self.effects = list(self.names)
        self.fresh = 0
        self.decl = {"sk": {}, "prio": [], "res": {}, "brks": {}}
        self.leaves = []
        self.resources = ["Gauge", "Kenki"][: rng.randint(1, 2)] if "res" in self.feats else []
        # what effects and resources may be restricted to; autos only where asked for
        self.listable = self.names + ["Auto"] * (3 if "autoc" in self.feats else 0)
        self.lib.set_current_job_class(self.job)
        if "prio" in self.feats and n >= 3:
            self.decl["prio"] = rng.sample(self.names, rng.randint(2, 3))
            self.lib.set_status_effect_priority(tuple(self.decl["prio"]))
        for r in self.resources:
            self.decl["res"][r] = R(JobResourceSettings, 
                max_value=rng.randint(1, 4), skill_allowlist=tuple(rng.sample(self.listable, min(n, rng.randint(2, 6)))),
                expiry_from_last_gain=rng.choice([INF, INF, 3000, 8000]),
                add_number_to_conditional=rng.random() < 0.6)
            self.lib.add_resource(r, self.decl["res"][r].obj())
        if "combo" in self.feats and rng.random() < 0.6:
            g, by = rng.randint(0, 1), tuple(rng.sample([0, 1, 2], rng.randint(1, 2)))
            self.decl["brks"][g] = by
            self.lib.add_combo_breaker(g, by)
        for i, nm in enumerate(self.names):
            self.declare(self.skill(nm, i))
        self.declare(R(Skill, name="Auto", is_GCD=False, timing_spec=R(TimingSpec, 
            base_cast_time=0, animation_lock=0, application_delay=rng.choice([0, 400, 532])),
            **self.auto()))
        self.off = None
        if "off" in self.feats:
            self.off = "DNC" if self.job != "DNC" else "SAM"
            self.lib.set_current_job_class(self.off)
            self.offnames = []
            for i in range(2):
                nm = f"Off{i}"
                self.declare(R(Skill, 
                    name=nm, is_GCD=False, timing_spec=R(TimingSpec, base_cast_time=0, animation_lock=0,
                                                                 application_delay=rng.choice([0, 500])),
                    buff_spec={"": self.effect(), "Party": self.effect()},
                    off_class_default_condition=rng.choice(["", "Party"])), self.off)
                self.offnames.append(nm)

    def auto(self):
        make = lambda: R(DamageSpec, potency=90, damage_class=DamageClass.AUTO)
        if "autoc" not in self.feats:
            return {"damage_spec": make()}
        n = iter(range(90, 1000, 10))
        return {"damage_spec": self.variants(lambda: R(DamageSpec, potency=next(n), damage_class=DamageClass.AUTO), p=0.8),
                "status_effect_denylist": tuple(self.rng.sample(self.names, 1)) if self.has("deny", 0.5) else ()}

    def declare(self, sk, job=None):
        self.decl["sk"][(job or self.job, sk.name)] = sk
        self.lib.add_skill(sk.obj())

    # -------------------------------------------------------------- parts
    def has(self, f, p=1.0):
        return f in self.feats and self.rng.random() < p

    def cond_pool(self):
        out = list(CONDS) if "cond" in self.feats else []
        if "combo" in self.feats:
            out.append("No Combo")
        if "ac" in self.feats:
            out += self.rng.sample(self.names, min(2, len(self.names)))
        for r in self.resources:
            out += [r, f"1 {r}", f"2 {r}"]
        if "multi" in self.feats:
            out += ["Target 1", "Target 2"]
        if "many" in self.feats:
            out += ["Target 4"]
        return out

    def variants(self, make, p=0.35, none=0.0):
        """a value, or a dict of values by condition (always with a default)"""
        rng = self.rng
        pool = self.cond_pool()
        if not pool or rng.random() > p:
            return make()
        keys, seen = [""], {frozenset()}
        for _ in range(rng.randint(1, 3)):
            cs = frozenset(rng.sample(pool, min(len(pool), rng.choice([1, 1, 2]))))
            if cs not in seen:
                seen.add(cs)
                keys.append(spell(rng, cs))
        rng.shuffle(keys)
        return {k: (None if none and rng.random() < none else make()) for k in keys}

    def timing(self, gcd):
        rng = self.rng
        return R(TimingSpec, 
            base_cast_time=rng.choice([0, 0, 1500, 2000, 2800, 400, 500, 600]) if gcd and "cast" in self.feats else 0,
            gcd_base_recast_time=rng.choice([2500, 2500, 2500, 1500, 3000, 2000]),
            animation_lock=rng.choice([650, 650, 600, 100, 0, 1000]),
            application_delay=rng.choice([0, 0, 135, 300, 500, 620, 850, 1000]),
            affected_by_speed_stat=rng.random() < 0.75, affected_by_haste_buffs=rng.random() < 0.75)

    def effect(self, party=False):
        rng = self.rng
        kw = dict(duration=rng.choice([0, 1000, 2500, 5000, 10000, 20000, 3000]))
        if rng.random() < 0.3:
            kw["max_duration"] = kw["duration"] * rng.choice([1, 2]) + rng.choice([0, 1500])
        if self.has("uses", 0.5):
            kw["num_uses"] = rng.randint(1, 3)
            if rng.random() < 0.5:
                kw["max_num_uses"] = kw["num_uses"] + rng.randint(0, 2)
        for f in ("crit_rate_add", "dh_rate_add"):
            if rng.random() < 0.3:
                kw[f] = rng.choice([0.02, 0.05, 0.1, 0.2])
        if self.nmult < 6 and rng.random() < 0.6:
            kw["damage_mult"] = rng.choice(MULTS)
            self.nmult += 1
        if rng.random() < 0.15:
            kw["main_stat_add"] = rng.choice([100, 262])
        if self.nmult < 6 and rng.random() < 0.1:
            kw["main_stat_mult"] = rng.choice([0.75, 0.5, 1.1])
            self.nmult += 1
        if "haste" in self.feats and self.nhaste < 3 and rng.random() < 0.5:
            self.nhaste += 1
            kw[rng.choice(["haste_time_reduction", "auto_attack_delay_reduction"])] = rng.choice(HASTES)
            if rng.random() < 0.4:
                kw["auto_attack_delay_reduction"] = rng.choice(HASTES)
        if self.has("flat", 0.3):
            kw["flat_cast_time_reduction"] = rng.choice([INF, 500, 1500, 2500])
        if self.has("flat", 0.2):
            kw["flat_gcd_recast_time_reduction"] = rng.choice([100, 500, 1000])
        if rng.random() < 0.15:
            kw["extends_existing_duration"] = False
        if self.has("expire", 0.3):
            kw["expires_status_effects"] = tuple(rng.sample(self.effects, min(len(self.effects), rng.randint(1, 2))))
        if self.has("allow", 0.3):
            kw["skill_allowlist"] = tuple(rng.sample(self.listable, min(len(self.names), rng.randint(1, 4))))
        if self.has("forced") and rng.random() < (0.3 if self.nforce < 2 else 0.05):
            self.nforce += 1
            kw[rng.choice(["guaranteed_crit", "guaranteed_dh"])] = rng.choice(
                [ForcedCritOrDH.FORCE_YES, ForcedCritOrDH.FORCE_NO])
        if self.has("ac", 0.5):
            kw["add_to_skill_modifier_condition"] = True
        if self.has("expire", 0.1):
            kw["extend_only"] = True
        if self.has("clear", 0.15):
            kw["clear_all_status_effects"] = True
        return R(StatusEffectSpec, **kw)

    def dmg(self):
        rng = self.rng
        cls = rng.choice([DamageClass.DIRECT] * 5 + [DamageClass.PET, DamageClass.MAGICAL_DOT, DamageClass.AUTO]) \
            if "classes" in self.feats else DamageClass.DIRECT
        if "vclass" in self.feats:
            cls = rng.choice([DamageClass.DIRECT, DamageClass.PET, DamageClass.MAGICAL_DOT, DamageClass.AUTO, DamageClass.PHYSICAL_DOT])
        return R(DamageSpec, potency=rng.randrange(100, 900, 20), damage_class=cls)

    def combo_rule(self):
        rng = self.rng
        if rng.random() < 0.05:
            return R(ComboSpec, break_all_combos_only=True)
        return R(ComboSpec, combo_actions=tuple(rng.sample(self.names, min(len(self.names), rng.randint(0, 3)))),
                         combo_group=rng.randint(0, 2), combo_auto_succeed=rng.random() < 0.1)

    def change(self):
        rng = self.rng
        if rng.random() < 0.06:
            return R(JobResourceSpec, clear_all_resources_only=True)
        return R(JobResourceSpec, name=rng.choice(self.resources), change=rng.choice([1, 1, 2, 3, -1, -1, -2, -INF]),
                               duration=rng.choice([INF, INF, 2000, 6000]),
                               refreshes_duration_of_last_gained=rng.random() < 0.5)

    def leaf(self, dot=False):
        """an action used only as a follow-up"""
        rng = self.rng
        if self.leaves and rng.random() < 0.3 and not dot:
            return rng.choice(self.leaves)
        self.fresh += 1
        name = rng.choice([f"F{self.fresh}", f"F{self.fresh}", f"z{self.fresh}", rng.choice(self.names)]) if not dot else f"D{self.fresh}"
        kw = {}
        if dot or rng.random() < 0.6:
            kw["damage_spec"] = R(DamageSpec, potency=rng.randrange(40, 300, 20), damage_class=rng.choice(
                [DamageClass.MAGICAL_DOT, DamageClass.PHYSICAL_DOT]) if dot else DamageClass.DIRECT)
        rich = not dot or rng.random() < 0.12   # ticks rarely do more than damage
        if not rich:
            pass
        elif self.has("buffs", 0.5):
            kw["buff_spec"] = self.effect()
            self.effects.append(name)
        elif self.has("debuffs", 0.4):
            kw["debuff_spec"] = self.effect()
            self.effects.append(name)
        if rich and self.resources and rng.random() < 0.3:
            kw["job_resource_spec"] = (self.change(),)
        if "deny" in self.feats and rng.random() < 0.2:
            kw["status_effect_denylist"] = tuple(rng.sample(self.names, 1))
        if rich and "combo" in self.feats and rng.random() < 0.08:
            kw["combo_spec"] = (R(ComboSpec, break_all_combos_only=True),)
        sk = R(Skill, name=name, **kw)
        if not dot:
            self.leaves.append(sk)
        return sk

    def follow_ups(self):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            dot = "dots" in self.feats and (rng.random() < 0.5 or "fol" not in self.feats)
            sk = self.leaf(dot)
            out.append(R(FollowUp, 
                skill=sk, delay_after_parent_application=0 if dot else rng.choice([0, 0, 100, 300, 620, 2000]),
                snapshot_buffs_with_parent=rng.random() < 0.7, snapshot_debuffs_with_parent=rng.random() < 0.7,
                dot_duration=rng.choice([3000, 6000, 9000, 12000, 15000, 10000, 7500]) if dot else None,
                primary_target_only=rng.random() < 0.5))
        return tuple(out)

    def skill(self, name, i):
        rng = self.rng
        gcd = rng.random() < 0.6
        kw = dict(name=name, is_GCD=gcd, timing_spec=self.variants(lambda: self.timing(gcd), 0.2))
        if rng.random() < 0.75 or i == 0:
            kw["damage_spec"] = self.variants(self.dmg, 0.9 if "vclass" in self.feats else 0.4, none=0.1)
        if self.has("buffs", 0.45):
            kw["buff_spec"] = self.variants(self.effect, 0.3, none=0.1)
        if self.has("debuffs", 0.35):
            kw["debuff_spec"] = self.variants(self.effect, 0.3, none=0.1)
        if self.has("chan", 0.35):
            kw["channeling_spec"] = self.variants(lambda: R(
                ChannelingSpec, duration=rng.choice([1000, 3000, 6000, 9000]),
                skill_allowlist=tuple(rng.sample(self.names, rng.randint(0, min(3, len(self.names))))),
                num_uses=rng.choice([INF, 1, 2, 3])), 0.2, none=0.2)
        if self.has("combo", 0.6):
            kw["combo_spec"] = self.variants(lambda: tuple(self.combo_rule() for _ in range(rng.choice([1, 1, 1, 2]))), 0.15)
        if self.resources and rng.random() < 0.5:
            kw["job_resource_spec"] = self.variants(lambda: tuple(self.change() for _ in range(rng.choice([1, 1, 2]))), 0.2)
        if "res" in self.feats:
            kw["job_resources_snapshot"] = rng.random() < 0.7
        if self.has("deny", 0.3):
            kw["status_effect_denylist"] = tuple(rng.sample(self.names, rng.randint(1, 2)))
        if ("fol" in self.feats and rng.random() < 0.5) or ("dots" in self.feats and rng.random() < 0.5):
            kw["follow_up_skills"] = self.variants(self.follow_ups, 0.2)
        if self.has("pos", 0.5) and "damage_spec" in kw:
            p = rng.randrange(200, 500, 20)
            kw["damage_spec"] = {"": R(DamageSpec, potency=p + 60), "No Positional": R(DamageSpec, potency=p)}
            if rng.random() < 0.6:
                kw["damage_spec"][spell(rng, ["No Combo"])] = R(DamageSpec, potency=p - 80)
                kw["damage_spec"][spell(rng, ["No Combo", "No Positional"])] = R(DamageSpec, potency=p - 120)
        if self.has("drop", 0.6) and "damage_spec" in kw:
            if not isinstance(kw["damage_spec"], dict):
                kw["damage_spec"] = {"": kw["damage_spec"]}
            if all(v is not None for v in kw["damage_spec"].values()) and \
                    not any("Target" in k for k in kw["damage_spec"]):
                kw["aoe_dropoff"] = rng.choice([0.25, 0.5, 0.6, 0.4, 0.3])
        return R(Skill, **kw)

    # -------------------------------------------------------------- rotations
    def mod(self, name):
        rng = self.rng
        if rng.random() < 0.5:
            return None
        m = {}
        if "cond" in self.feats and rng.random() < 0.6:
            m["cond"] = spell(rng, rng.sample(CONDS, rng.randint(1, 2)))
        if "combo" in self.feats and rng.random() < 0.15:
            m["f"] = True
        if "ignore" in self.feats and rng.random() < 0.2:
            m["ic"] = True
        if "ignore" in self.feats and rng.random() < 0.2:
            m["ia"] = True
        if "pos" in self.feats and rng.random() < 0.7:
            sk = self.decl["sk"][(self.job, name)]
            ps = [v.potency for v in sk.damage_spec.values() if v] if isinstance(sk.damage_spec, dict) else [300]
            opts = [0] + [int(100 * (a - b) / a) for a in ps for b in ps]
            m["b"] = rng.choice(opts + [3])
        return m

    def targets(self):
        rng = self.rng
        if "multi" not in self.feats:
            return None
        pool = ["Default Target", "Boss", "Add"]
        if "many" in self.feats and rng.random() < 0.4:
            pool += [f"Mob {i}" for i in range(7)]
            return spell(rng, rng.sample(pool, rng.randint(3, 10 if rng.random() < 0.3 else 5)))
        return spell(rng, rng.sample(pool, rng.choice([1, 1, 2, 3])))

    def press(self, t=None):
        rng = self.rng
        if self.off and rng.random() < 0.2:
            return {"name": rng.choice(self.offnames), "job": self.off, "t": t, "tg": self.targets(),
                    "mod": rng.choice([None, {"cond": "Party"}, {}])}
        name = rng.choice(self.names)
        p = {"name": name, "mod": self.mod(name), "tg": self.targets(), "t": t}
        if t is None and rng.random() < 0.1:
            p["times"] = 2
        return p

    def rotation(self, n=8, timed=None, opts=None):
        rng = self.rng
        timed = rng.random() < 0.5 if timed is None else timed
        presses = []
        if timed:
            t = rng.choice([0, 0, -2000, 1500])
            for _ in range(n):
                presses.append(self.press(t))
                t += rng.choice([0, 100, 250, 500, 700, 1200, 2500, 2500, 4000, rng.randint(1, 3000)])
            if rng.random() < 0.5:
                rng.shuffle(presses)
        else:
            presses = [self.press() for _ in range(n)]
        o = dict(opts or {})
        if "autos" in self.feats:
            o.setdefault("autos", True)
        if "dots" in self.feats:
            o.setdefault("trail", rng.random() < 0.4)
            o.setdefault("snap", rng.choice([None, None, 0, 700, 1300, -500]))
        if "fst" in self.feats:
            o.setdefault("fst", rng.choice([None, 0, 0, 3000]))
        if "down" in self.feats:
            o.setdefault("dt", self.downtime())
        if "deft" in self.feats:
            o.setdefault("deft", rng.choice([None, "Boss"]))
        return Rotation(stats(rng, self.job, self.version, self.level), self.lib, o, presses, self.decl)

    def downtime(self):
        return windows(self.rng, "multi" in self.feats and self.rng.random() < 0.6,
                       ["", "AUTO", "DIRECT", "MAGICAL_DOT", "PET", "PHYSICAL_DOT"] if "vclass" in self.feats
                       else ["", "", "", "AUTO", "DIRECT", "MAGICAL_DOT"])


def windows(rng, per, classes, until=6000):
    out = []
    for tg in (rng.sample(["Default Target", "Boss", "Add"], rng.randint(1, 3)) if per else [None]):
        t = rng.choice([0, 1000, 2500, 3000, rng.randint(0, until)])
        for _ in range(rng.randint(1, 2)):
            d = rng.choice([500, 2000, 3001, rng.randint(1, 6000)])
            cls = rng.choice(classes)
            out.append((tg, t, t + d, cls or None))
            t += d + rng.choice([0, 1, 1000, 4000])
    return out


# ------------------------------------------------------------------ real jobs
_libs = {}


def real_lib(version, level):
    from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
    if (version, level) not in _libs:
        with quiet():
            _libs[(version, level)] = create_skill_library(version=version, level=level)
    return _libs[(version, level)]


def skill_names(lib, job):
    import contextlib
    import io
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        lib.print_skill_names(job)
    return [x for x in b.getvalue().split("\n") if x]


VERSIONS = [("6.55", 90), ("7.0", 100), ("7.01", 100), ("7.05", 100), ("7.1", 100)]
REAL_JOBS = ["PLD", "WAR", "DRK", "GNB", "DRG", "RPR", "MNK", "SAM", "NIN", "VPR", "BRD", "MCH", "DNC", "BLM", "SMN",
             "RDM", "PCT", "WHM", "SCH", "AST", "SGE"]
GENERIC = ["Death", "Weakness", "Brink of Death"]


def skill_conditions(sk):
    out = set()
    for a in (sk.damage_spec, sk.timing_spec, sk.buff_spec, sk.debuff_spec, sk.follow_up_skills, sk.combo_spec,
              sk.job_resource_spec):
        if isinstance(a, dict):
            for k in a:
                out |= set(k)
    return sorted(c for c in out if c and not c.startswith("Target "))


def pressable(lib, job):
    out = []
    for n in skill_names(lib, job):
        sk = lib.get_skill(n, job)
        if sk.timing_spec is None or n.startswith("Wait") or n in ("Auto", "Shot") or "LB" in n:
            continue
        out.append(n)
    return out


def real_rotation(rng, version=None, level=None, job=None, n=12, timed=None, autos=None, multi=None, generic=0.05,
                  opts=None, names=None, down=False):
    if version is None:
        version, level = rng.choice(VERSIONS)
    job = job or rng.choice([j for j in REAL_JOBS if not (version < "7.0" and j in ("VPR", "PCT"))])
    lib = real_lib(version, level)
    names = names or [x for x in pressable(lib, job) if x not in GENERIC]
    timed = rng.random() < 0.4 if timed is None else timed
    multi = rng.random() < 0.3 if multi is None else multi
    presses = []
    t = 0
    for _ in range(n):
        x = rng.random()
        if x < generic:
            name = rng.choice(GENERIC)
        elif x < generic + 0.05:
            name = rng.choice(["Wait 0.50s", "Wait 2.00s", "Wait 1.23s"])
        else:
            name = rng.choice(names)
        sk = lib.get_skill(name, job)
        mod = None
        cs = skill_conditions(sk)
        if rng.random() < 0.3:
            mod = {}
            if cs and rng.random() < 0.7:
                mod["cond"] = spell(rng, rng.sample(cs, min(len(cs), rng.choice([1, 1, 2]))))
            if rng.random() < 0.1:
                mod["f"] = True
            if rng.random() < 0.3:
                mod["b"] = rng.choice([0, 0, 10, 20, 33])
        tg = None
        if multi:
            pool = ["Default Target", "Boss", "Add"]
            tg = ", ".join(rng.sample(pool, rng.choice([1, 1, 2, 3])))
        presses.append({"name": name, "mod": mod, "tg": tg, "t": t if timed else None})
        t += rng.choice([600, 700, 1300, 2500, 2500, rng.randint(100, 4000)])
    o = dict(opts or {})
    o.setdefault("autos", rng.random() < 0.3 if autos is None else autos)
    o.setdefault("trail", rng.random() < 0.3)
    o.setdefault("snap", rng.choice([None, None, 0, 700]))
    if down:
        o.setdefault("dt", windows(rng, multi and rng.random() < 0.6, ["", "", "AUTO", "DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "PET"], 15000))
        o.setdefault("fst", rng.choice([None, None, 0, 2000]))
    return Rotation(stats(rng, job, version, level), lib, o, presses)
