import os
_ns = {}
exec(open("/verif/tools/seeds/a.py" if not os.path.exists(os.path.join(os.getcwd(), "tools/seeds/a.py")) else "tools/seeds/a.py").read().split("SEEDS = [")[0], _ns)
PRELUDE = _ns["PRELUDE"]
T = "ama_xiv_combat_sim/simulator/trackers/"
SE, CT, JR, CH, DT = (T + x + ".py" for x in ("status_effect_tracker", "combo_tracker", "job_resource_tracker",
                                              "channeling_tracker", "damage_tracker"))
C = "ama_xiv_combat_sim/simulator/calcs/"
CDU, SF = C + "compute_damage_utils.py", C + "stat_fns.py"
UT = "ama_xiv_combat_sim/simulator/utils.py"
DS = "ama_xiv_combat_sim/simulator/damage_simulator.py"
DB, SKILL = _ns["DB"], _ns["SKILL"]
KT = "ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py"
CSV = "ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py"
GJ = "ama_xiv_combat_sim/simulator/game_data/generic_job_class.py"

TRK = '''from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
def grant(name, buff=None, debuff=None):
    return Skill(name=name, is_GCD=False, buff_spec=buff, debuff_spec=debuff)
'''

SEEDS = [
    dict(id="extension-capped-by-old-variant", property="C03",
         needs="an effect re-applied by a variant with another maximum duration than the one in force",
         breaks="the extension is capped by the maximum of the previous application",
         edits=[(SE, """                    status_effect_spec.max_duration,
                    time_left""", """                    prev_status_effect_spec.max_duration,
                    time_left""")],
         demo=TRK + '''se = StatusEffectTracker()
a = Skill(name="A", is_GCD=False, buff_spec={"": StatusEffectSpec(duration=10000, max_duration=10000, damage_mult=1.1),
    "Long": StatusEffectSpec(duration=30000, max_duration=60000, damage_mult=1.1)})
se.add_to_status_effects(0, a, SkillModifier())
se.add_to_status_effects(5000, a, SkillModifier(with_condition="Long"))
se.expire_status_effects(39000)
expect(se.compile_buffs(39000)[0].damage_mult, 1.1)
'''),
    dict(id="debuff-ends-named-on-default-target", property="C03",
         needs="a debuff that ends another named debuff, used on a target other than the default one",
         breaks="the named debuff survives on the target that was hit",
         edits=[(SE, """                    self.__expire_named_effect(expired_effect_name, t, target)""",
                 """                    self.__expire_named_effect(expired_effect_name, t)""")],
         demo=TRK + '''se = StatusEffectTracker()
se.add_to_status_effects(0, grant("Old", debuff=StatusEffectSpec(duration=30000, damage_mult=1.1)), SkillModifier(), ("Boss 2",))
se.add_to_status_effects(5000, grant("New", debuff=StatusEffectSpec(duration=30000, damage_mult=1.2, expires_status_effects=("Old",))),
                         SkillModifier(), ("Boss 2",))
se.expire_status_effects(6000)
expect(se.compile_debuffs(6000, target="Boss 2")[0].damage_mult, 1.2)
'''),
    dict(id="priority-suppresses-only-next", property="C04",
         needs="three effects of one priority list active at once",
         breaks="only the first lower-priority effect is suppressed",
         edits=[(SE, """                        del valid_status_effects[idx]
""", """                        del valid_status_effects[idx]
                        break
""")],
         demo=TRK + '''se = StatusEffectTracker(("A", "B", "C"))
for n, m in (("A", 1.1), ("B", 1.2), ("C", 1.3)):
    se.add_to_status_effects(0, grant(n, StatusEffectSpec(duration=30000, damage_mult=m)), SkillModifier())
expect(se.compile_buffs(1000)[0].damage_mult, 1.1)
'''),
    dict(id="failed-combo-breaks-nothing", property="C10",
         needs="an action of a breaking group whose own combo fails, between two combo actions of the broken group",
         breaks="groups are only broken by successful combo actions",
         edits=[(CT, """    for combo_group_to_be_broken, breakers in self.combo_breakers.items():
      if combo_spec""", """    for combo_group_to_be_broken, breakers in self.combo_breakers.items():
      if combo_succeeded and combo_spec""")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker
ct = ComboTracker({0: (1,)})
go = lambda t, n, *c: ct.compile_and_update_combo(t, Skill(name=n, combo_spec=c), SkillModifier())
go(0, "A", ComboSpec(combo_group=0))
go(1000, "X", ComboSpec(combo_group=1, combo_actions=("Y",)))
expect(go(2000, "B", ComboSpec(combo_group=0, combo_actions=("A",))), "No Combo")
'''),
    dict(id="combo-window-per-first-hit", property="C10",
         needs="a combo action used exactly 30 s after its predecessor",
         breaks="the combo window excludes its last moment",
         edits=[(CT, "GameConsts.COMBO_EXPIRATION_TIME >= curr_t", "GameConsts.COMBO_EXPIRATION_TIME > curr_t")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker
ct = ComboTracker({})
go = lambda t, n, *c: ct.compile_and_update_combo(t, Skill(name=n, combo_spec=c), SkillModifier())
go(0, "A", ComboSpec())
expect(go(30000, "B", ComboSpec(combo_actions=("A",))), "")
'''),
    dict(id="resource-gone-at-its-last-moment", property="C11",
         needs="a resource looked at exactly when a gain's duration ends",
         breaks="a gain does not count at the last moment of its duration",
         edits=[(JR, "                if curr_t > end_time:", "                if curr_t >= end_time:")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
tr = JobResourceTracker({"G": JobResourceSettings(max_value=3, skill_allowlist=("S",))})
tr.add_resource(0, Skill(name="x", job_resource_spec=(JobResourceSpec(name="G", change=2, duration=5000),)), SkillModifier())
expect(tr.compile_job_resources(5000, Skill(name="S")), "2 G")
'''),
    dict(id="channel-lasts-until-next-channel", property="C12",
         needs="a channel that runs out before the next channelled action",
         breaks="a channel followed by another one lasts until that one, beyond its duration",
         edits=[(CH, """                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
                self.__end_channeling(channel_end_time)
            self.__start""", """                self.__end_channeling(t)
            self.__start""")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
c = ChannelingTracker()
s = Skill(name="C", channeling_spec=ChannelingSpec(duration=3000))
c.process_channeling(0, s, SkillModifier()); c.process_channeling(10000, s, SkillModifier()); c.finalize()
expect(c.get_channeling_windows(), ((0, 3000), (10000, 13000)))
'''),
    dict(id="conditions-need-a-space", property="C13",
         needs="conditions written without a space after the comma",
         breaks="conditions spelled without spaces are not recognised as several",
         edits=[(UT, 'for x in condition.split(",")]', 'for x in condition.replace(" ,", ",").split(", ")]')],
         demo='''s = Skill(name="A", damage_spec={"": DamageSpec(potency=100), "X, Y": DamageSpec(potency=300)})
expect(s.get_damage_spec(SkillModifier(with_condition="X,Y")).potency, 300)
'''),
    dict(id="positional-min-ignores-own-minimum", property="C13",
         needs="a positional action whose bonus is relative to a declared minimum potency, seen with a bonus percentage",
         breaks="the potency gain is compared with the wrong minimum",
         edits=[(UT, """            if damage_spec_to_use[potency_key].use_min_potency:
                min_potency_to_use""", """            if damage_spec_to_use[min_potency_key].use_min_potency:
                min_potency_to_use""")],
         demo='''from ama_xiv_combat_sim.simulator.utils import Utils
s = Skill(name="A", damage_spec={"": DamageSpec(potency=400, use_min_potency=300), "No Positional": DamageSpec(potency=340, use_min_potency=300),
    "No Combo": DamageSpec(potency=200), "No Combo, No Positional": DamageSpec(potency=160)})
parse = lambda x: {c.strip() for c in x.split(",") if c.strip()}
expect(parse(Utils.get_positional_condition(s, SkillModifier(bonus_percent=25))), set())
expect(parse(Utils.get_positional_condition(s, SkillModifier(bonus_percent=11))), {"No Positional"})
expect(parse(Utils.get_positional_condition(s, SkillModifier(bonus_percent=20))), {"No Combo"})
'''),
    dict(id="physical-dot-ignores-weakness-on-target", property="C15",
         needs="a debuff on the target that changes main stat, for physical damage over time",
         breaks="physical damage over time ignores main-stat factors of debuffs",
         edits=[(CDU, """    def compute_physical_dot_damage(skill, skill_modifier, stats, status_effects):
        is_tank = stats.job_class_fns.isTank(stats.job_class)
        main_stat = np.floor(
            stats.main_stat
            * status_effects[0].main_stat_mult
            * status_effects[1].main_stat_mult
        )""", """    def compute_physical_dot_damage(skill, skill_modifier, stats, status_effects):
        is_tank = stats.job_class_fns.isTank(stats.job_class)
        main_stat = np.floor(
            stats.main_stat
            * status_effects[0].main_stat_mult
        )""")],
         demo='''from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils as U
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
s = Skill(name="D", damage_spec=DamageSpec(potency=500, damage_class=DamageClass.PHYSICAL_DOT))
w, n = StatusEffects(main_stat_mult=0.5), StatusEffects()
expect(U.get_base_damage(s, SkillModifier(), stats(), (n, w)), U.get_base_damage(s, SkillModifier(), stats(), (w, n)))
'''),
    dict(id="pet-main-stat-rounded", property="C15",
         needs="a pet with a scalar, at a main stat where the truncation matters",
         breaks="the scaled main stat of a pet is truncated before attack power",
         edits=[(CDU, """        main_stat *= damage_spec.pet_scalar
""", """        main_stat = np.floor(main_stat * damage_spec.pet_scalar)
""")],
         demo='''from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils as U
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
import numpy as np
s = Skill(name="P", damage_spec=DamageSpec(potency=10000, damage_class=DamageClass.PET, pet_job_mod_override=100, pet_scalar=0.88))
e = (StatusEffects(), StatusEffects())
got, want = [], []
for m in range(3000, 3040):
    st = Stats(wd=140, weapon_delay=2.6, main_stat=m, det_stat=1500, crit_stat=2000, dh_stat=1200, speed_stat=420, job_class="SMN", version="7.05", level=100)
    got.append(int(U.get_base_damage(s, SkillModifier(), st, e)))
    main = (m - (440 * 115 // 100 - 440)) * 22   # in 25ths
    ap = 100 + 237 * (main - 440 * 25) // (440 * 25)
    x = (10000 * ap // 100) * (1000 + 140 * (1500 - 440) // 2780) // 1000
    want.append(x * (44 + 140) // 100)
expect(got, want)
'''),
    dict(id="debuff-guarantee-ignored", property="C16",
         needs="a debuff on the target that guarantees a critical hit",
         breaks="critical hits guaranteed by a debuff are not guaranteed",
         edits=[(CDU, """            or status_effects[0].guaranteed_crit is ForcedCritOrDH.FORCE_YES
            or status_effects[1].guaranteed_crit is ForcedCritOrDH.FORCE_YES
""", """            or status_effects[0].guaranteed_crit is ForcedCritOrDH.FORCE_YES
""")],
         demo='''from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils as U
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
s = Skill(name="A", damage_spec=DamageSpec(potency=100))
expect(U.compute_crit_rates_and_bonuses(stats(), s, SkillModifier(), (StatusEffects(), StatusEffects(guaranteed_crit=ForcedCritOrDH.FORCE_YES)))[1], 1)
'''),
    dict(id="trait-and-effects-truncated-together", property="C17",
         needs="a trait multiplier and an effect multiplier whose separate truncations lose a point",
         breaks="ranges and samples are truncated once after trait and effects instead of after each",
         edits=[(DT, """        total_damage = np.floor(np.multiply(total_damage, self.trait_damage_mult))
        total_damage = np.floor(np.multiply(total_damage, damage_mult))
""", """        total_damage = np.floor(
            np.multiply(total_damage, np.multiply(self.trait_damage_mult, damage_mult))
        )
""")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
import numpy as np
st = stats(job="BLM")
e = (StatusEffects(damage_mult=1.37), StatusEffects())
bad = 0
for p in range(100, 130):
    r = DamageSimulator(st, [(0, Skill(name="A", damage_spec=DamageSpec(potency=p)), SkillModifier(), e, 1, "T")], 1).get_damage_ranges()[0]
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils as U
    b = U.get_base_damage(Skill(name="A", damage_spec=DamageSpec(potency=p)), SkillModifier(), st, e)
    want = np.floor(np.floor(np.floor(0.95 * b) * 1.3 + 1e-9) * 1.37 + 1e-9)
    bad += int(float(np.ravel(r[1][1])[0]) != want)
expect(bad, 0)
'''),
    dict(id="skills-cached-per-version", property="C20",
         needs="libraries of one version at two levels built in one process",
         breaks="the actions of a job are remembered per version, so a second level gets the first level's actions",
         edits=[(GJ, """    def get_skills(self):
        res = []
        for skill_method""", """    _built = {}

    def get_skills(self):
        key = (type(self), self._version)
        if key not in GenericJobClass._built:
            GenericJobClass._built[key] = self._build_skills()
        return list(GenericJobClass._built[key])

    def _build_skills(self):
        res = []
        for skill_method""")],
         demo='''a = create_skill_library(version="7.05", level=100)
b = create_skill_library(version="7.05", level=90)
x = b.get_skill("Fire IV", "BLM").damage_spec
c = create_skill_library(version="7.05", level=100)
import subprocess
fresh = "from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library as c; print(sorted(s for s in __import__('re').findall('x', 'x')))"
names = lambda lib: {n: lib.has_skill(n, "BLM") for n in ("Flare Star", "High Thunder", "Thunder III")}
expect(names(b) == names(a), False)
'''),
    dict(id="variance-from-range-width-squared-mean", property="C21",
         needs="instances with a wide damage range",
         breaks="the variance within each range uses the full probability-weighted width instead of the width of each range",
         edits=[(DS, "        unexplained_variances = np.sum(all_probs * np.power(all_diffs, 2), axis=1)/12",
                 "        unexplained_variances = np.power(np.sum(all_probs * all_diffs, axis=1), 2)/12")],
         demo='''import numpy as np
st = stats()
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
sim = DamageSimulator(st, [(0, Skill(name="A", damage_spec=DamageSpec(potency=700)), SkillModifier(), (StatusEffects(), StatusEffects()), 1, "T")], 1)
r = [[float(np.ravel(v)[0]) for v in x[1:]] for x in sim.get_damage_ranges()[0][1:]]
mean = sum(p * (a + b) / 2 for a, b, p in r)
var = sum(p * ((b - a) ** 2 / 12 + ((a + b) / 2) ** 2) for a, b, p in r) - mean ** 2
expect(abs(sim.get_damage_variance() - var) < 1e-6 * var, True)
'''),
    dict(id="csv-time-in-hundredths", property="C22",
         needs="a row whose time has millisecond precision",
         breaks="times read from files are rounded to hundredths of a second",
         edits=[(CSV, '            t = df["time"][i]\n', '            t = round(df["time"][i], 2)\n')],
         demo='''import os, tempfile
from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "r.csv")
    open(p, "w").write("Time,skill_name,job_class,skill_conditional\\n0,A,,\\n1.234,A,,\\n")
    lib = library(hit("A"))
    rb = RotationBuilder(stats(), lib, fight_start_time=0)
    CSVUtils.populate_rotation_from_csv(rb, p)
    rb.get_skill_timing()
    expect([x[0] for x in rb.get_button_press_timing()], [0, 1234])
'''),
    dict(id="last-follow-up-decides-party", property="C26",
         needs="follow-ups by condition, of which an earlier one affects the party and a later one does not",
         breaks="a later follow-up without party effect hides an earlier party effect",
         edits=[(SKILL, """                                if v is not None and v.is_party_effect:
                                    res = True
                                    break
                        elif sp is not None and sp.is_party_effect:
                            res = True
                            break
""", """                                if v is not None and v.is_party_effect:
                                    res = True
                                    break
                        elif sp is not None:
                            res = sp.is_party_effect
""")],
         demo='''f = lambda n, p: FollowUp(skill=Skill(name=n, debuff_spec=StatusEffectSpec(duration=1000, is_party_effect=p)), delay_after_parent_application=0)
expect(Skill(name="A", follow_up_skills={"": (f("x", True),), "C": (f("y", False),)}).has_party_debuff, True)
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
