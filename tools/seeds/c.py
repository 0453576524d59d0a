import os
_ns = {}
exec(open("/verif/tools/seeds/b.py" if not os.path.exists(os.path.join(os.getcwd(), "tools/seeds/b.py")) else "tools/seeds/b.py").read().split("\nSEEDS = [")[0], _ns)
PRELUDE = _ns["PRELUDE"]
globals().update({k: _ns[k] for k in "SE CT JR CH DT CDU SF UT DS DB SKILL KT CSV GJ TRK".split()})
A = "ama_xiv_combat_sim/simulator/timeline_builders/"
RB, SAE = A + "rotation_builder.py", A + "snapshot_and_application_events.py"
LIB = "ama_xiv_combat_sim/simulator/skills/skill_library.py"

SEEDS = [
    dict(id="kill-needs-more-than-hp", property="C18",
         needs="cumulative damage that meets the boss's HP exactly",
         breaks="the kill is reported at the next instance, or not at all",
         edits=[(KT, "np.nonzero(cumsum_damage[:,i]>=self.__boss_hp)[0][0] if len(np.nonzero(cumsum_damage[:,i]>=self.__boss_hp)[0] > 0)",
                 "np.nonzero(cumsum_damage[:,i]>self.__boss_hp)[0][0] if len(np.nonzero(cumsum_damage[:,i]>self.__boss_hp)[0] > 0)")],
         demo='''from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
lib = library(hit("LB 3", gcd=False))
st = stats()
rb = RotationBuilder(st, lib, fight_start_time=0)
for t in (1, 2, 3):
    rb.add(t, "LB 3", skill_modifier=SkillModifier(with_condition="Exact Damage: 1000"))
k = KillTimeEstimator(2000)
k.add_rotation(rb)
expect(list(k.estimate_kill_time(num_samples=3, verbose=False)[0]), [2.0, 2.0, 2.0])
'''),
    dict(id="simulator-sorts-the-given-list", property="C19",
         needs="a simulation of instances that are not in time order, the list being used again afterwards",
         breaks="the caller's list of instances is reordered",
         edits=[(DS, "self.__dmg_instances = copy.deepcopy(dmg_instances)", "self.__dmg_instances = dmg_instances")],
         demo='''lib = library(hit("A", gcd=False), hit("B", gcd=False))
st = stats()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(1, "A")
rb.add(2, "B")
ins = list(reversed(instances(rb, st, lib)))
DamageSimulator(st, ins, 2)
expect([x[1].name for x in ins], ["B", "A"])
'''),
    dict(id="downtime-class-of-first-variant", property="C08",
         needs="a downtime window for one damage class and an action whose class depends on a condition",
         breaks="the window is matched against the class of the action's unconditioned variant",
         edits=[(RB, """                skill_damage_spec = skill.get_damage_spec(skill_modifier)
                if skill_damage_spec is not None and (""", """                skill_damage_spec = skill.get_damage_spec(skill_modifier)
                if skill_damage_spec is not None:
                    skill_damage_spec = skill.get_damage_spec(SkillModifier()) or skill_damage_spec
                if skill_damage_spec is not None and (""")],
         demo='''lib = library(hit("A", gcd=False, damage={"": DamageSpec(potency=100), "Pet": DamageSpec(potency=100, damage_class=DamageClass.PET)}))
st = stats()
rb = RotationBuilder(st, lib, fight_start_time=0, downtime_windows=((0, 10, DamageClass.PET),))
rb.add(1, "A", skill_modifier=SkillModifier(with_condition="Pet"))
rb.add(2, "A")
expect([x[0] for x in instances(rb, st, lib)], [2000])
'''),
    dict(id="tick-at-the-last-event-dropped", property="C06",
         needs="trailing dots ignored and a tick exactly at the last event",
         breaks="the tick at the last event is lost",
         edits=[(RB, "application_time > last_event_time\n", "application_time >= last_event_time\n")],
         demo='''dot = Skill(name="D (dot)", is_GCD=False, damage_spec=DamageSpec(potency=50, damage_class=DamageClass.PHYSICAL_DOT))
fu = FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=30000, snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=True)
lib = library(hit("A", gcd=False, follow_up_skills=(fu,)), hit("B", gcd=False))
st = stats()
rb = RotationBuilder(st, lib, fight_start_time=0, ignore_trailing_dots=True)
rb.add(0, "A")
rb.add(6, "B")
expect([x[0] for x in instances(rb, st, lib) if "dot" in x[1].name], [0, 3000, 6000])
'''),
    dict(id="clear-keeps-charged-buffs", property="C23",
         needs="a death while a buff with a limited number of uses is held",
         breaks="buffs with charges survive the death",
         edits=[(SE, """            if buff_spec.clear_all_status_effects:
                self.buffs = {}""", """            if buff_spec.clear_all_status_effects:
                self.buffs = {k: v for k, v in self.buffs.items() if v[2] < float("inf")}""")],
         demo=TRK + '''se = StatusEffectTracker()
se.add_to_status_effects(0, grant("C", buff=StatusEffectSpec(duration=30000, num_uses=3, max_num_uses=3, damage_mult=1.5)), SkillModifier())
se.add_to_status_effects(0, grant("D", buff=StatusEffectSpec(duration=30000, damage_mult=1.2)), SkillModifier())
se.add_to_status_effects(5, grant("Clear", buff=StatusEffectSpec(duration=0, clear_all_status_effects=True)), SkillModifier())
se.expire_status_effects(10)
expect(se.compile_buffs(10)[0].damage_mult, 1)
'''),
    dict(id="any-combo-group-suffices", property="C10",
         needs="an action in two combo groups of which only the later one succeeds",
         breaks="the combo counts as successful",
         edits=[(CT, "combo_succeeded = combo_succeeded and curr_combo_succeeded",
                 "combo_succeeded = curr_combo_succeeded")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker
c = ComboTracker({})
a = Skill(name="A", is_GCD=True, combo_spec=(ComboSpec(combo_group=1),))
b = Skill(name="B", is_GCD=True, combo_spec=(ComboSpec(combo_group=2, combo_actions=("Z",)), ComboSpec(combo_group=1, combo_actions=("A",))))
c.compile_and_update_combo(0, a, SkillModifier())
r = c.compile_and_update_combo(1000, b, SkillModifier())
from ama_xiv_combat_sim.simulator.sim_consts import SimConsts
expect(r, SimConsts.COMBO_FAIL)
'''),
    dict(id="spend-refreshes-expiry", property="C11",
         needs="a resource that expires after its last refreshing change, spent in between",
         breaks="changes that do not refresh the duration postpone the expiry",
         edits=[(JR, """                if resource_spec.refreshes_duration_of_last_gained:
                    last_refresh_time = start_time""", """                if resource_spec.refreshes_duration_of_last_gained or total_resource > 1:
                    last_refresh_time = start_time""")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
j = JobResourceTracker({"R": JobResourceSettings(max_value=5, skill_allowlist=("U",), expiry_from_last_gain=10000)})
g = Skill(name="G", job_resource_spec=(JobResourceSpec(name="R", change=3),))
s = Skill(name="S", job_resource_spec=(JobResourceSpec(name="R", change=-1, refreshes_duration_of_last_gained=False),))
j.add_resource(0, g, SkillModifier())
j.add_resource(6000, s, SkillModifier())
expect(j.compile_job_resources(11000, Skill(name="U")), "")
'''),
    dict(id="channel-uses-carried-over", property="C12",
         needs="a second channel that allows fewer actions, started while the first one runs",
         breaks="the second channel allows as many actions as were left of the first",
         edits=[(CH, "        self.__curr_num_uses = channeling_spec.num_uses\n",
                 "        self.__curr_num_uses = min(self.__last_num_uses, channeling_spec.num_uses) if self.__last_num_uses > 1 else channeling_spec.num_uses\n"),
                (CH, """        self.__start_channeling_time = None
        self.__curr_channeling_spec = None
        self.__curr_num_uses = math.inf

    def""", """        self.__start_channeling_time = None
        self.__curr_channeling_spec = None
        self.__last_num_uses = self.__curr_num_uses
        self.__curr_num_uses = math.inf

    def""")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
c = ChannelingTracker()
ch = lambda n, k: Skill(name=n, channeling_spec=ChannelingSpec(duration=20000, num_uses=k, skill_allowlist=("U",)))
u = Skill(name="U")
c.process_channeling(0, ch("P", 3), SkillModifier())
c.process_channeling(1000, u, SkillModifier())
c.process_channeling(2000, ch("Q", 4), SkillModifier())
for t in (3000, 4000, 5000, 6000):
    c.process_channeling(t, u, SkillModifier())
c.finalize()
expect(c.get_channeling_windows(), ((0, 2000), (2000, 6000)))
'''),
    dict(id="csv-targets-of-previous-row", property="C22",
         needs="a file with a blank target after a row that names one",
         breaks="a blank target repeats the target of the row before",
         edits=[(CSV, """            targets = (
                None
                if "targets" not in df or df["targets"][i] == ""
                else df["targets"][i]
            )""", """            if "targets" not in df:
                targets = None
            elif df["targets"][i] != "":
                targets = df["targets"][i]
            elif i == 0:
                targets = None""")],
         demo='''import os, tempfile
from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "r.csv")
    open(p, "w").write("Time,skill_name,job_class,skill_conditional,targets\\n0,A,,,X\\n1,B,,,\\n")
    expect([r.targets for r in CSVUtils.read_rotation_from_csv(p)], ["X", None])
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
