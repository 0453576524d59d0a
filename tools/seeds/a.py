PRELUDE = '''import sys
from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
from ama_xiv_combat_sim.simulator.skills.skill import Skill
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
from ama_xiv_combat_sim.simulator.stats import Stats
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder


def stats(job="SAM", speed=420, delay=2.64, version="7.05", level=100):
    return Stats(wd=140, weapon_delay=delay, main_stat=3000, det_stat=1500, crit_stat=2000, dh_stat=1200,
                 speed_stat=speed, job_class=job, version=version, level=level)


def library(*skills, job="SAM"):
    lib = SkillLibrary("7.05", 100)
    lib.set_current_job_class(job)
    for s in skills:
        lib.add_skill(s)
    return lib


def hit(name, cast=0, lock=650, delay=0, gcd=True, **kw):
    return Skill(name=name, is_GCD=gcd, damage_spec=kw.pop("damage", DamageSpec(potency=100)),
                 timing_spec=TimingSpec(base_cast_time=cast, animation_lock=lock, application_delay=delay), **kw)


def instances(rb, st, lib):
    return DamageBuilder(st, lib).get_damage_instances(rb.get_skill_timing())


def expect(got, want):
    if got != want:
        print("got", got, "expected", want)
        sys.exit(1)


'''
RB = "ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py"
DB = "ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py"
SE = "ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py"
SAE = "ama_xiv_combat_sim/simulator/timeline_builders/snapshot_and_application_events.py"
SKILL = "ama_xiv_combat_sim/simulator/skills/skill.py"

SEEDS = [
    dict(id="recast-floor-before-flat", property="C01",
         needs="a flat recast reduction active on a standard recast that is already close to the 1.5 s minimum",
         breaks="the minimum recast is enforced before the flat reduction, so recasts fall below 1.5 s",
         edits=[(RB, """                recast_time -= curr_buffs.flat_gcd_recast_time_reduction
                # default""", """                # default"""),
                (RB, """                    recast_time = max(recast_time, GameConsts.MIN_GCD_RECAST_TIME)

                next_gcd_time""", """                    recast_time = max(recast_time, GameConsts.MIN_GCD_RECAST_TIME)
                recast_time -= curr_buffs.flat_gcd_recast_time_reduction

                next_gcd_time""")],
         demo='''st = stats()
lib = library(hit("A"), Skill(name="B", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0),
    buff_spec=StatusEffectSpec(duration=30000, flat_gcd_recast_time_reduction=1200)))
rb = RotationBuilder(st, lib)
for x in ("B", "A", "A"):
    rb.add_next(x)
rb.get_skill_timing()
expect([x[0] for x in rb.get_button_press_timing()], [0, 0, 1500])
'''),
    dict(id="short-cast-full-delay", property="C02",
         needs="an action whose cast has been shortened to at most 0.5 s without becoming instant",
         breaks="the application delay of an action with a cast of at most 0.5 s is not shortened",
         edits=[(RB, "            if cast_time > 1e-6:", "            if snapshot_time > t:")],
         demo='''st = stats()
lib = library(hit("A", cast=2000, delay=900), Skill(name="Swift", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0),
    buff_spec=StatusEffectSpec(duration=10000, flat_cast_time_reduction=1600)))
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "Swift"); rb.add(1, "A")
expect([x[0] for x in instances(rb, st, lib)], [1800])
'''),
    dict(id="dot-refresh-in-press-order", property="C06",
         needs="a dot re-applied by a press whose application overtakes an earlier-entered one (timed press after sequence presses, or presses with long delays)",
         breaks="applications of a dot are not put in time order, so two instances of one dot overlap",
         edits=[(RB, "        return sorted(app_times, key=lambda x: x[0])", "        return sorted(app_times, key=lambda x: x[2])")],
         demo='''st = stats()
def dot(d):
    return FollowUp(skill=Skill(name="Dot", is_GCD=False, damage_spec=DamageSpec(potency=50, damage_class=DamageClass.PHYSICAL_DOT)),
                    delay_after_parent_application=0, dot_duration=9000)
f = dot(0)
lib = library(hit("Slow", delay=4000, follow_up_skills=(f,)), hit("Fast", delay=0, follow_up_skills=(f,)))
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "Slow"); rb.add(2, "Fast")
q = rb.get_skill_timing().get_q()
got = sorted(e.event_times.primary if e.event_times.secondary is None else e.event_times.secondary for e in q if e.skill.name == "Dot")
expect(got, [2000, 4000, 7000, 10000])
'''),
    dict(id="auto-target-strictly-earlier", property="C07",
         needs="a press on a new target at exactly the time an auto-attack is issued",
         breaks="the auto-attack hits the previous target instead of the one pressed at the same moment",
         edits=[(RB, "                and timestamps_and_main_target[auto_target_ind][0] <= snapshot_time",
                 "                and timestamps_and_main_target[auto_target_ind][0] < snapshot_time")],
         demo='''st = stats(delay=2.5)
lib = library(hit("A"), Skill(name="Auto", is_GCD=False, damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO),
    timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=100)))
rb = RotationBuilder(st, lib, enable_autos=True, fight_start_time=0)
rb.add(0, "A", targets="X"); rb.add(2.5, "A", targets="Y"); rb.add(4, "A", targets="Y")
q = rb.get_skill_timing().get_q()
expect(sorted((e.event_times.primary, e.targets[0]) for e in q if e.skill.name == "Auto"), [(0, "X"), (2500, "Y")])
'''),
    dict(id="downtime-ignores-snapshot", property="C08",
         needs="an action on several targets that snapshots inside a window of its second target and applies after it",
         breaks="the snapshot is only checked against the window of the first target",
         edits=[(RB, """                    or self.__filter_by_downtime_range_and_damage_class(
                        snapshot_time, target, skill_damage_spec.damage_class
                    )""", """                    or self.__filter_by_downtime_range_and_damage_class(
                        snapshot_time, targets[0], skill_damage_spec.damage_class
                    )""")],
         demo='''st = stats()
lib = library(hit("A", delay=1000))
rb = RotationBuilder(st, lib, fight_start_time=0, downtime_windows={"Y": ((0.9, 1.5),)})
rb.add(1, "A", targets="X, Y")
q = rb.get_skill_timing().get_q()
expect([tuple(e.targets) for e in q], [("X",)])
'''),
    dict(id="no-shift-for-early-damage", property="C09",
         needs="a timed rotation whose first damage lies before time 0 (pre-pull presses at negative times)",
         breaks="a timeline whose first damage is before zero is left unshifted",
         edits=[(RB, """        if first_damage_time is None:
            return self._q_snapshot_and_applications

        for i""", """        if first_damage_time is None or first_damage_time <= 0:
            return self._q_snapshot_and_applications

        for i""")],
         demo='''st = stats()
lib = library(hit("A", delay=500))
rb = RotationBuilder(st, lib)
rb.add(-3, "A"); rb.add(0, "A")
q = rb.get_skill_timing().get_q()
expect(sorted(e.event_times.secondary for e in q), [0, 3000])
'''),
    dict(id="buffs-with-debuff-snapshot", property="C05",
         needs="a delayed follow-up taking its debuffs but not its buffs from the parent's snapshot, and a buff starting in between",
         breaks="the follow-up also takes its buffs from the parent's snapshot",
         edits=[(DB, """                if snapshot_status[0] is True:
                    snapshot""", """                if True in snapshot_status:
                    snapshot""")],
         demo='''st = stats()
f = FollowUp(skill=hit("F"), delay_after_parent_application=3000, snapshot_buffs_with_parent=False, snapshot_debuffs_with_parent=True)
lib = library(hit("A", follow_up_skills=(f,)), Skill(name="B", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0),
    buff_spec=StatusEffectSpec(duration=30000, damage_mult=1.1)))
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(1, "B")
got = [(x[1].name, x[3][0].status_effects) for x in instances(rb, st, lib)]
expect(got, [("A", ()), ("F", ("B",))])
'''),
    dict(id="death-clears-after", property="C23",
         needs="a death at the same time as, but evaluated after, a buff... a follow-up effect applied after the death",
         breaks="an effect that clears everything only clears effects that started before it by name order",
         edits=[(SE, """            if buff_spec.clear_all_status_effects:
                self.buffs = {}
            self""", """            if buff_spec.clear_all_status_effects:
                self.buffs = {k: v for k, v in self.buffs.items() if v[3].max_num_uses < v[2]}
                self.debuffs = {}
            self""")],
         demo='''st = stats()
lib = library(hit("A"), Skill(name="D", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0),
    debuff_spec=StatusEffectSpec(duration=30000, damage_mult=1.1)),
    Skill(name="Dead", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0),
    buff_spec=StatusEffectSpec(clear_all_status_effects=True)))
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "D", targets="Y"); rb.add(1, "Dead"); rb.add(2, "A", targets="Y")
got = [x[3][1].status_effects for x in instances(rb, st, lib)]
expect(got, [("D",)])
'''),
    dict(id="stagger-from-application-order", property="C24",
         needs="a follow-up that takes nothing from its parent's snapshot and hits three or more targets",
         breaks="the stagger of multi-target hits stops growing after the second target",
         edits=[(DB, """                            event_times.secondary
                            + i * GameConsts.MULTI_TARGET_DELAY_PER_TARGET""", """                            event_times.secondary
                            + min(i, 2) * GameConsts.MULTI_TARGET_DELAY_PER_TARGET""")],
         demo='''st = stats()
lib = library(hit("A", delay=500))
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A", targets="W, X, Y, Z")
expect([x[0] for x in instances(rb, st, lib)], [500, 635, 770, 905])
'''),
    dict(id="same-event-dropped", property="C14",
         needs="the same action applying twice at exactly the same time on the same target (two presses whose applications coincide)",
         breaks="two coinciding applications of one action on one target yield a single instance",
         edits=[(DB, """        q.sort(key=lambda x: x[0])
        return q""", """        q.sort(key=lambda x: x[0])
        q = [x for i, x in enumerate(q) if i == 0 or (x[0], x[1].name, x[5]) != (q[i-1][0], q[i-1][1].name, q[i-1][5])]
        return q""")],
         demo='''st = stats()
lib = library(hit("A", delay=1000))
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A"); rb.add(1, "A", skill_modifier=SkillModifier(ignore_application_delay=True))
expect([x[0] for x in instances(rb, st, lib)], [1000, 1000])
'''),
]
