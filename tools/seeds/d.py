import os
_ns = {}
exec(open("/verif/tools/seeds/c.py" if not os.path.exists(os.path.join(os.getcwd(), "tools/seeds/c.py")) else "tools/seeds/c.py").read().split("\nSEEDS = [")[0], _ns)
PRELUDE = _ns["PRELUDE"]
globals().update({k: _ns[k] for k in "SE CT JR CH DT CDU SF UT DS DB SKILL KT CSV GJ TRK RB SAE LIB".split()})
RA = "ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py"

SEEDS = [
    dict(id="exhausted-channel-ends-at-press", property="C12",
         needs="a channel whose allowed actions are used up by one pressed after its duration has passed",
         breaks="the window is reported up to the next press",
         edits=[(CH, """        else:
            if self.__is_channeling():
                if skill.name in self.__curr_channeling_spec.skill_allowlist:
                    self.__curr_num_uses -= 1
                    if self.__curr_num_uses > 0:
                        # if you're channeling, the only way to get here  is to be in the skill_allowlist AND not exhaust all counts
                        return

                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
""", """        else:
            if self.__is_channeling():
                if skill.name in self.__curr_channeling_spec.skill_allowlist:
                    self.__curr_num_uses -= 1
                    if self.__curr_num_uses > 0:
                        # if you're channeling, the only way to get here  is to be in the skill_allowlist AND not exhaust all counts
                        return
                    self.__end_channeling(t)
                    return

                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
""")],
         demo='''from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
c = ChannelingTracker()
c.process_channeling(0, Skill(name="C", channeling_spec=ChannelingSpec(duration=5000, skill_allowlist=("A",), num_uses=1)), SkillModifier())
c.process_channeling(9000, Skill(name="A"), SkillModifier())
c.finalize()
expect(c.get_channeling_windows(), ((0, 5000),))
'''),
    dict(id="rate-bonus-of-debuffs-lost", property="C16",
         needs="a guaranteed critical hit on a target with a critical-rate debuff, and no such buff",
         breaks="the unusable rate bonus of debuffs is not turned into damage",
         edits=[(CDU, """        bonus_crit_rate_add = (
            status_effects[0].crit_rate_add + status_effects[1].crit_rate_add
        )""", """        bonus_crit_rate_add = status_effects[0].crit_rate_add
        if bonus_crit_rate_add:
            bonus_crit_rate_add += status_effects[1].crit_rate_add""")],
         demo='''from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
b = ComputeDamageUtils.get_guaranteed_crit_bonus_dmg_multiplier(stats(), (StatusEffects(), StatusEffects(crit_rate_add=0.1)))
expect(b > 0, True)
'''),
    dict(id="early-changes-not-shifted", property="C09",
         needs="a first press whose damage comes later than that of a later press, and a fight start that is not given",
         breaks="button presses shift by another amount than the events",
         edits=[(RB, """        for i in range(0, len(self.__q_button_press_timing)):
            self.__q_button_press_timing[i][0] -= first_damage_time
""", """        for press in self.__q_button_press_timing:
            press[0] = max(press[0] - first_damage_time, -first_damage_time)
""")],
         demo='''lib = library(hit("A", gcd=False))
st = stats()
rb = RotationBuilder(st, lib)
rb.add(-3, "A")
rb.add(2, "A")
rb.get_skill_timing()
p = [x[0] for x in rb.get_button_press_timing()]
expect(p[1] - p[0], 5000)
'''),
    dict(id="interval-report-drops-last", property="C21",
         needs="instances that are not listed in snapshot order",
         breaks="totals up to a timestamp stop at the first later snapshot",
         edits=[(RA, """            if sk.snapshot_time <= timestamp:
                res += sk.expected_damage
""", """            if sk.snapshot_time > timestamp:
                break
            res += sk.expected_damage
""")],
         demo='''from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils
from collections import namedtuple
P = namedtuple("P", "snapshot_time expected_damage")
ps = [P(0, 1), P(5000, 10), P(1000, 100)]
expect(RotationAnalysisUtils.get_all_damage_snapshots_before_timestamp(ps, 2), 101)
'''),
    dict(id="guaranteed-by-target-counts-twice", property="C16",
         needs="a critical-rate buff and a forced non-critical outcome from a debuff of the target",
         breaks="a forbidding debuff only wins when there is no rate bonus",
         edits=[(CDU, """        elif forced_no_crit:
            crit_rate = 0
""", """        elif forced_no_crit and not status_effects[0].crit_rate_add:
            crit_rate = 0
""")],
         demo='''from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
r = ComputeDamageUtils.compute_crit_rates_and_bonuses(stats(), hit("A"), SkillModifier(),
    (StatusEffects(crit_rate_add=0.2), StatusEffects(guaranteed_crit=ForcedCritOrDH.FORCE_NO)))
expect(r[1], 0)
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
