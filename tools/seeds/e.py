import os
_ns = {}
exec(open("/verif/tools/seeds/c.py" if not os.path.exists(os.path.join(os.getcwd(), "tools/seeds/c.py")) else "tools/seeds/c.py").read().split("\nSEEDS = [")[0], _ns)
PRELUDE = _ns["PRELUDE"]
globals().update({k: _ns[k] for k in "SE CT JR CH DT CDU SF UT DS DB SKILL KT CSV GJ TRK RB SAE LIB".split()})

DOT = '''dot = Skill(name="D (dot)", is_GCD=False, damage_spec=DamageSpec(potency=50, damage_class=DamageClass.PHYSICAL_DOT))
'''

SEEDS = [
    dict(id="coinciding-dots-both-tick", property="C06",
         needs="two applications of one dot on one target at exactly the same moment",
         breaks="both instances tick, for the whole duration",
         edits=[(RB, """            if i == len(base_dot_times) - 1:
                possible_end_time = math.inf
            else:
                # We make the current dot end here and don't merge in, because the new
                # dot may snapshot a different set of buffs/debuffs.
                possible_end_time = base_dot_times[i + 1][0]
""", """            # We make the current dot end at the next application and don't merge in, because
            # the new dot may snapshot a different set of buffs/debuffs.
            later_starts = [x[0] for x in base_dot_times if x[0] > curr_start_time]
            possible_end_time = min(later_starts, default=math.inf)
""")],
         demo=DOT + '''fu = FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=9000, snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=True)
slow = Skill(name="A", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, application_delay=1000), damage_spec=DamageSpec(potency=10), follow_up_skills={"": (fu,), "Fast": (fu,)})
lib = library(slow)
st = stats()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "A")
rb.add(1, "A", skill_modifier=SkillModifier(ignore_application_delay=True))
expect([x[0] for x in instances(rb, st, lib) if "dot" in x[1].name], [1000, 4000, 7000])
'''),
    dict(id="ticks-share-their-snapshot", property="C05",
         needs="a dot that snapshots with its parent while a buff with few charges left is held",
         breaks="the ticks carry the buff together for a single charge",
         edits=[(RB, """                    for application_time in range(
                        dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                    ):
""", """                    snapshot_status = [
                        follow_up_dot_skill.snapshot_buffs_with_parent,
                        follow_up_dot_skill.snapshot_debuffs_with_parent,
                    ]
                    for application_time in range(
                        dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                    ):
"""), (RB, """                        ) + (priority_modifier + dot_num)
                        snapshot_status = [
                            follow_up_dot_skill.snapshot_buffs_with_parent,
                            follow_up_dot_skill.snapshot_debuffs_with_parent,
                        ]
""", """                        ) + (priority_modifier + dot_num)
""")],
         demo=DOT + '''fu = FollowUp(skill=dot, delay_after_parent_application=0, dot_duration=9000, snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=True)
buff = Skill(name="B", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0), buff_spec=StatusEffectSpec(duration=30000, damage_mult=1.5, num_uses=3, max_num_uses=3))
lib = library(hit("A", gcd=False, follow_up_skills=(fu,)), buff)
st = stats()
rb = RotationBuilder(st, lib, fight_start_time=0)
rb.add(0, "B")
rb.add(1, "A")
expect([x[3][0].damage_mult for x in instances(rb, st, lib) if "dot" in x[1].name], [1.5, 1.5, 1.0])
'''),
    dict(id="debuffs-lost-in-downtime", property="C08",
         needs="an action without damage that debuffs a target during its downtime",
         breaks="the action is dropped although it deals no damage",
         edits=[(RB, """                skill_damage_spec = skill.get_damage_spec(skill_modifier)
                if skill_damage_spec is not None and (
                    self.__filter_by_downtime_range_and_damage_class(
                        application_time, target, skill_damage_spec.damage_class
                    )
                    or self.__filter_by_downtime_range_and_damage_class(
                        snapshot_time, target, skill_damage_spec.damage_class
                    )
                ):
""", """                skill_damage_spec = skill.get_damage_spec(skill_modifier)
                damage_class = getattr(skill_damage_spec, "damage_class", None)
                hits_target = (
                    skill_damage_spec is not None
                    or skill.get_debuff_spec(skill_modifier) is not None
                )
                if hits_target and (
                    self.__filter_by_downtime_range_and_damage_class(
                        application_time, target, damage_class
                    )
                    or self.__filter_by_downtime_range_and_damage_class(
                        snapshot_time, target, damage_class
                    )
                ):
""")],
         demo='''weak = Skill(name="W", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0), debuff_spec=StatusEffectSpec(duration=30000, damage_mult=1.5))
lib = library(hit("A", gcd=False), weak)
st = stats()
rb = RotationBuilder(st, lib, fight_start_time=0, downtime_windows=((1, 3),))
rb.add(2, "W")
rb.add(4, "A")
expect([x[3][1].damage_mult for x in instances(rb, st, lib)], [1.5])
'''),
]
