import json
S="ama_xiv_combat_sim/simulator/"
RB=S+"timeline_builders/rotation_builder.py"; DB=S+"timeline_builders/damage_builder.py"; EV=S+"timeline_builders/snapshot_and_application_events.py"
SE=S+"trackers/status_effect_tracker.py"; CT=S+"trackers/combo_tracker.py"; JR=S+"trackers/job_resource_tracker.py"; CH=S+"trackers/channeling_tracker.py"; DT=S+"trackers/damage_tracker.py"
UT=S+"utils.py"; SK=S+"skills/skill.py"; SF=S+"calcs/stat_fns.py"; CD=S+"calcs/compute_damage_utils.py"; DS=S+"damage_simulator.py"; LIB=S+"skills/skill_library.py"
KT="ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py"; RA="ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py"; CSV=S+"rotation_import_utils/csv_utils.py"; EX="ama_xiv_combat_sim/example_rotations/example_rotation_utils.py"
GC=S+"game_data/game_consts.py"; JF=S+"game_data/job_class_fns.py"; GS=S+"game_data/specific_skills.py"
P=[]
def p(id,title,st,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
IH=["inputs","histories"]; IC=["inputs","configurations"]; IHC=["inputs","histories","configurations"]
p("C01","Sequenced presses happen at the earliest legal moment",
"In a rotation given as a sequence, every action is pressed at the earliest moment at which the previous action's cast and animation lock have ended and, for a weaponskill/spell, the recast started by the previous weaponskill/spell has elapsed. Cast and recast durations follow the pressed action's resolved timing, the character's speed, the haste effects active at the press and the job's haste trait, and a standard 2.5 s recast never falls below 1.5 s. Ability (off-global) presses never wait for, start or shorten the global recast.",
IH,"all press sequences, timings, speed stats and haste effects","The tests replay a few fixed openers; the guarantee is about every sequence mixing casts, weaves, haste windows and recast lengths.",
[RB,SF],[("sequence scheduling","RotationBuilder.__process_q_sequence"),("cast time","RotationBuilder.__get_cast_time"),("speed scaling","StatFns.get_time_using_speed_stat")],[("next possible press / next global press","two clocks advanced by every press")])
p("C02","Every action snapshots and applies at the right moments",
"A pressed action snapshots 0.5 s before its cast ends (immediately if it has no or a shorter cast) and applies after its cast plus the application delay, the delay being shortened by those 0.5 s for actions with a cast. Each non-ticking follow-up applies its stated delay after its parent's application, snapshots with the parent whenever it takes buffs or debuffs from the parent's snapshot and at its own application otherwise, and hits either only the primary target or all targets as declared; follow-ups that apply together take effect in their declared order. Actions given with an explicit time are pressed exactly at that time, in time order.",
IH,"all timed and sequenced presses, cast times, delays, follow-up lists","Tests check some actions' events; the relation must hold for any cast/delay/follow-up combination and any press modifiers.",
[RB,EV],[("press to events","RotationBuilder.__process_skill"),("follow-ups","RotationBuilder._process_follow_up_skills"),("event queue","SnapshotAndApplicationEvents.add")])
p("C03","Status effects last exactly as long as they should",
"An effect is active from its application until its duration has passed (both ends inclusive) or its charges are used up, whichever is first, and one charge is consumed each time it is taken into account for an action. Re-applying an active effect keeps its start, adds the new duration to the remaining time up to the maximum duration and adds charges up to the maximum (leaving the end untouched if the effect does not extend), and an extend-only effect does nothing unless already active. An action that ends named effects ends exactly those, from that moment on, and one that clears everything removes every buff held.",
IH,"all histories of applications, uses, expiries, clears and queries","Tests look at a dozen hand-made histories; lifetimes depend on arbitrary interleavings of re-application, consumption and expiry.",
[SE,S+"specs/status_effect_spec.py"],[("add/extend","StatusEffectTracker.__add_to_status_effects"),("expire","StatusEffectTracker.expire_status_effects"),("named expiry","StatusEffectTracker.__expire_named_effect"),("use","StatusEffectTracker.__compile_status_effects")],[("buffs, debuffs per target","effect name -> start, end, uses left, spec")])
p("C04","Active effects reach exactly the actions they are meant for",
"For any action at any moment, the buffs taken into account are exactly the active ones that the action does not exclude, that list the action if they are restricted to a list, and that are not suppressed by a higher-priority effect of the same job; debuffs likewise but only those on the queried target. Rate and flat bonuses add up, damage, main-stat, haste and auto-delay factors multiply, each accepted effect counting once, and effects flagged as conditions are reported as conditions of the action.",
IH,"all sets of active effects, targets, priority lists, allow and deny lists","Only a few combinations are sampled; the selection rule is a function of four independent lists and per-target state.",
[SE,S+"trackers/status_effects.py",LIB],[("selection","StatusEffectTracker.__get_valid_status_effects"),("priority","StatusEffectTracker.__delete_lower_priority_status_effects"),("aggregation","StatusEffectTracker.__compile_status_effects")])
p("C05","Damage carries exactly the effects of its snapshot moment",
"Every damage instance carries exactly the buffs of its user and the debuffs of its own target that are active at its snapshot moment; an instance that does not take buffs (or debuffs) from its parent's snapshot carries those active at its own application instead. An effect granted by an action takes hold only after that action's own application, so it never affects the action itself but affects everything that snapshots later. Events are evaluated in time order, so no instance sees an effect that starts after its snapshot.",
IHC,"all event queues mixing direct hits, follow-ups, dots, buffs and debuffs on several targets","The interaction of overlapping travel times, dots and effects is combinatorial; tests fix a few.",
[DB,SE],[("event evaluation","DamageBuilder.get_damage_instances")],[("event queue","pending snapshot/application events ordered by priority")])
p("C06","Damage over time ticks every 3 s for its duration and refreshes cleanly",
"A damage-over-time effect ticks, on each target of the action, at its application and every 3 s after it, strictly before application plus duration; re-applying the same effect on the same target ends the old instance at the new application, so ticks of two instances of one effect never overlap. With server-tick alignment every tick lies on the 3 s grid, starting with the first grid point at or after application; with trailing ticks ignored no tick applies after the last other event. Ticks on different targets or of different effects do not influence each other.",
IHC,"all press histories, durations, targets, tick alignments","Tests check few refresh patterns; overlap depends on arbitrary application times and targets.",
[RB],[("dot registry","RotationBuilder.__process_dot_follow_up_skill"),("consolidation","RotationBuilder.__get_consolidated_dot_timing"),("ticks","RotationBuilder.__process_all_dots")])
p("C07","Auto-attacks keep their cadence and pause when they must",
"With auto-attacks enabled, the first auto is issued at the first damage and each next one exactly one delay later, the delay being the weapon delay reduced by the job trait and by the auto-delay effects in force at the previous auto, quantised down to 10 ms, until the last event of the fight. An auto that would fall in a downtime window of the target being attacked, or inside a cast or channel of a timed press, is postponed to its end. Each auto hits the main target of the latest press at or before it.",
IHC,"all timed rotations, speed effects, casts, channels, target switches and downtime","Cadence is cumulative: one wrong delay shifts all later autos; tests only sample short fights.",
[RB,CH],[("auto loop","RotationBuilder.__add_autos"),("delay effects","RotationBuilder.__get_applicable_status_effects"),("pauses","RotationBuilder.get_no_auto_periods")])
p("C08","Downtime removes exactly the damage that falls in it",
"A damage event is dropped for a target exactly when its snapshot or its application lies in a downtime window of that target (start included, end excluded) that covers its damage class, all classes if none is named; other targets of the same event and all events without damage are kept. Windows given without a target apply to every target of the rotation, windows given per target only to that one.",
IHC,"all events, windows, targets and damage classes","Boundary instants, per-class and per-target combinations are unbounded; tests hit a few.",
[RB],[("filter","RotationBuilder.remove_damage_during_downtime"),("windows","RotationBuilder.__init_downtime_windows")])
p("C09","Fight time zero is the first damage, and nothing else moves",
"Unless a fight start is given, the timeline is shifted as a whole so that the earliest application of any damage is at time zero: all presses, snapshots and applications move by the same amount, so all differences are preserved and no event is lost, added or changed. With a given fight start, or without any damage, nothing is shifted.",
IHC,"all rotations with or without precasts, delays and a given fight start","A shift that misses one kind of event or rounds shows only in particular mixes.",
[RB,EV],[("shift","RotationBuilder.shift_timelines_for_first_damage_instance"),("first damage","SnapshotAndApplicationEvents.get_first_damage_time")])
p("C10","Combos succeed and break exactly by the combo rules",
"An action's combo succeeds exactly when it needs no predecessor, is forced or always succeeds, or when the last successful action of its combo group is one of its predecessors and was used at most 30 s before; with several groups all must succeed. A failed or successful combo action replaces its group's memory (nothing or itself), groups it is declared to break are forgotten, and an action that breaks all combos forgets every group. Actions without combo rules neither advance nor break combos.",
IH,"all sequences of combo actions over several groups and any times","Combo state is history-dependent; tests replay a few chains.",
[CT,DB,RB],[("combo step","ComboTracker.compile_and_update_combo")],[("last combo action per group","time and name")])
p("C11","Job resources never leave their bounds and expire on time",
"The amount of a job resource at any moment is obtained by applying all gains and spends up to then in time order, each result kept between zero and its maximum, where a gain counts only during its own duration and the whole amount is lost once the resource's expiry has passed since the last refreshing change. An action sees a resource, as a condition with or without its amount, exactly if it is listed for it and the amount is positive. Clearing resets every resource to zero.",
IH,"all histories of gains, spends, clears and queries","Clamping and expiry make the amount order-dependent; tests use a handful of histories.",
[JR],[("amount","JobResourceTracker.compile_job_resources"),("change","JobResourceTracker.add_resource")],[("resource timeline","list of start, end, change")])
p("C12","Channels end when they should",
"A channel starts at the press of the channelled action and ends at the earliest of its duration, the next channelled action, and the first other action that is not allowed during it or uses up its allowed actions; waiting never ends it. Channel windows are reported once each, in time order, and none starts without a channelled action.",
IH,"all press sequences of channelled, allowed, forbidden and wait actions","Depends on arbitrary sequences; few are tested.",
[CH],[("channel step","ChannelingTracker.process_channeling"),("end","ChannelingTracker.finalize")],[("current channel","start, spec, allowed uses left")])
p("C13","The most specific matching variant of an action is used",
"For every aspect of an action that varies by condition, the variant used is the one with the largest condition set contained in the current conditions, the unconditioned one if no other matches; conditions are compared as sets, independent of spelling order and spaces. When a bonus percentage is supplied for a positional action, the positional and combo outcome is the one whose potency gain truncates to that percentage, zero meaning a missed positional.",
IC,"all condition sets and variant tables of all actions","Variant tables and condition sets multiply; tests look up single ones.",
[UT,SK,S+"skills/skill_modifier.py"],[("variant choice","Utils.get_best_key"),("positional","Utils.get_positional_condition"),("normalisation","Utils.canonicalize_condition")])
p("C14","No damage is lost, invented or misattributed",
"Every event that deals damage under its final conditions yields exactly one damage instance per target, and nothing else does; instances come sorted by time, each carrying the action, target and event number of the event it came from. Event numbers are unique per timeline, and looking an instance's snapshot time up by its event number gives the moment its event snapshots. No combination of simultaneous events makes the computation fail.",
IHC,"all event queues including simultaneous and multi-target events","Requires exact one-to-one accounting on arbitrary queues; tests compare small lists.",
[DB,DS,EV],[("instance creation","DamageBuilder.get_damage_instances"),("snapshot lookup","DamageSimulator.__add_damage_snapshots"),("event ids","SnapshotAndApplicationEvents.add")])
p("C15","Base damage follows the published formula of its damage class",
"For every stat block, potency, damage class and set of effects, the base damage is the game's truncating formula for that class and role (direct, magical and physical damage over time, auto, pet), including party bonus, main-stat effects, tenacity for tanks, speed for dots and autos, determination (with direct hit when guaranteed), weapon damage and delay, the extra multipliers for guaranteed hits and the per-action multiplier. It is at least 1 unless the potency is zero, in which case it is 0.",
IC,"all stat blocks, jobs, potencies and effects","Truncation makes every intermediate step matter; tests check tens of points of a huge space.",
[CD,SF],[("dispatch","ComputeDamageUtils.get_base_damage"),("direct","ComputeDamageUtils.compute_direct_damage"),("dots/pets/autos","ComputeDamageUtils.compute_*_damage")])
p("C16","Critical and direct hit chances combine stats, effects and guarantees",
"The chance of a critical (direct) hit is the stat-based rate plus the bonuses of all effects, except that it is 1 when the action, the press or an effect guarantees it and 0 when one of them forbids it; asking for both is rejected. Guaranteed hits turn the rate bonuses they cannot use into damage, and two different effects of the same kind that both force an outcome are rejected.",
IC,"all combinations of guarantees from action, press, buffs and debuffs, rates and stats","4 sources x 3 states x 2 kinds of hit give far more cases than tested.",
[CD,SE],[("rates","ComputeDamageUtils.compute_crit_rates_and_bonuses"),("guarantee bonus","ComputeDamageUtils.get_guaranteed_dh_and_crit_bonus_dmg")])
p("C17","Reported damage ranges and probabilities match what is sampled",
"For every damage instance the four outcome probabilities (neither, critical, direct, both) are the products of its two chances and sum to one, and its reported ranges are the base damage at -5% and +5% with critical bonus, direct-hit bonus, trait and effect multipliers applied in that order with truncation after each. Every sampled damage is reachable from a base roll within those 5% under its recorded critical/direct-hit outcome, and outcomes and rolls occur with the stated frequencies, independently per instance and sample.",
IC,"all instances and random draws","Sampling is random; tests compare averages of a few skills.",
[DT,DS],[("sampling","DamageTracker.__get_damage"),("ranges","DamageTracker.get_damage_ranges_and_probabilities")])
p("C18","Kill time is when cumulative party damage first reaches the boss's HP",
"For every sample, the kill time is the time of the first damage instance, over all rotations merged in time order, at which the cumulative damage reaches the boss's HP; samples that never reach it are reported as missing, after the others. The returned cumulative damage is the running sum of the merged instances at the returned sorted times, and limit breaks contribute the declared exact damage or the declared mean within 5%.",
IHC,"all parties, boss HP values and samples","Merging of arbitrarily interleaved rotations and unreachable HP are not sampled by tests.",
[KT],[("merge and threshold","KillTimeEstimator.estimate_kill_time"),("limit breaks","KillTimeEstimator.process_damage_for_lb_usage")])
p("C19","Building a timeline is repeatable and leaves its inputs alone",
"Asking a rotation for its timeline any number of times, with presses added in between or not, gives what a fresh rotation with the same presses would give; adding timed presses in a different order changes nothing as long as they do not coincide. Neither building timelines nor damage nor simulating changes the action library, the stats, the press modifiers, downtime windows or damage instances the caller passed in, and separate rotations never influence each other.",
IHC,"all interleavings of adding, building and simulating","Needs sequences of calls on shared objects that tests never make.",
[RB,DB,DS],[("entry point","RotationBuilder.get_skill_timing"),("defensive copies","copy.deepcopy at builder and simulator boundaries")])
p("C20","A library holds exactly the data valid for its version and level",
"For every game version and level, each action, job trait and other versioned value is the entry of the newest patch not newer than the requested version, entries only newer than it are absent, and asking for an unknown action is an error. The same request always yields equal libraries, libraries of different versions or levels built in any order do not affect each other, every job's actions are reachable under their own names, and defining the same action twice is rejected.",
["configurations","histories"],"all versions, levels, jobs and creation orders","Tests pick single actions at fixed versions.",
[GS,LIB,S+"skills/create_skill_library.py",JF,UT],[("version lookup","Utils.get_greatest_dict_key_val_less_than_query"),("library","SkillLibrary.add_all_skills_from")])
p("C21","Summary statistics are the exact moments of the instance distribution",
"The expected damage and variance of an instance are those of its four outcome ranges under its outcome probabilities, totals are sums over instances, a sample's total is the sum of its instances' sampled damage and its rate that total divided by the time from first to last instance (infinite if zero). Damage totals up to a timestamp count exactly the instances snapshotted at or before it, interval reports are monotone and end with the total, and the estimated best of k runs is the mean over the trials of the largest of k independent draws from the given samples. A simulation without instances yields empty results instead of failing.",
IC,"all instance lists, samples and timestamps","Statistics over arbitrary instance lists; tests check a few numbers with tolerance.",
[DS,RA],[("moments","DamageSimulator.__get_expected_damage_and_variance_per_damage_instance"),("intervals","RotationAnalysisUtils.get_dps_at_intervals")])
p("C22","Imported rotations equal the same presses entered directly",
"A rotation read from a file or from the rotation examples gives exactly the timeline of the same presses entered directly, row by row, for a character of the stated stats (an example's: at the library's version and level): time, action, job, conditions and targets, with blanks meaning the defaults and column capitalisation irrelevant. An action used by another job without stated conditions uses its declared off-job default condition. A missing file yields no presses.",
IC,"all well-formed rotation files and example definitions","File contents are unbounded; the two csv tests cannot even find their input here.",
[CSV,EX,RB],[("csv","CSVUtils.populate_rotation_from_csv"),("examples","ExampleRotationUtils.get_example_rotation_with_rb"),("defaults","RotationBuilder.get_default_skill_modifier")])
p("C23","Death clears a character; weakness and Brink of Death weaken it",
"A death ends every buff held, resets every job resource and forgets every combo at its moment, while debuffs on enemies persist; later presses see none of the cleared state. Weakness and Brink of Death then reduce main stat by 25% and 50% for 100 s, Brink of Death replacing Weakness. Waiting actions only pass the stated time and deal nothing.",
IHC,"all histories with deaths at any point, all jobs and versions","A death interacts with every tracker at arbitrary moments.",
[S+"game_data/generic_skills/generic_skills_data.py",SE,JR,CT],[("generic actions","add_generic_skills_to_library"),("clears","clear_all_status_effects / clear_all_resources_only / break_all_combos_only")])
p("C24","Multi-target actions hit each target once, staggered and with drop-off",
"An action on n > 1 targets produces one instance per target, the i-th 135 ms times (i-1) after the first and evaluated as hit number i with that target's own debuffs, while with one target there is no numbering. For an action whose variants declare an area drop-off, targets 2 to 10 deal the corresponding variant's potency reduced by the drop-off under every condition, the first target full potency. Debuffs of the action are placed on all its targets and on no other.",
IHC,"all target lists, variants, drop-offs and histories","Target lists x variants x debuffs; tests use 2-3 targets on single skills.",
[DB,SK],[("per target loop","DamageBuilder.get_damage_instances"),("drop-off","Skill.__process_aoe_dropoff")])
p("C25","Stat-derived rates and times are the game's step functions",
"For every level and stat value, critical rate and bonus, direct hit rate, determination, tenacity, speed, attack power, weapon damage and auto multipliers equal the game's integer-truncated formulas with that level's constants. Speed-adjusted times are multiples of 10 ms, never increase with speed, and equal the base time at base speed.",
IC,"all stat values, levels and base times","Step functions must be right at every step; tests sample some.",
[SF,GC,S+"processed_stats.py"],[("formulas","StatFns"),("constants","GameConsts"),("per character","ProcessedStats")])
p("C26","Actions truthfully advertise the effects they carry",
"An action is reported as granting a buff (debuff) exactly if it or any of its follow-ups, under any condition, carries one, and as granting a party buff (debuff) exactly if one of those affects the party.",
IC,"all actions of all libraries and all follow-up lists","Tests look at six synthetic actions.",
[SK],[("flags","Skill.__set_status_effect_stats"),("party flags","Skill.__set_party_status_effect_stats")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
    n=x['statement'].count('. ')+1; assert n<=3,(x['id'],n)
print(len(P))
