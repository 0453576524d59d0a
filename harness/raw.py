"""Declared values: what the caller of the implementation's constructors wrote.

An R remembers the arguments given to a constructor and knows the documented
defaults itself, so that the specification's input does not depend on what the
implementation's constructors make of the arguments."""
from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.skills.skill import Skill
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec

INF = float("inf")
DEFAULTS = {
    Skill: dict(damage_spec=None, timing_spec=None, buff_spec=None, debuff_spec=None, channeling_spec=None,
                job_resource_spec=(), combo_spec=(), status_effect_denylist=(), is_GCD=None,
                ignored_conditions_for_bonus_potency=(), job_resources_snapshot=True, follow_up_skills=(),
                has_aoe=False, aoe_dropoff=None, off_class_default_condition=""),
    TimingSpec: dict(gcd_base_recast_time=2500, animation_lock=650, application_delay=0, affected_by_speed_stat=True,
                     affected_by_haste_buffs=True),
    DamageSpec: dict(damage_class=DamageClass.DIRECT, guaranteed_crit=ForcedCritOrDH.DEFAULT,
                     guaranteed_dh=ForcedCritOrDH.DEFAULT, trait_damage_mult_override=None, pet_job_mod_override=None,
                     pet_scalar=1.0, use_min_potency=None, single_damage_mult=1),
    StatusEffectSpec: dict(duration=0, num_uses=INF, crit_rate_add=0, dh_rate_add=0, damage_mult=1, main_stat_add=0,
                           main_stat_mult=1, auto_attack_delay_reduction=0, haste_time_reduction=0,
                           flat_cast_time_reduction=0, flat_gcd_recast_time_reduction=0,
                           extends_existing_duration=True, expires_status_effects=(), skill_allowlist=None,
                           guaranteed_crit=ForcedCritOrDH.DEFAULT, guaranteed_dh=ForcedCritOrDH.DEFAULT,
                           add_to_skill_modifier_condition=False, extend_only=False, is_party_effect=False,
                           clear_all_status_effects=False),
    FollowUp: dict(snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=True, dot_duration=None,
                   primary_target_only=True),
    ChannelingSpec: dict(duration=0, skill_allowlist=(), num_uses=INF),
    ComboSpec: dict(combo_actions=(), combo_group=0, combo_auto_succeed=False, break_all_combos_only=False),
    JobResourceSpec: dict(name="", change=0, duration=INF, refreshes_duration_of_last_gained=False,
                          clear_all_resources_only=False),
    JobResourceSettings: dict(max_value=0, skill_allowlist=(), expiry_from_last_gain=INF,
                              add_number_to_conditional=True),
}


def build(x):
    if isinstance(x, R):
        return x.obj()
    if isinstance(x, tuple):
        return tuple(build(y) for y in x)
    if isinstance(x, dict):
        return {k: build(v) for k, v in x.items()}
    return x


class R:
    def __init__(self, ctor, **kw):
        self.__dict__.update(ctor=ctor, kw=kw, made=None)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        kw = self.__dict__["kw"]
        if a in kw:
            return kw[a]
        if self.ctor is StatusEffectSpec and a == "max_duration":
            return self.duration
        if self.ctor is StatusEffectSpec and a == "max_num_uses":
            return self.num_uses
        return DEFAULTS[self.ctor][a]

    def obj(self):
        if self.__dict__["made"] is None:
            self.__dict__["made"] = self.ctor(**{k: build(v) for k, v in self.kw.items()})
        return self.__dict__["made"]
