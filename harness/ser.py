"""From objects of the implementation to the records of the specification."""
import json
from raw import R
from base import INF, NONE, Skip, num, scaled

from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.sim_consts import SimConsts

FORCE = {ForcedCritOrDH.DEFAULT: 0, ForcedCritOrDH.FORCE_YES: 1, ForcedCritOrDH.FORCE_NO: 2}


def effect(s):
    return {
        "dur": num(s.duration), "mdur": num(s.max_duration),
        "uses": num(s.num_uses), "muses": num(s.max_num_uses),
        "crit": scaled(s.crit_rate_add, 10000), "dh": scaled(s.dh_rate_add, 10000),
        "mult": scaled(s.damage_mult, 1000), "ms": num(s.main_stat_add),
        "msm": scaled(s.main_stat_mult, 1000),
        "aa": scaled(s.auto_attack_delay_reduction, 1000), "ha": scaled(s.haste_time_reduction, 1000),
        "fc": num(s.flat_cast_time_reduction), "fg": num(s.flat_gcd_recast_time_reduction),
        "ext": bool(s.extends_existing_duration), "xp": list(s.expires_status_effects),
        "alh": s.skill_allowlist is not None, "al": list(s.skill_allowlist or ()),
        "gc": FORCE[s.guaranteed_crit], "gd": FORCE[s.guaranteed_dh],
        "ac": bool(s.add_to_skill_modifier_condition), "eo": bool(s.extend_only),
        "cl": bool(s.clear_all_status_effects),
    }


def damage(s):
    return {"pot": scaled(s.potency or 0, 1000), "cls": s.damage_class.name}


def timing(s):
    return {"cast": num(s.base_cast_time), "rec": num(s.gcd_base_recast_time), "lock": num(s.animation_lock),
            "del": num(s.application_delay), "spd": bool(s.affected_by_speed_stat),
            "hst": bool(s.affected_by_haste_buffs)}


def channel(s):
    return {"dur": num(s.duration), "al": list(s.skill_allowlist), "u": num(s.num_uses)}


def combo(s):
    return {"acts": list(s.combo_actions), "grp": str(s.combo_group), "auto": bool(s.combo_auto_succeed),
            "brk": bool(s.break_all_combos_only)}


def change(s):
    return {"n": s.name, "c": num(s.change), "d": num(s.duration),
            "r": bool(s.refreshes_duration_of_last_gained), "clr": bool(s.clear_all_resources_only)}


def key(k):
    """the conditions of a variant, declared (a string) or stored (a set)"""
    return conds(k) if isinstance(k, str) else sorted(k)


def aspect(spec, f):
    if spec is None:
        return {"kind": "none"}
    if isinstance(spec, dict):
        o = []
        for k, v in spec.items():
            o.append({"k": key(k), "h": v is not None, "v": f(v) if v is not None else 0})
        return {"kind": "dict", "o": o}
    return {"kind": "one", "v": f(spec)}


def list_aspect(spec, f):
    g = lambda t: [f(x) for x in t]
    if isinstance(spec, dict):
        return aspect(spec, g) if spec else {"kind": "none"}
    return {"kind": "one", "v": g(spec)} if len(spec) else {"kind": "none"}


class Table:
    """The actions of a scenario, numbered from 1."""

    def __init__(self):
        self.recs = []      # serialised
        self.objs = []      # implementation objects
        self.keys = {}
        self.fids = {}

    def follow_up(self, f):
        r = {"sk": self.add(f.skill), "del": num(f.delay_after_parent_application),
             "sb": bool(f.snapshot_buffs_with_parent), "sd": bool(f.snapshot_debuffs_with_parent),
             "dot": NONE if f.dot_duration is None else num(f.dot_duration),
             "pto": bool(f.primary_target_only)}
        r["fid"] = self.fids.setdefault(json.dumps(r, sort_keys=True), len(self.fids) + 1)
        return r

    def positional(self, s):
        spec = s.damage_spec if isinstance(s.damage_spec, dict) else None
        if spec is None and isinstance(s.follow_up_skills, dict):
            spec = {}
            for k, fs in s.follow_up_skills.items():
                for f in fs:
                    if f.skill.damage_spec is not None:
                        spec[k] = f.skill.damage_spec
                        break
        if not spec or not any("No Positional" in key(k) for k in spec):
            return []
        out = []
        for k, v in spec.items():
            if v is None or isinstance(v, dict) or not v.potency:
                raise Skip("positional table with nothing to compare")
            out.append({"k": key(k), "pot": num(v.potency), "mp": num(v.use_min_potency or 0)})
        return out

    def add(self, s):
        dmg, drop = s.damage_spec, 0
        if s.aoe_dropoff is not None and isinstance(dmg, dict):   # KF2: otherwise it is ignored
            # declared variants only: the ones for targets 2 to 10 follow from the drop-off
            drop = scaled(s.aoe_dropoff, 1000)
            dmg = {k: v for k, v in dmg.items() if not any(c.startswith("Target ") for c in key(k))}
        r = {
            "n": s.name, "gcd": bool(s.is_GCD), "deny": list(s.status_effect_denylist),
            "dmg": aspect(dmg, damage), "drop": drop, "tim": aspect(s.timing_spec, timing),
            "buf": aspect(s.buff_spec, effect), "deb": aspect(s.debuff_spec, effect),
            "chan": aspect(s.channeling_spec, channel), "cmb": list_aspect(s.combo_spec, combo),
            "jr": list_aspect(s.job_resource_spec, change),
            "fol": list_aspect(s.follow_up_skills, self.follow_up),
            "pos": self.positional(s), "ign": list(s.ignored_conditions_for_bonus_potency),
            "jrs": bool(s.job_resources_snapshot), "wait": SimConsts.WAIT_PREFIX in s.name,
            "odc": conds(s.off_class_default_condition),
        }
        for a in ("dmg", "tim", "buf", "deb", "cmb", "jr", "fol"):
            if r[a]["kind"] == "dict" and not any(o["k"] == [] for o in r[a]["o"]):
                raise Skip("variants without a default")
        text = json.dumps(r, sort_keys=True)
        if text not in self.keys:
            self.recs.append(r)
            self.objs.append(s.obj() if isinstance(s, R) else s)
            self.keys[text] = len(self.recs)
        return self.keys[text]

    def id_of(self, s):
        """number of an action seen in the implementation's output; 0: unknown"""
        c = [i for i, o in enumerate(self.objs) if o.name == s.name]
        if len(c) > 1:
            c = [i for i in c if self.objs[i] == s]
        return c[0] + 1 if c else 0

    def finish(self):
        names = sorted({r["n"] for r in self.recs})
        rank = {n: i + 1 for i, n in enumerate(names)}
        for r in self.recs:
            r["rk"] = rank[r["n"]]
        return self.recs


def conds(text):
    return sorted({x.strip() for x in text.split(",")} - {""}) if text else []


def resources(settings):
    return [{"n": n, "max": num(c.max_value), "al": list(c.skill_allowlist), "exp": num(c.expiry_from_last_gain),
             "num": bool(c.add_number_to_conditional)} for n, c in settings.items()]


def micro(x):
    return INF if x == float("inf") else int(round(x * 10**6))


def totals(se):
    return {"names": sorted(se.status_effects), "crit": int(round(se.crit_rate_add * 10000)),
            "dh": int(round(se.dh_rate_add * 10000)), "ms": int(round(se.main_stat_add)),
            "mult": micro(se.damage_mult), "msm": micro(se.main_stat_mult), "aa": micro(se.auto_attack_delay_mult),
            "ha": micro(se.haste_time_mult), "fc": num(se.flat_cast_time_reduction),
            "fg": num(se.flat_gcd_recast_time_reduction),
            "gc": FORCE.get(se.guaranteed_crit, 9), "gd": FORCE.get(se.guaranteed_dh, 9)}
