"""Runs a rotation through the implementation and writes it, together with what
came out, as a scenario of spec/TracePipe.tla."""
import json
import os

from base import INF, NONE, SPEC, Skip, num, quiet, scaled
import ser

from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder

CONSTS = json.load(open(os.path.join(SPEC, "consts.json")))
FORCED = {0: ForcedCritOrDH.DEFAULT, 1: ForcedCritOrDH.FORCE_YES, 2: ForcedCritOrDH.FORCE_NO}


def newest(table, version):
    """the entry of the newest patch not newer than the version"""
    ks = [k for k in table if k <= version]
    return table[max(ks)] if ks else {}


def level_consts(version, level):
    return CONSTS["test"] if version == "test" else CONSTS["level"][str(level)]


def trait(kind, job, version, level):
    if version == "test":
        return CONSTS["test_traits"][kind].get(job, 0)
    return newest(CONSTS["traits"][kind][str(level)], version).get(job, 0)


def frac(n, d):
    from math import gcd
    g = gcd(n, d)
    return [n // g, d // g]


def stat_rec(stats):
    c = level_consts(stats.version, stats.level)
    return {"sub": c["sub"], "div": c["div"], "spc": c["spc"], "spd": num(stats.speed_stat),
            "th": frac(1000 - trait("haste", stats.job_class, stats.version, stats.level), 1000),
            "ta": frac(1000 - trait("auto", stats.job_class, stats.version, stats.level), 1000),
            "wd": num(round(1000 * stats.weapon_delay, 3))}


def modifier(m):
    return SkillModifier(with_condition=m.get("cond", ""), guaranteed_crit=FORCED[m.get("gc", 0)],
                         guaranteed_dh=FORCED[m.get("gd", 0)], force_combo=m.get("f", False),
                         ignore_cast_times=m.get("ic", False), ignore_application_delay=m.get("ia", False),
                         bonus_percent=m.get("b"))


class Rotation:
    """A rotation, independent of any builder.
    opts: autos, trail, fst (ms), snap (ms), deft, dt (list of (target|None, s, e, class|None), ms)
    presses: dicts name, job, mod (None or dict), tg (None or string), t (ms; None: in sequence), times"""

    def __init__(self, stats, lib, opts=None, presses=(), decl=None):
        self.decl = decl   # declared actions and settings; None: read from the library
        self.stats, self.lib, self.opts, self.presses = stats, lib, dict(opts or {}), list(presses)

    def downtime(self):
        dt = self.opts.get("dt", ())
        w = lambda x: (x[1] / 1000, x[2] / 1000) + ((DamageClass[x[3]],) if x[3] else ())
        if all(x[0] is None for x in dt):
            return tuple(w(x) for x in dt)
        out = {}
        for x in dt:
            out.setdefault(x[0], []).append(w(x))
        return {k: tuple(v) for k, v in out.items()}

    def builder(self, downtime=None):
        o = self.opts
        kw = {}
        if o.get("deft"):
            kw["default_target"] = o["deft"]
        return RotationBuilder(
            self.stats, self.lib, enable_autos=o.get("autos", False), ignore_trailing_dots=o.get("trail", False),
            fight_start_time=o.get("fst"),
            snap_dots_to_server_tick_starting_at=None if o.get("snap") is None else o["snap"] / 1000,
            downtime_windows=self.downtime() if downtime is None else downtime, **kw)

    @staticmethod
    def enter(rb, p):
        kw = {}
        if p.get("mod") is not None:
            kw["skill_modifier"] = p["mod"] if isinstance(p["mod"], SkillModifier) else modifier(p["mod"])
        if p.get("job"):
            kw["job_class"] = p["job"]
        if p.get("tg"):
            kw["targets"] = p["tg"]
        if p.get("t") is None:
            rb.add_next(p["name"], num_times=p.get("times", 1), **kw)
        else:
            rb.add(p["t"] / 1000, p["name"], **kw)

    def entered(self):
        rb = self.builder()
        for p in self.presses:
            self.enter(rb, p)
        return rb

    def skill(self, name, job):
        if self.decl is not None:
            return self.decl["sk"][(job, name)]
        return self.lib.get_skill(name, job)

    # ------------------------------------------------------------ scenario
    def scenario(self, obs=None):
        """(record of the specification, table of actions)"""
        o, job = self.opts, self.stats.job_class
        tab = ser.Table()
        deft = o.get("deft") or "Default Target"
        seq, tim = [], []
        for p in self.presses:
            pj = p.get("job") or job
            sk = tab.add(self.skill(p["name"], pj))
            m = p.get("mod") or {}
            if m and not isinstance(m, dict):
                raise Skip("modifier object")
            r = {"sk": sk, "m": p.get("mod") is not None, "off": pj != job, "c": ser.conds(m.get("cond", "")),
                 "f": m.get("f", False), "ic": m.get("ic", False), "ia": m.get("ia", False),
                 "b": NONE if m.get("b") is None else num(m["b"]), "gc": m.get("gc", 0), "gd": m.get("gd", 0),
                 "tg": [x.strip() for x in (p.get("tg") or deft).split(",")]}
            if p.get("t") is None:
                seq += [r] * p.get("times", 1)
            else:
                r["t"] = p["t"]
                tim.append(r)
        auto = 1
        if o.get("autos"):
            auto = tab.add(self.skill("Shot" if self.lib.has_skill("Shot", job) else "Auto", job))
        if self.decl is not None:
            prio, res, brks = self.decl["prio"], self.decl["res"], self.decl["brks"]
        else:
            prio = self.lib.get_status_effect_priority(job)
            res, brks = self.lib.get_all_resource_settings(job), self.lib.get_all_combo_breakers(job)
        dt = o.get("dt", ())
        per_target = not all(x[0] is None for x in dt)
        return {
            "prio": list(prio), "res": ser.resources(res),
            "brks": [{"g": str(g), "by": [str(x) for x in by]} for g, by in brks.items()],
            "auto": auto, "st": stat_rec(self.stats),
            "o": {"autos": bool(o.get("autos")), "trail": bool(o.get("trail")),
                  "fst": NONE if o.get("fst") is None else o["fst"],
                  "snap": NONE if o.get("snap") is None else o["snap"], "def": deft,
                  "dt": [{"tg": x[0] if per_target else "*", "s": x[1], "e": x[2], "cls": x[3] or ""} for x in dt]},
            "seq": seq, "tim": tim,
        }, tab


def at(x):
    """a time of the implementation as an integer (it must be one)"""
    if x is None:
        return NONE
    r = int(round(x))
    return r if abs(r - x) < 1e-6 else 777777777


def observe_events(q, tab):
    return [{"pt": at(e.event_times.primary), "st": at(e.event_times.secondary), "sk": tab.id_of(e.skill),
             "c": sorted(e.skill_modifier.with_condition), "sb": bool(e.snapshot_status[0]),
             "sd": bool(e.snapshot_status[1]), "tg": list(e.targets), "id": e.event_id} for e in q]


def observe_presses(rb, tab, names):
    out = []
    for t, n, j, c in rb.get_button_press_timing():
        out.append({"t": at(t), "sk": names.get((n, j), 0), "c": ser.conds(c)})
    return out


EMPTY_OBS = {"err": "", "prs": [], "evs": [], "ins": []}


def observe(rot, tab, rb=None, sim=True):
    """what the implementation makes of a rotation"""
    names = {}
    for p in rot.presses:
        job = p.get("job") or rot.stats.job_class
        shown = "" if job == rot.stats.job_class else job
        names[(p["name"], shown)] = tab.id_of(rot.lib.get_skill(p["name"], job))
    obs = dict(EMPTY_OBS)
    try:
        with quiet():
            rb = rb or rot.entered()
            timeline = rb.get_skill_timing()
            q = timeline.get_q()
            obs["prs"] = observe_presses(rb, tab, names)
            obs["evs"] = observe_events(q, tab)
            inst = DamageBuilder(rot.stats, rot.lib).get_damage_instances(timeline)
            sn = [None] * len(inst)
            obs["per"] = []
            if sim:
                per = DamageSimulator(rot.stats, inst, 1).get_per_skill_damage(rb)
                sn = [p.snapshot_time for p in per]
                # the report per instance, as it is returned
                obs["per"] = [{"t": at(p.application_time), "n": p.skill_name, "pot": int(round(1000 * p.potency)),
                               "c": sorted(p.skill_modifier_condition), "id": p.event_id, "tg": p.target,
                               "cls": p.damage_class.name, "b": ser.totals(p.status_effects[0])["names"],
                               "d": ser.totals(p.status_effects[1])["names"]} for p in per]
            else:
                times = {e.event_id: e.event_times.primary for e in q}
                sn = [times.get(x[4], -1) for x in inst]
            obs["ins"] = [{"t": at(t), "sk": tab.id_of(s), "c": sorted(m.with_condition), "b": ser.totals(se[0]),
                           "d": ser.totals(se[1]), "id": i, "tg": tg, "sn": at(sn[k]),
                           "pot": int(round(1000 * s.get_damage_spec(m).potency)), "cls": s.get_damage_spec(m).damage_class.name}
                          for k, (t, s, m, se, i, tg) in enumerate(inst)]
    except Exception as e:  # whatever the implementation raises is an observation
        obs = dict(EMPTY_OBS, err=type(e).__name__, msg=str(e)[:300])
    return obs


def traced(rot, sim=True):
    s, tab = rot.scenario()
    s["obs"] = observe(rot, tab, sim=sim)
    s["sk"] = tab.finish()
    return s
