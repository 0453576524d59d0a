"""Small worlds: every rotation over a menu of presses is enumerated, run through
the implementation and through spec/MCPipe.tla, whose invariants state the
properties once more over the behaviours."""
import itertools
import random

import gen
import pipe
from raw import (ChannelingSpec, ComboSpec, DamageSpec, FollowUp, JobResourceSettings, JobResourceSpec, R, Skill,
                 StatusEffectSpec, TimingSpec)
from run import validate_traces

from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary

INF = float("inf")
T, B, A = "Default Target", "Boss", "Add"


def tim(cast=0, lock=650, delay=0, rec=2500, **kw):
    return R(TimingSpec, base_cast_time=cast, animation_lock=lock, application_delay=delay, gcd_base_recast_time=rec, **kw)


def hit(p=300, cls=DamageClass.DIRECT):
    return R(DamageSpec, potency=p, damage_class=cls)


def eff(d=5000, **kw):
    return R(StatusEffectSpec, duration=d, **kw)


def act(name, gcd=False, t=None, **kw):
    return R(Skill, name=name, is_GCD=gcd, timing_spec=t or tim(), **kw)


AUTO = act("Auto", t=tim(lock=0, delay=400), damage_spec=hit(90, DamageClass.AUTO))


class World:
    """actions, and a function from an index to a rotation"""

    def __init__(self, job, actions, size, rotation, prio=(), res=None, brks=None, speed=650):
        self.job, self.actions, self.size, self.make = job, actions + [AUTO], size, rotation
        self.prio, self.res, self.brks, self.speed = list(prio), res or {}, brks or {}, speed

    def rotation(self, i):
        lib = SkillLibrary("7.05", 100)
        lib.set_current_job_class(self.job)
        if self.prio:
            lib.set_status_effect_priority(tuple(self.prio))
        for n, r in self.res.items():
            lib.add_resource(n, r.obj())
        for g, by in self.brks.items():
            lib.add_combo_breaker(g, by)
        sk = {}
        for a in self.actions:
            sk[(self.job, a.name)] = a
            lib.add_skill(a.obj())
        opts, presses = self.make(i)
        st = gen.stats(random.Random(1), self.job, speed_stat=self.speed)
        return pipe.Rotation(st, lib, opts, presses, {"sk": sk, "prio": self.prio, "res": self.res, "brks": self.brks})


def sequences(menu, n, opts=({},)):
    """all sequences of n presses"""
    size = len(menu) ** n * len(opts)

    def f(i):
        o, i = opts[i % len(opts)], i // len(opts)
        out = []
        for _ in range(n):
            out.append(dict(menu[i % len(menu)], t=None))
            i //= len(menu)
        return dict(o), out
    return size, f


def timed(menu, gaps, n, opts=({},), t0=0):
    """all timed rotations of n presses with the given gaps between them"""
    size = len(menu) ** n * len(gaps) ** (n - 1) * len(opts)

    def f(i):
        o, i = opts[i % len(opts)], i // len(opts)
        out, t = [], t0
        for j in range(n):
            out.append(dict(menu[i % len(menu)], t=t))
            i //= len(menu)
            if j < n - 1:
                t += gaps[i % len(gaps)]
                i //= len(gaps)
        return dict(o), out
    return size, f


def p(name, tg=None, mod=None):
    return {"name": name, "tg": tg, "mod": mod}


# ------------------------------------------------------------------ the worlds
def seq_world(n, job, speed):
    acts = [act("G", True, damage_spec=hit()),
            act("C", True, tim(cast=2000, lock=100), damage_spec=hit()),
            act("S", True, tim(cast=400, rec=1500), damage_spec=hit()),
            act("H", True, tim(lock=1000, rec=3000, affected_by_speed_stat=False),
                buff_spec=eff(4000, haste_time_reduction=0.25, flat_gcd_recast_time_reduction=600, num_uses=2)),
            act("O", False, tim(lock=700), buff_spec=eff(10000, flat_cast_time_reduction=INF, num_uses=1)),
            act("L", False, tim(delay=600), debuff_spec=eff(3000, haste_time_reduction=0.15, flat_gcd_recast_time_reduction=500))]
    size, f = sequences([p(a.name) for a in acts], n, [{"fst": 0}])
    return World(job, acts, size, f, speed=speed)


def snap_world(n):
    tickless = lambda name, **kw: R(Skill, name=name, **kw)
    f1 = tickless("F1", damage_spec=hit(100))
    f2 = tickless("F2", damage_spec=hit(120))
    f3 = tickless("F3", buff_spec=eff(2000, crit_rate_add=0.1))
    acts = [act("A", t=tim(delay=500), damage_spec=hit()),
            act("C", True, tim(cast=2000, delay=700), damage_spec=hit()),
            act("B", buff_spec=eff(2000, damage_mult=1.1)),
            act("D", t=tim(delay=1000), debuff_spec=eff(1500, damage_mult=1.05), damage_spec=hit()),
            act("P", t=tim(delay=500), follow_up_skills=(
                R(FollowUp, skill=f1, delay_after_parent_application=500, snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=False),
                R(FollowUp, skill=f2, delay_after_parent_application=0, snapshot_buffs_with_parent=False, snapshot_debuffs_with_parent=False),
                R(FollowUp, skill=f3, delay_after_parent_application=1000, snapshot_buffs_with_parent=False, snapshot_debuffs_with_parent=True)))]
    size, f = timed([p(a.name) for a in acts], [0, 500, 1000, 1500], n, [{}, {"fst": 0}], t0=700)
    return World("SAM", acts, size, f)


def dot_world(n):
    tick = R(Skill, name="Tick", damage_spec=hit(40, DamageClass.MAGICAL_DOT))
    tick2 = R(Skill, name="Tick2", damage_spec=hit(50, DamageClass.PHYSICAL_DOT))
    fu = R(FollowUp, skill=tick, delay_after_parent_application=0, dot_duration=9000)
    fu2 = R(FollowUp, skill=tick2, delay_after_parent_application=0, dot_duration=7000)
    acts = [act("T", t=tim(), follow_up_skills=(fu,)),
            act("U", t=tim(delay=1000), follow_up_skills=(fu, fu2), damage_spec=hit()),
            act("A", damage_spec=hit())]
    menu = [p("T"), p("T", f"{B}, {T}"), p("U"), p("U", B), p("A")]
    size, f = timed(menu, [500, 1000, 3000, 10000], n,
                    [{"trail": x, "snap": y, "fst": 0} for x in (False, True) for y in (None, 0, 700)])
    return World("BLM", acts, size, f)


def auto_world(n):
    acts = [act("A", damage_spec=hit()),
            act("C", True, tim(cast=2500), damage_spec=hit()),
            act("H", buff_spec=eff(6000, auto_attack_delay_reduction=0.25)),
            act("K", channeling_spec=R(ChannelingSpec, duration=4000), debuff_spec=eff(5000, auto_attack_delay_reduction=0.1))]
    menu = [p("A"), p("A", B), p("C"), p("H"), p("K")]
    size, f = timed(menu, [600, 2640, 6000], n,
                    [dict(autos=True, fst=x, dt=y) for x in (None, 0) for y in ((), ((T, 2000, 6000, None), (B, 3000, 4000, "AUTO")))])
    return World("SAM", acts, size, f)


def down_world(n):
    acts = [act("A", damage_spec=hit()),
            act("L", t=tim(delay=1000), damage_spec=hit()),
            act("M", t=tim(delay=1000), damage_spec={"": hit(cls=DamageClass.PET), "Alpha": None}),
            act("B", t=tim(delay=500), debuff_spec=eff(3000, damage_mult=1.1))]
    menu = [p("A"), p("A", B), p("L", f"{T}, {B}"), p("M"), p("M", None, {"cond": "Alpha"}), p("B", f"{B}, {T}")]
    w = [((None, 1000, 2000, None),), ((T, 1000, 2000, None),), ((B, 0, 1000, None), (B, 2000, 3000, None)),
         ((None, 500, 2500, "PET"),), ((T, 0, 1500, "DIRECT"), (B, 1500, 9000, None))]
    size, f = timed(menu, [0, 1000, 500], n, [{"fst": 0, "dt": x} for x in w] + [{"dt": w[0]}])
    return World("SAM", acts, size, f)


def clear_world(n):
    kw = dict(refreshes_duration_of_last_gained=True)
    acts = [act("B", buff_spec=eff(20000, damage_mult=1.1)),
            act("D", debuff_spec=eff(20000, damage_mult=1.05)),
            act("K", True, damage_spec=hit(), combo_spec=(R(ComboSpec),),
                job_resource_spec=(R(JobResourceSpec, name="Gauge", change=2, **kw),)),
            act("L", True, damage_spec={"": hit(400), "No Combo": hit(100), "2 Gauge": hit(500), "2 Gauge, No Combo": hit(200)},
                combo_spec=(R(ComboSpec, combo_actions=("K",)),)),
            act("X", t=tim(delay=700), buff_spec=eff(0, clear_all_status_effects=True),
                combo_spec=(R(ComboSpec, break_all_combos_only=True),),
                job_resource_spec=(R(JobResourceSpec, clear_all_resources_only=True),))]
    res = {"Gauge": R(JobResourceSettings, max_value=3, skill_allowlist=("L",))}
    size, f = timed([p(a.name) for a in acts], [0, 1000], n, [{"fst": 0}])
    return World("SAM", acts, size, f, res=res)


def multi_world(n):
    acts = [act("A", t=tim(delay=500), damage_spec={"": hit(400), "Alpha": hit(600)}, aoe_dropoff=0.5),
            act("D", debuff_spec=eff(3000, damage_mult=1.1, num_uses=2), damage_spec=hit(200)),
            act("V", t=tim(delay=300), debuff_spec=eff(3000, damage_mult=1.2)),
            act("E", t=tim(delay=200), damage_spec=hit(100), debuff_spec={"": eff(2000, crit_rate_add=0.1), "Target 1": eff(4000, dh_rate_add=0.1)})]
    tgs = [None, B, f"{T}, {B}", f"{B}, {T}", f"{A}, {T}, {B}"]
    menu = [p("A", t, m) for t in tgs for m in (None, {"cond": "Alpha"})] + [p(x, t) for x in "DEV" for t in tgs]
    size, f = timed(menu, [100, 1000], n, [{"fst": 0}])
    return World("SAM", acts, size, f)


WORLDS = {   # presses of the complete exploration: quick, thorough
    "seq": (lambda n: seq_world(n, "SAM", 650), 3, 5),
    "seq-trait": (lambda n: seq_world(n, "MNK", 1200), 3, 4),
    "snap": (snap_world, 2, 3),
    "dot": (dot_world, 2, 3),
    "auto": (auto_world, 2, 3),
    "down": (down_world, 2, 3),
    "clear": (clear_world, 3, 4),
    "multi": (multi_world, 2, 2),
}


def small(chk, world, clauses=None, more=(500, 12000)):
    """every rotation of the world up to a number of presses, and a random selection of those with one more"""
    from props_pipe import describe
    make, quick, thorough = WORLDS[world]
    n = chk.n(quick, thorough)

    def explore(w, keys, name):
        g = lambda k: pipe.traced(w.rotation(keys[k[-1]]))
        g.by_key = True
        validate_traces(chk, "MCPipe", name, g, len(keys), clauses=clauses, describe=describe, batch=1000)

    w = make(n)
    explore(w, list(range(w.size)), f"every-{world}")
    chk.part(f"every-{world}", presses=n, rotations=w.size)
    w = make(n + 1)
    keys = sorted(chk.rng("small", world).sample(range(w.size), min(w.size, chk.n(*more))))
    explore(w, keys, f"longer-{world}")
    chk.part(f"longer-{world}", presses=n + 1, of=w.size)
