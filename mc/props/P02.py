"""Sizing and its queries leave nothing behind: every history of sizing operations (successful or refused, on
the daily or the annual load profile) leaves the building and the inputs as they were and does not change what
a later sizing or query answers."""
from itertools import product
from mc.sysexp import *
from mc.core import rnd
from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem

BOUNDS = dict(plants="11 plants (storage only, parallel, single-pass RTP, swing, swing ER; with and without load shift; multi-pass; instantaneous)",
              histories="all histories of up to 3 operations (ER, multi-pass and swing load shift 2) out of 4-10; thorough: one longer",
              requests="all sequences of 2 (thorough 3) of 7 sizings of one plant object on different buildings, controls, gradients, run hours and load-shift shares, compared with a fresh plant",
              operations="re-size, size other plants on the building, sizing curve, load-shift curve, ER trade-off points, plot, refused sizings, switching the building between daily and annual profile, mutating returned lists")
ASSUMPTIONS = ["answers are compared to 1e-9 relative", "buildings are multi-family where the annual profile is used (the only type that has one)"]

NORMAL = dict(normal=(0.5, 120.0, 0.3, 140.0, 150.0))
SHIFT = dict(normal=(0.6, 118.0, 0.3, 125.0, 150.0), loadUp=(0.3, 118.0, 0.1, 130.0, 150.0), shed=(0.85, 115.0, 0.7, 122.0, 150.0))
MPN = dict(normal=(0.5, 120.0, 0.4, 128.0, 145.0))
SCHED = ["normal"] * 14 + ["loadUp"] * 2 + ["shed"] * 4 + ["normal"] * 4


def ctl(m):
    return {k: Controls(*v) for k, v in m.items()}


class Rig:
    """One plant on one building, plus the arguments it was sized with."""

    def __init__(self, name):
        self.name = name
        self.kind, _, self.ls = name.partition("+")
        self.b = Building(ClimateZone.from_design_conditions(32.0, 48.0), 800.0, list(PEAK), list(AVG), building_type="multi_family")
        self.modes = ctl(MPN if self.kind == "mprtp" else SHIFT if self.ls else NORMAL)
        self.sched = list(SCHED) if self.ls else ["normal"] * 24
        self.s = self.build(self.b)

    def build(self, b, kind=None, **over):
        kind = kind or self.kind
        kw = dict(max_daily_run_hr=24.0 if kind == "er" else 16.0, control_schedule=self.sched, control_map=self.modes)
        if self.ls:
            kw["load_shift_fract_total_vol"] = 0.8
        if kind == "mprtp":
            kw.pop("load_shift_fract_total_vol", None)
        kw.update(over)
        if kind == "primary":
            return DHWSystem.from_size(b, 120.0, 150.0, **kw)
        if kind == "parallel":
            return ParallelLoopSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, tm_on_temp_f=120.0, tm_off_temp_f=128.0, **kw)
        if kind == "sprtp":
            return SinglePassRTPSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, **kw)
        if kind == "swing":
            return SwingSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, **kw)
        if kind == "er":
            return SwingERTrdOffSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, **kw)
        if kind == "mprtp":
            return MultiPassRTPSystem.from_size(b, 120.0, 145.0, 112.0, 3.0, **kw)
        return InstantWHSystem.from_size(b, 120.0, 150.0)

    # ---- what can be observed
    def building_state(self):
        b = self.b
        return dict(daily=b.daily_dhw_use_supplyT_gal, peak=[float(x) for x in b.peak_load_shape], avg=[float(x) for x in b.avg_load_shape],
                    annual=b.is_annual_load_shape(), kind=b.building_type, oat=b.get_design_oat_f(), inlet=b.get_design_inlet_water_temp_f())

    def inputs_state(self):
        return dict(sched=list(self.sched), modes={k: (c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f) for k, c in self.modes.items()})

    def results(self, s=None):
        s = s or self.s
        out = [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()]
        for g in ("get_minimum_tm_volume_gal", "get_minimum_tm_ca_volume_gal", "get_minimum_tm_capacity_kbtuh", "get_er_capacity_kbtuh", "get_recirc_capacity_kbtuh"):
            if hasattr(s, g):
                out.append(getattr(s, g)())
        for a in ("supply_temp_f", "storage_temp_f", "max_daily_run_hr", "defrost_factor", "return_temp_f", "return_flow_gpm", "tm_safety_factor", "er_safety_factor"):
            if hasattr(s, a):
                out.append(getattr(s, a))
        if getattr(s, "storage_tank", None) is not None:
            out.append(s.storage_tank.total_volume_gal)
        if getattr(s, "tm_storage_tank", None) is not None:
            out.append(s.tm_storage_tank.total_volume_gal)
        for h in list(s.water_heaters) + [x for x in [getattr(s, "tm_water_heater", None)] if x is not None]:
            out.append(h.performance_map.get_capacity_kbtuh(32.0, 150.0, 48.0))
        return [float(x) for x in out if x is not None]

    def curve(self):
        c = self.s.get_sizing_curve(self.b, step=2.0)
        return [list(map(float, c[k])) for k in ("heat_hours", "capacity_kbtuh", "storage_storageT_gal")] + [c["recommended_index"]]

    def ls_curve(self):
        c = self.s.get_ls_sizing_curve(self.b, self.sched, self.modes, load_shift_percent=0.8)
        return [list(map(float, c[k])) for k in ("load_shift_percent", "capacity_kbtuh", "storage_storageT_gal")] + [c["recommended_index"]]

    def points(self):
        kw, cov, i = self.s.get_er_sized_points(self.b, 1.1)
        return [list(map(float, kw)), list(map(float, cov)), i]

    def answers(self, heavy):
        out = dict(results=self.results())
        if self.kind == "instant" or not heavy:
            return out
        out["curve"] = self.curve()
        if self.ls:
            out["ls"] = self.ls_curve()
        if self.name == "er":
            out["points"] = self.points()
        return out


def refused(f):
    try:
        f()
    except (ValueError, RuntimeError):
        return True
    return False


# each operation: (rig) -> None, True/False for refusals
def op_resize(r):
    kw = dict(control_map=r.modes, strat_slope=0.8 if r.kind == "mprtp" else 1.7 if r.kind == "sprtp" else 2.8)
    if r.ls:
        kw.update(control_schedule=r.sched, load_shift_fract_total_vol=0.8)
    r.s.size(r.b, **kw) if r.kind != "instant" else r.s.size(r.b)


def op_other(r):
    """Other plants sized on the same building, with other limits."""
    kinds = ["primary", "sprtp", "instant"] if r.kind in ("swing", "er", "mprtp") else ["primary", "parallel", "sprtp", "instant"]
    for k in kinds:
        r.build(r.b, k, max_daily_run_hr=11.0)


def op_other_swing(r):
    r.build(r.b, "swing", max_daily_run_hr=20.0)


def op_curve(r):
    r.curve()


def op_scribble(r):
    """A caller that changes the lists it was given."""
    c = r.s.get_sizing_curve(r.b, step=4.0)
    for k in ("heat_hours", "capacity_kbtuh", "storage_storageT_gal"):
        c[k].clear()
    if r.ls:
        c = r.s.get_ls_sizing_curve(r.b, r.sched, r.modes)
        for k in ("load_shift_percent", "capacity_kbtuh", "storage_storageT_gal"):
            c[k].clear()


def op_ls(r):
    r.ls_curve()


def op_points(r):
    r.points()


def op_er_curve(r):
    r.s.get_er_sizing_curve(r.b)


def op_plot(r):
    if r.ls:
        r.s.plot_sizing_curve(r.b, r.sched, r.modes, load_shift_percent=0.5)
    else:
        r.s.plot_sizing_curve(r.b)


def op_annual(r):
    r.b.set_to_annual_load_shape()


def op_daily(r):
    if r.b.is_annual_load_shape():
        r.b.set_to_daily_load_shape()


def op_bad_weather(r):
    """Everything that needs a design inlet temperature is refused while the building has none."""
    keep = r.b.climate_zone
    r.b.climate_zone = None
    try:
        ok = refused(lambda: r.build(r.b))
        if r.kind != "instant":
            ok = refused(lambda: r.s.get_sizing_curve(r.b, step=4.0)) and ok
        if r.ls:
            ok = refused(lambda: r.s.get_ls_sizing_curve(r.b, r.sched, r.modes)) and ok
        if r.name == "er":
            ok = refused(lambda: r.s.get_er_sized_points(r.b)) and ok
    finally:
        r.b.climate_zone = keep
    return ok


def op_bad_map(r):
    """A load-shift curve without a shed mode is refused."""
    return refused(lambda: r.s.get_ls_sizing_curve(r.b, ["normal"] * 24, ctl(NORMAL)))


def op_bad_swing(r):
    """A swing plant whose tank cannot hold supply temperature, or is too large, is refused."""
    a = refused(lambda: SwingSystem.from_size(r.b, 120.0, 150.0, 60.0, 300.0))
    return a


def op_bad_mp(r):
    """A multi-pass plant with a shed mode, or with a sensor in the dead water at the bottom, is refused."""
    kw = dict(control_schedule=r.sched, max_daily_run_hr=16.0)
    low = {k: Controls(0.5, 120.0, 0.05, 128.0, 145.0) for k in r.modes}
    low_on = {k: Controls(0.05, 120.0, 0.5, 128.0, 145.0) for k in r.modes}
    a = refused(lambda: MultiPassRTPSystem.from_size(r.b, 120.0, 145.0, 112.0, 3.0, control_map=dict(r.modes, shed=r.modes["normal"]), **kw))
    b = refused(lambda: r.s.size(r.b, control_map=dict(r.modes, shed=r.modes["normal"])))
    c = refused(lambda: MultiPassRTPSystem.from_size(r.b, 120.0, 145.0, 112.0, 3.0, control_map=low, percent_useable=0.9, **kw))
    d = refused(lambda: MultiPassRTPSystem.from_size(r.b, 120.0, 145.0, 112.0, 3.0, control_map=low_on, percent_useable=0.9, **kw))
    return a and b and c and d


OPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith("op_")}
PLANTS = {
    "primary": ["resize", "other", "curve", "scribble", "plot", "annual", "daily", "bad_weather", "bad_map", "bad_swing"],
    "primary+ls": ["resize", "other", "curve", "ls", "scribble", "plot", "annual", "daily", "bad_weather", "bad_map"],
    "parallel": ["resize", "other", "curve", "plot", "annual", "daily", "bad_weather", "bad_map"],
    "sprtp": ["resize", "other", "curve", "plot", "annual", "daily", "bad_weather", "bad_map"],
    "sprtp+ls": ["resize", "other", "curve", "ls", "scribble", "annual", "daily", "bad_weather", "bad_map"],
    "swing": ["resize", "other_swing", "curve", "annual", "daily", "bad_weather", "bad_swing"],
    "swing+ls": ["resize", "curve", "ls", "annual", "bad_weather"],
    "er": ["resize", "other_swing", "curve", "points", "annual", "daily", "bad_weather", "bad_swing"],
    "er+ls": ["resize", "curve", "ls", "annual"],
    "mprtp": ["resize", "annual", "daily", "other", "bad_weather", "curve", "bad_mp"],
    "instant": ["resize", "other", "annual", "daily", "bad_weather"],
}
REFUSALS = ("bad_weather", "bad_map", "bad_swing", "bad_mp")


def histories(ops, depth):
    for d in range(1, depth + 1):
        yield from product(ops, repeat=d)


def cases(tier):
    q = tier == "quick"
    for p, ops in PLANTS.items():
        k = p.split("+")[0]
        depth = dict(primary=3, parallel=3, sprtp=3, swing=3, er=2, mprtp=2, instant=3)[k] + (0 if q else 1)
        if p in ("swing+ls", "er+ls"):
            depth = 2 if q else 3
        for first in ops:
            yield "history", dict(plant=p, first=first, depth=depth)
    yield "interleave", {}
    for p in PLANTS:
        for k in range(len(REQUESTS)):
            yield "requests", dict(plant=p, first=k, depth=2 if q or p.split("+")[0] in ("swing", "er", "mprtp") else 3)


def sub_history(ctx, plant, first, depth):
    fresh = Rig(plant)
    start_b, start_in = fresh.building_state(), fresh.inputs_state()
    want = fresh.answers(True)
    ctx.outcome(want)
    yearly = None
    for hist in histories(PLANTS[plant], depth):
        if hist[0] != first:
            continue
        r = Rig(plant)
        annual = False
        for n, op in enumerate(hist):
            got = OPS[op](r)
            ctx.transitions += 1
            done = hist[:n + 1]
            if op in REFUSALS:
                ctx.check(got, "an impossible sizing request is refused", history=done, plant=plant)
            if op in ("annual", "daily"):
                annual = op == "annual"
            st = r.building_state()
            if annual:
                if yearly is None:
                    yearly = Rig(plant)
                    yearly.b.set_to_annual_load_shape()
                    yearly = yearly.building_state()
            ctx.check(st == (yearly if annual else start_b), "sizing leaves the building as it was", history=done, plant=plant,
                      differs=[k for k in st if st[k] != (yearly if annual else start_b)[k]])
            ctx.check(r.inputs_state() == start_in, "sizing leaves schedules and controls as they were", history=done, plant=plant)
            same(ctx, r.results(), want["results"], "sizing results and settings do not change through queries", history=done, plant=plant)
        ctx.states += 1
        ctx.traces += 1
        last = r.answers(True)
        for k in want:
            same(ctx, last[k], want[k], "the answer does not depend on what was asked before", query=k, history=hist, plant=plant)
        same(ctx, r.results(r.build(r.b)), want["results"], "sizing again on the same building gives the same plant", history=hist, plant=plant)
        st = r.building_state()
        ctx.check(st == (yearly if annual else start_b), "sizing leaves the building as it was", history=hist, plant=plant)


def same(ctx, got, want, what, **info):
    ctx.check(flat_close(got, want), what, got=str(got)[:300], want=str(want)[:300], **info)


def flat_close(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(flat_close(x, y) for x, y in zip(a, b))
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def sub_interleave(ctx):
    """Two plants of every pair of types sized alternately on one building answer as if each were alone."""
    kinds = ["primary", "primary+ls", "parallel", "sprtp", "sprtp+ls", "swing", "er", "mprtp", "instant"]
    alone = {k: Rig(k).answers(False)["results"] for k in kinds}
    for a, c in product(kinds, kinds):
        ra = Rig(a)
        rc = Rig(c)
        rc.b = ra.b
        rc.s = rc.build(ra.b)
        if ra.kind != "instant":
            op_resize(ra)
        if rc.kind != "instant":
            op_resize(rc)
        ctx.states += 1
        ctx.transitions += 3
        same(ctx, ra.results(), alone[a], "a plant sized alternately with another is what it would be alone", first=a, second=c)
        same(ctx, rc.results(), alone[c], "a plant sized alternately with another is what it would be alone", first=a, second=c)


REQUESTS = [  # (daily use, inlet, profile shift, on trigger offset, on height offset, slope factor, run hours offset, load-shift share)
    (800.0, 48.0, 0, 0.0, 0.0, 1.0, 0.0, 0.8),
    (800.0, 62.0, 0, 0.0, 0.0, 1.0, 0.0, 0.8),
    (500.0, 48.0, 5, 0.0, 0.0, 1.0, 0.0, 0.8),
    (800.0, 48.0, 0, -3.0, 0.0, 1.0, 0.0, 0.8),
    (800.0, 48.0, 0, 0.0, 0.1, 1.0, 0.0, 0.8),
    (800.0, 48.0, 0, 0.0, 0.0, 0.75, 0.0, 0.8),
    (800.0, 48.0, 0, 0.0, 0.0, 1.0, 3.0, 0.5),
]


def request(r, s, k):
    """size s as request k asks; answers of the sizing and of its curve"""
    daily, inlet, shift, dt, df, fs, dh, share = REQUESTS[k]
    b = Building(ClimateZone.from_design_conditions(32.0, inlet), daily, PEAK[shift:] + PEAK[:shift], list(AVG), building_type="multi_family")
    if r.kind == "instant":
        s.size(b)
        return [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()], b
    modes = {m: Controls(c.on_sensor_fract + df, c.on_trigger_t_f + dt, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f) for m, c in r.modes.items()}
    slope = fs * (0.8 if r.kind == "mprtp" else 1.7 if r.kind == "sprtp" else 2.8)
    s.max_daily_run_hr = (24.0 if r.kind == "er" else 16.0) - dh
    kw = dict(control_map=modes, strat_slope=slope)
    if r.ls:
        kw.update(control_schedule=r.sched, load_shift_fract_total_vol=share)
    s.size(b, **kw)
    out = [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()]
    for g in ("get_minimum_tm_volume_gal", "get_minimum_tm_ca_volume_gal", "get_minimum_tm_capacity_kbtuh", "get_er_capacity_kbtuh", "get_recirc_capacity_kbtuh"):
        if hasattr(s, g):
            out.append(getattr(s, g)())
    if r.kind != "mprtp":
        c = s.get_sizing_curve(b, strat_slope=slope, step=4.0)
        out += [list(map(float, c[q])) for q in ("capacity_kbtuh", "storage_storageT_gal")]
        if r.ls and r.kind not in ("swing", "er"):
            c = s.get_ls_sizing_curve(b, r.sched, modes, load_shift_percent=share, strat_slope=slope)
            out += [list(map(float, c[q])) for q in ("capacity_kbtuh", "storage_storageT_gal")]
    return out, b


def sub_requests(ctx, plant, first, depth):
    """One plant object sized again and again as different requests ask answers each like a plant that was only ever asked that."""
    r = Rig(plant)
    want = {}
    for k in range(len(REQUESTS)):
        want[k], _ = request(r, r.build(r.b), k)
    for seq in product(range(len(REQUESTS)), repeat=depth):
        if seq[0] != first:
            continue
        s = r.build(r.b)
        for n, k in enumerate(seq):
            got, _ = request(r, s, k)
            ctx.transitions += 1
            same(ctx, got, want[k], "a sizing does not depend on what the plant was sized for before", plant=plant, requests=seq[:n + 1])
        ctx.states += 1
        ctx.traces += 1
        ctx.outcome(want[seq[-1]])
