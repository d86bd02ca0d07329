"""Reproducibility: every history of earlier operations (simulations, failed runs, single steps, sizing, curves,
manual switching, other plants) followed by the same simulation must give exactly the fresh plant's record."""
import copy
from itertools import product
from mc.sysexp import *
from mc.props import P12
from ecoengine.interfaces import Simulator
from ecoengine.interfaces.EcosizerEngine import EcosizerEngine
from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem

BOUNDS = dict(histories="all sequences of up to 2 (quick) / 3 (thorough) earlier operations out of 13, on 8 plants (component-built and sized)",
              engine="all sequences of up to 2 facade calls (quick: pairs out of simulate / curve / rebuild, thorough: all 7), on all schematics",
              changes="all ordered pairs of 6 settings (buildings, exchanged schedules and modes, supply temperature) simulated one after the other on one plant object",
              judged="all recorded series, outage minutes, early stop, summary of the repeated 3-day run (and of annual runs in thorough); building and sizing unchanged")
ASSUMPTIONS = ["single-threaded use"]
PLANTS = ["storage", "sprtp", "parallel", "swing", "mprtp", "sized", "sized_shift", "sized_swing", "instant", "er", "small"]
SERIES = ["dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f", "heater_mode",
          "tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw"]


def flat(v):
    for x in v:
        if isinstance(x, (list, tuple)):
            yield from flat(x)
        else:
            yield x


def record(run):
    return {**{s: list(getattr(run, s)) for s in SERIES}, "tanks": [list(t) for t in run.tank_temps_f], "outage": [run.outage_minutes],
            "end": [run.stopped_early, run.duration_min, run.timestep_min, run.supply_temp_f], "summary": sorted((k, v) for k, v in run.get_summary().items())}


def same(ctx, a, b, what, **info):
    for k in b:
        if a[k] == b[k]:
            ctx.judgements += 1
            continue
        x, y = list(flat(a[k])), list(flat(b[k]))
        bad = len(x) != len(y) and "length" or next((i for i, (p, q) in enumerate(zip(x, y)) if not (p == q or isinstance(p, float) and isinstance(q, float) and abs(p - q) <= 1e-9 * max(1, abs(p)))), None)
        ctx.check(bad is None, what, series=k, first=bad, got=(x[bad] if isinstance(bad, int) else len(x)), want=(y[bad] if isinstance(bad, int) else len(y)), **info)


def bstate(b):
    return dict(daily=[b.daily_dhw_use_supplyT_gal], peak=[float(x) for x in b.peak_load_shape], avg=[float(x) for x in b.avg_load_shape],
                annual=[b.is_annual_load_shape()], design=[b.get_design_inlet_water_temp_f()],
                load=[b.get_dhw_load_supplyT_gal(i, 60) for i in range(24)], wx=[b.get_oat_f(i, 60) for i in range(0, 8760, 501)] + [b.get_inlet_water_temp_f(i, 60) for i in range(0, 8760, 501)])


CM = {"normal": Controls(0.5, 120.0, 0.2, 150.0, 150.0)}
CMS = {"normal": Controls(0.5, 120.0, 0.2, 150.0, 150.0), "shed": Controls(0.8, 120.0, 0.6, 150.0, 150.0), "loadUp": Controls(0.3, 120.0, 0.15, 150.0, 150.0)}
SS = P12.LS_SCHED


def plant(name, b):
    """(system, sizing arguments)"""
    if name in ("storage", "sprtp", "parallel", "swing", "mprtp"):
        cmap = {"normal": Controls(0.4, 119.0, 0.3, 134.0, 140.0)} if name == "mprtp" else CM
        return P12.make(name, "two", V=300.0)[0], dict(control_schedule=["normal"] * 24, control_map=cmap)
    if name == "small":
        return P12.make("storage", "one", V=40.0)[0], dict(control_schedule=["normal"] * 24, control_map=CM)
    if name == "sized":
        a = dict(control_schedule=["normal"] * 24, control_map=copy.deepcopy(CM))
        return DHWSystem.from_size(b, 120.0, 150.0, max_daily_run_hr=16, **a), a
    if name == "sized_shift":
        a = dict(control_schedule=list(SS), control_map=copy.deepcopy(CMS))
        return DHWSystem.from_size(b, 120.0, 150.0, max_daily_run_hr=16, **a), a
    if name == "sized_swing":
        a = dict(control_schedule=["normal"] * 24, control_map=copy.deepcopy(CM))
        return SwingSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, **a), a
    if name == "er":
        a = dict(control_schedule=["normal"] * 24, control_map=copy.deepcopy(CM))
        return SwingERTrdOffSystem.from_components([WaterHeater.from_nominal_capacity(60.0, ["normal"] * 24, a["control_map"])], StratifiedTank(250.0, 2.8), MixedStorageTank(80.0), 30.0, b, 120.0, 150.0, 112.0, 3.0, **a), a
    if name == "instant":
        return InstantWHSystem.from_size(b, 120.0, 150.0), {}


class Interrupted(Exception):
    pass


def broken_run(s, n, b, **kw):
    """A simulation that is cut short after n steps (the simulator sees an exception)."""
    step, left = s.simulate_step, [n]

    def once(*a, **k):
        left[0] -= 1
        if left[0] < 0:
            raise Interrupted()
        return step(*a, **k)
    s.simulate_step = once
    try:
        Simulator.simulate(s, b, "3day", **kw)
    except Interrupted:
        pass
    finally:
        del s.simulate_step


def ops_for(name):
    o = ["sim", "steps", "hot", "cold", "heaters_on", "heaters_off", "other_building", "other_plant", "invalid", "toggle_annual"]
    if name not in ("instant", "er"):
        o += ["size"]
    if name in ("sized", "sized_shift", "sized_swing"):
        o += ["curve"]
    if name == "sized_shift":
        o += ["ls_curve"]
    if name == "er":
        o += ["er_points"]
    return o


def apply(op, s, b, args, name):
    if op == "sim":
        Simulator.simulate(s, b, "3day")
    elif op == "annual":
        Simulator.simulate(s, b, "annual")
    elif op == "steps":
        for i in (7 * 6, 8 * 6, 3, 40000):
            s.simulate_step(b, i, 10)
    elif op in ("hot", "cold"):
        t = 150.0 if op == "hot" else 60.0
        if s.storage_tank is not None:
            s.storage_tank.initialize(t, 41.0, 1.0)
            s.storage_tank.heat(20.0, 30, t)
        if getattr(s, "tm_storage_tank", None) is not None:
            s.tm_storage_tank.initialize(t, 41.0, 1.0)
        if op == "hot" and hasattr(s.storage_tank, "activate_slug"):
            s.storage_tank.initialize(140.0, 41.0, 0.4)
            s.storage_tank.activate_slug(120.0)
    elif op in ("heaters_on", "heaters_off"):
        for h in list(s.water_heaters) + [getattr(s, "tm_water_heater", None)]:
            if h is not None:
                h.turn_on() if op == "heaters_on" else h.turn_off()
    elif op == "other_building":
        c = building(2500.0, peak=AVG, avg=PEAK, oat=10.0, inlet=61.0)
        broken_run(s, 200, c)
    elif op == "other_plant":
        o, _ = plant(name, b)
        broken_run(o, 300, b, outlet_deficit_threshold_f=1.0)
    elif op == "invalid":
        try:
            Simulator.simulate(s, b, "week")
        except ValueError:
            pass
    elif op == "toggle_annual":
        b.set_to_annual_load_shape()
        try:
            s.simulate_step(b, 100, 10)
        finally:
            b.set_to_daily_load_shape()
    elif op == "size":
        s.size(b, **args)
    elif op == "curve":
        s.get_sizing_curve(b)
    elif op == "ls_curve":
        s.get_ls_sizing_curve(b, args["control_schedule"], args["control_map"])
    elif op == "er_points":
        s.get_er_sized_points(b)


def mk(name):
    from ecoengine.objects.building.Building import Building as B
    b = B.from_building_type("multi_family", 60, ClimateZone.from_zone_id(19), gpdpp=25.0)
    s, args = plant(name, b)
    return b, s, args


def cases(tier):
    D = 2 if tier == "quick" else 3
    for name in PLANTS:
        for first in ops_for(name):
            yield "history", dict(plant=name, first=first, depth=D)
        if tier == "thorough":
            yield "annual", dict(plant=name)
    for sch in ("primary_no_recirc", "parallel_loop", "swing_tank", "single_pass_rtp", "multi_pass_rtp", "instant_wh"):
        for ls in (False, True):
            yield "engine", dict(schematic=sch, shift=ls, presized=False, full=tier == "thorough")
        yield "engine", dict(schematic=sch, shift=False, presized=True, full=tier == "thorough")
    for name in ("sized", "swing", "mprtp"):
        yield "interleave", dict(plant=name)
    for name in ("storage", "sprtp", "parallel", "swing", "sized", "sized_shift", "er"):
        yield "changes", dict(plant=name, q=tier == "quick")
    yield "annual", dict(plant="swing")
    yield "annual", dict(plant="mprtp")


def sizes(s):
    try:
        return [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal()]
    except RuntimeError:
        return None


def sub_history(ctx, plant, first, depth):
    b0, s0, _ = mk(plant)
    ref_b, ref_sz = bstate(b0), sizes(s0)
    ref = record(Simulator.simulate(s0, b0, "3day"))
    ops = ops_for(plant)
    tails = [t for k in range(depth) for t in product(ops, repeat=k)]
    base = mk(plant)
    for tail in tails:
        h = (first,) + tail
        b, s, args = copy.deepcopy(base)
        for op in h:
            apply(op, s, b, args, plant)
            ctx.transitions += 1
        same(ctx, record(Simulator.simulate(s, b, "3day")), ref, "a simulation differs from the same simulation on a fresh plant", history=h, plant=plant)
        same(ctx, bstate(b), ref_b, "simulating changed the building", history=h, plant=plant)
        if ref_sz is not None:
            ctx.check(all(abs(x - y) <= 1e-9 * y for x, y in zip(sizes(s), ref_sz)), "simulating changed the sizing result", history=h, plant=plant, got=sizes(s), want=ref_sz)
        ctx.states += 1; ctx.traces += 1
    ctx.outcome(ref["summary"])


def sub_annual(ctx, plant):
    b0, s0, _ = mk(plant)
    ref = record(Simulator.simulate(s0, b0, "annual"))
    ref3 = None
    for h in (("annual",), ("sim",), ("heaters_on", "hot")):
        b, s, args = mk(plant)
        for op in h:
            apply(op, s, b, args, plant)
        same(ctx, record(Simulator.simulate(s, b, "annual")), ref, "an annual simulation differs from the same simulation on a fresh plant", history=h, plant=plant)
        if h == ("annual",):
            bb, ss, _ = mk(plant)
            same(ctx, record(Simulator.simulate(s, b, "3day")), record(Simulator.simulate(ss, bb, "3day")), "a 3-day run after annual runs differs from a fresh one", plant=plant)
        ctx.states += 1; ctx.transitions += 52560
    ctx.outcome(ref["summary"])


def sub_interleave(ctx, plant):
    """Two plants stepped alternately behave as if each were alone (all interleavings of 4 + 4 two-hour blocks)."""
    from itertools import combinations
    def alone():
        b, s, _ = mk(plant)
        s.storage_tank.initialize(s.storage_temp_f, 50.0, 0.5)
        return [tuple(rep(s.simulate_step(b, i, 10))) for i in range(48)]

    def rep(r):
        return [r["usable_volume_supplyT_gal"], r["heater_output_kbtuh"], *r["tank_temps_f"]]
    want = alone()
    for pick in combinations(range(8), 4):
        b, s, _ = mk(plant)
        _, t, _ = mk(plant)
        c = building(1500.0)
        s.storage_tank.initialize(s.storage_temp_f, 50.0, 0.5)
        t.storage_tank.initialize(t.storage_temp_f, 42.0, 0.9)
        got, j = [], 0
        for k in range(8):
            if k in pick:
                got += [tuple(rep(s.simulate_step(b, i, 10))) for i in range(len(got), len(got) + 12)]
            else:
                for i in range(j, j + 12):
                    t.simulate_step(c, i + 300, 10)
                j += 12
        ctx.check(got == want, "two plants stepped alternately influence each other", plant=plant, schedule=pick)
        ctx.states += 1; ctx.transitions += 96
        ctx.outcome(pick)


def engine(schematic, shift, presized):
    kw = dict(gpdpp=25.0)
    if schematic not in ("primary_no_recirc", "instant_wh"):
        kw.update(return_temp_f=112.0, return_flow_gpm=3.0)
    if shift:
        kw.update(load_shift_schedule=[1] * 16 + [0] * 4 + [1] * 4, load_up_hours=2, shed_aquastat_fract=0.8, load_up_aquastat_fract=0.3, aquastat_fract=0.5, load_shift_percent=0.9)
    if presized:
        kw.update(storage_volume_storageT_gal=700.0, heating_capacity_kbtuh=160.0, num_heaters=2, tm_storage_vol=100.0, tm_capacity_kbtuh=20.0)
    return EcosizerEngine("multi_family", 60, 19, 120.0, 140.0 if schematic == "multi_pass_rtp" else 150.0, schematic, **kw)


def sub_engine(ctx, schematic, shift, presized, full):
    def call(e, op):
        if op == "results":
            return e.get_sizing_results()
        if op == "sim":
            return record(e.simulate_3day())
        if op == "summary":
            return e.get_simulation_summary(e.simulate_3day())
        if op == "magnitude":
            return e.get_hw_magnitude()
        if op == "curve":
            try:
                return e.plot_sizing_curve(return_with_x_y_points=True)[1:]
            except (ValueError, IndexError, NotImplementedError, AttributeError, RuntimeError) as x:
                return type(x).__name__
        if op == "build":
            e.build()
            return None
        if op == "plot":
            e.plot_simulation()
    ops = ["results", "sim", "summary", "magnitude", "curve", "build", "plot"]
    if schematic == "multi_pass_rtp" and not presized and shift:
        return
    if schematic == "instant_wh" or presized:
        ops.remove("curve")
    fresh = {o: call(engine(schematic, shift, presized), o) for o in ("results", "sim", "magnitude")}
    mp = schematic == "multi_pass_rtp"
    pairs = ops if full else [o for o in ("sim", "curve", "build") if o in ops]
    if mp:
        pairs = ["sim"]
    base = engine(schematic, shift, presized)
    for h in [()] + [(o,) for o in ops if not mp or full or o != "plot"] + list(product(pairs, repeat=2)):
        e = copy.deepcopy(base)
        for o in h:
            call(e, o)
            ctx.transitions += 1
        info = dict(history=h, schematic=schematic, shift=shift, presized=presized)
        same(ctx, call(e, "sim"), fresh["sim"], "a facade simulation depends on earlier calls", **info)
        r = call(e, "results")
        ctx.check(set(r) == set(fresh["results"]) and all(r[k] == v or r[k] is not None and v is not None and abs(r[k] - v) <= 1e-9 * abs(v) for k, v in fresh["results"].items()), "sizing results depend on earlier calls", got=r, want=fresh["results"], **info)
        ctx.check(call(e, "magnitude") == fresh["magnitude"], "building magnitude depends on earlier calls", **info)
        ctx.states += 1
    ctx.outcome(fresh["sim"]["summary"])


def setting(k, s, b):
    """building to simulate on, after changing the plant as setting k says"""
    modes = {"normal": Controls(0.5, 120.0, 0.2, 145.0, 150.0)}
    sched = ["normal"] * 24
    if k == 1:
        modes["normal"] = Controls(0.7, 119.0, 0.3, 130.0, 145.0)
    if k == 2:
        modes["shed"] = Controls(0.8, 118.0, 0.6, 128.0, 138.0)
        sched = ["normal"] * 15 + ["shed"] * 5 + ["normal"] * 4
    for h in s.water_heaters:
        h.control_schedule, h.control_map = sched, modes
    s.supply_temp_f = 122.0 if k == 3 else 120.0
    if k == 4:
        return building(400.0, peak=AVG, avg=PEAK, oat=10.0, inlet=61.0)
    if k == 5:
        from ecoengine.objects.building.Building import Building as B
        return B.from_building_type("motel", 40, ClimateZone.from_zone_id(77))
    return b


def sub_changes(ctx, plant, q):
    """A plant whose controls, supply temperature or building are changed between runs runs like a new plant with those settings."""
    want = {}
    for k in range(6):
        b, s, _ = mk(plant)
        want[k] = record(Simulator.simulate(s, setting(k, s, b), "3day"))
        ctx.outcome(want[k]["summary"])
    for a, c in product(range(6), repeat=2):
        b, s, _ = mk(plant)
        for k in (a, c):
            same(ctx, record(Simulator.simulate(s, setting(k, s, b), "3day")), want[k], "a run depends on the settings of an earlier run", plant=plant, settings=[a, c], now=k)
            ctx.transitions += 1
        ctx.states += 1
        ctx.traces += 1
