"""Simulated steps: every system type takes every sequence of timesteps up to the depth bound (any hour
order, several step lengths, several starting charges), and complete multi-day traces, in lock-step with a
reference model of aquastats, heating, drawing and loop losses."""
from itertools import product
from mc.sysexp import *

BOUNDS = dict(sequences="all sequences of timesteps (6-8 hour/step-length choices) up to depth 5 (quick) / 7 (thorough), from 2-3 starting charges",
              traces="every step of 1-3 day runs at 1, 5 and 10 minutes, constant design conditions and seasonal zones",
              systems="storage only, single-pass return-to-primary, multi-pass return-to-primary, parallel loop, swing tank, instantaneous",
              heaters="1-3 heaters, nominal / temperature-dependent / without power data, normal, load-up and shed schedules")
ASSUMPTIONS = ["step lengths divide an hour", "heater decisions within 2e-3 F (mixed tanks 1e-4 F, slug tanks 0.02 F) of a trigger are left to the implementation"]
SUP, STO, RET, GPM = 120.0, 150.0, 112.0, 3.0
NORMAL = dict(normal=(0.5, 118.0, 0.3, 125.0, 150.0))
LS = dict(normal=(0.6, 118.0, 0.3, 125.0, 150.0), loadUp=(0.4, 118.0, 0.2, 130.0, 155.0), shed=(0.85, 115.0, 0.7, 122.0, 145.0))
LS_SCHED = ["normal"] * 4 + ["loadUp"] * 2 + ["shed"] * 3 + ["normal"] * 8 + ["shed"] * 4 + ["normal"] * 3
FLAT = ["normal"] * 24
TWO = dict(normal=(0.35, 110.0, 0.1, 128.0, 140.0))
CONFIGS = dict(
    one=[(FLAT, NORMAL, 80.0, "nominal")],
    shift=[(LS_SCHED, LS, 90.0, "lin")],
    two=[(FLAT, NORMAL, 45.0, "lin"), (FLAT, TWO, 60.0, "nominal")],
    three=[(FLAT, NORMAL, 25.0, "lin"), (FLAT, TWO, 30.0, "nominal"), (FLAT, dict(normal=(0.45, 116.0, 0.2, 130.0, 158.0)), 28.0, "lin")],
    mixed=[(LS_SCHED, LS, 50.0, "lin_nopower"), (FLAT, NORMAL, 40.0, "lin")],
)
SYSTEMS = ["storage", "sprtp", "parallel", "swing", "mprtp"]
MP = dict(normal=(0.4, 119.0, 0.3, 134.0, 140.0))
MP2 = dict(normal=(0.6, 121.0, 0.5, 132.0, 140.0))
MP_CONFIGS = dict(one=[(FLAT, MP, 70.0, "nominal")], two=[(FLAT, MP, 40.0, "lin"), (FLAT, MP2, 40.0, "lin")],
                  tepid=[(["normal", "normal", "tepid"] * 8, dict(MP, tepid=(0.4, 100.0, 0.3, 108.0, 140.0)), 70.0, "lin")])


def make(kind, cfg, V=300.0, slope=2.8):
    pairs = [heater(*c) for c in (MP_CONFIGS if kind == "mprtp" else CONFIGS)[cfg]]
    hs, rs = [p[0] for p in pairs], [p[1] for p in pairs]
    if kind == "mprtp":
        t = SlugOverlayTank(V, 48.0, 140.0, SUP, 0.9, 0.8)
        return (MultiPassRTPSystem(hs, t, SUP, 140.0, RET, GPM), S.RefMPRTP(T.RefSlug(V, 48.0, 140.0, SUP, 0.9, 0.8), rs, SUP, 140.0, RET, GPM))
    st, rt = StratifiedTank(V, slope), T.RefStrat(V, slope)
    if kind == "storage":
        return DHWSystem(hs, st, SUP, STO), S.RefSystem(rt, rs, SUP, STO)
    if kind == "sprtp":
        return SinglePassRTPSystem(hs, st, SUP, STO, RET, GPM), S.RefSPRTP(rt, rs, SUP, STO, RET, GPM)
    if kind == "parallel":
        th, tr = heater(FLAT, dict(normal=(0.5, 117.0, 0.5, 127.0, 127.0)), 9.0, "lin")
        s = ParallelLoopSystem(hs, st, SUP, STO, RET, GPM, tm_on_temp_f=117.0, tm_off_temp_f=127.0, tm_storage_tank=MixedStorageTank(120.0), tm_water_heater=th, num_tm_heaters=2)
        return s, S.RefParallel(rt, rs, SUP, STO, RET, GPM, T.RefMixed(120.0), tr, 2, 117.0, 127.0)
    if kind == "swing":
        th, tr = heater(FLAT, dict(normal=(0.5, SUP, 0.5, SUP + 8, SUP + 8)), 16.0, "nominal")
        s = SwingSystem(hs, st, SUP, STO, RET, GPM)
        s.tm_storage_tank, s.tm_water_heater = MixedStorageTank(80.0), th
        return s, S.RefSwing(rt, rs, SUP, STO, RET, GPM, T.RefMixed(80.0), tr)


def cases(tier):
    D = 5 if tier == "quick" else 7
    for kind in SYSTEMS:
        for cfg in (MP_CONFIGS if kind == "mprtp" else CONFIGS):
            for u in (0.9, 0.55, 0.15):
                yield "sequences", dict(kind=kind, cfg=cfg, useable=u, depth=D)
    for kind in SYSTEMS:
        for cfg in (MP_CONFIGS if kind == "mprtp" else CONFIGS):
            for dt, days, start, zone in ((1, 1, 0, None), (10, 3, 0, None), (10, 2, 57, 1), (5, 2, 180, 20)) + (((1, 3, 0, None), (10, 365, 0, 7)) if tier == "thorough" else ()):
                yield "trace", dict(kind=kind, cfg=cfg, dt=dt, days=days, start=start, zone=zone)
    for zone in (None, 1, 50):
        yield "instant", dict(zone=zone)
    for kind in SYSTEMS:
        yield "early", dict(kind=kind)
        for cfg in ("one", "two"):
            yield "buildings", dict(kind=kind, cfg=cfg, depth=D)
        for month in range(1, 12):
            yield "turn", dict(kind=kind, month=month, q=tier == "quick")


def start(kind, real, ref, useable, cold):
    tm = 121.0 if kind == "swing" else 118.0 if kind == "parallel" else None
    init(real, ref, 140.0 if kind == "mprtp" else STO, cold, useable, tm)


def sub_sequences(ctx, kind, cfg, useable, depth):
    b = building(600.0, zone=None)
    real, ref = make(kind, cfg)
    start(kind, real, ref, useable, 48.0)
    # one choice per scheduled mode and demand level, several step lengths
    alphabet = [(3 * 60 + 7, 1), (7 * 6 + 1, 10), (5 * 12, 5), (19 * 6, 10), (14 * 4, 15), (8, 60)]
    kw = dict(tol_t=0.1, tol_v=2e-2) if kind == "mprtp" else {}
    explore(ctx, real, ref, b, alphabet, depth, **kw)


def sub_buildings(ctx, kind, cfg, depth):
    """Steps for different buildings and climates in any order: each step serves the building it is given."""
    bs = [building(600.0), building(950.0, peak=PEAK[5:] + PEAK[:5], oat=60.0, inlet=57.0), building(600.0, zone=7)]
    real, ref = make(kind, cfg)
    start(kind, real, ref, 0.7, 48.0)
    alphabet = [(3 * 60 + 7, 1, 0), (3 * 60 + 7, 1, 1), (3 * 60 + 8, 1, 2), (7 * 6 + 1, 10, 0), (7 * 6 + 1, 10, 1), (7 * 6 + 1, 10, 2)]
    kw = dict(tol_t=0.1, tol_v=2e-2) if kind == "mprtp" else {}
    explore(ctx, real, ref, bs, alphabet, depth - 1, **kw)


def sub_trace(ctx, kind, cfg, dt, days, start, zone):
    b = building(600.0, zone=zone)
    real, ref = make(kind, cfg)
    globals()["start"](kind, real, ref, 0.5, 48.0)
    kw = dict(tol_t=0.3, tol_v=5e-2) if kind == "mprtp" else dict(tol_t=0.02, tol_v=5e-3)
    n = 24 * 60 // dt
    for k in range(days * n):
        i = start * n + k
        got, want = one(ctx, real, ref, b, i, dt, dict(step=i, dt=dt), **kw)
        ctx.states += 1
        if k % 7 == 0:
            ctx.outcome(want["usable_volume_supplyT_gal"], want["heater_output_kbtuh"])


def sub_turn(ctx, kind, month, q):
    """The turn of a month: the new inlet temperature reaches every plant in every state of its heaters."""
    day = sum((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[:month])
    for cfg in (MP_CONFIGS if kind == "mprtp" else CONFIGS):
        for zone, u, on, dt in product((1, 20), (0.9, 0.5, 0.3), (False, True), (10,) if q else (1, 10)):
            b = building(900.0, zone=zone)
            real, ref = make(kind, cfg)
            i0 = (day * 1440 - 60) // dt
            start(kind, real, ref, u, b.get_inlet_water_temp_f(i0, dt))
            if on and kind != "mprtp":
                for h, r in zip(real.water_heaters, ref.heaters):
                    h.turn_on(); r.on = True
            kw = dict(tol_t=0.3, tol_v=5e-2) if kind == "mprtp" else dict(tol_t=0.02, tol_v=5e-3)
            for k in range(240 // dt if dt > 1 else 120):
                got, want = one(ctx, real, ref, b, i0 + k, dt, dict(step=i0 + k, dt=dt, zone=zone, useable=u, cfg=cfg, on=on), **kw)
                ctx.states += 1
            ctx.outcome(want["usable_volume_supplyT_gal"])


def sub_instant(ctx, zone):
    b = building(600.0, zone=zone)
    s = InstantWHSystem.from_size(b, SUP, STO, defrost_factor=0.9)
    for dt in (1, 5, 10, 60):
        n = 60 * 24 // dt
        for i in list(range(2 * n)) + list(range(200 * n, 201 * n)):
            r = s.simulate_step(b, i, dt)
            ctx.transitions += 1; ctx.states += 1
            d, oat, inlet = b.get_dhw_load_supplyT_gal(i, dt), b.get_oat_f(i, dt), b.get_inlet_water_temp_f(i, dt)
            cap = d * 60 / dt * T.RHO_CP * (SUP - inlet) / 0.9 / 1000
            ctx.outcome(cap)
            ctx.close(r["demand_supplyT_gal"], d, "demand"); ctx.close(r["heater_output_kbtuh"], cap, "instant output meets the demand of the step", i=i, dt=dt)
            ctx.close(r["heater_power_in_kw"], cap / S.KW, "instant power is output at COP 1", i=i)
            ctx.close(r["oat_f"], oat, "oat"); ctx.close(r["inlet_water_temp_f"], inlet, "inlet")
            ctx.check(cap <= s.get_minimum_capacity_kbtuh() * (1 + 1e-9), "sized instantaneous capacity does not cover a step", cap=cap)


def sub_early(ctx, kind):
    """Undersized systems: the same step rules hold while the tank runs empty."""
    b = building(6000.0)
    for V, u in ((60.0, 0.9), (150.0, 0.3)):
        real, ref = make(kind, "one", V=V)
        start(kind, real, ref, u, 48.0)
        kw = dict(tol_t=0.3, tol_v=5e-2) if kind == "mprtp" else dict(tol_t=0.02, tol_v=5e-3)
        for i in range(360, 720):
            if kind == "mprtp" and abs(ref.tank.temp(1.0) - SUP) < 1.0 or kind == "mprtp" and ref.tank.temp(1.0) < 60:
                break
            got, _ = one(ctx, real, ref, b, i, 1, dict(step=i, V=V), **kw)
            ctx.states += 1
            ctx.check(real.check_for_outage(got["demand_supplyT_gal"]) == (real.storage_tank.get_usable_volume_supplyT_gal(SUP) <= 0.0), "an outage is exactly a store without usable water", step=i, V=V)
    if kind in ("storage", "parallel", "swing"):       # steps that ask for more than the tanks hold
        for V, u, dt, daily in product((60.0, 400.0), (0.9, 0.4), (15, 60), (2500.0, 12000.0)):
            b2 = building(daily)
            real, ref = make(kind, "one", V=V)
            start(kind, real, ref, u, 48.0)
            for i in range(24 * 60 // dt):
                one(ctx, real, ref, b2, i, dt, dict(step=i, V=V, dt=dt, daily=daily), tol_t=0.02, tol_v=5e-3)
                ctx.states += 1
    if kind == "storage":       # a plant without a store takes its heaters' say, delivers nothing and reports the conditions of the step
        for dt, i in product((1, 10, 60), (0, 7, 23)):
            bare = DHWSystem([], None, SUP, STO)
            r = bare.simulate_step(b, i, dt)
            ctx.transitions += 1
            ctx.check((r["heater_output_kbtuh"], r["usable_volume_supplyT_gal"], bare.check_for_outage(1.0)) == (0.0, 0.0, False), "a plant without a store heats and holds nothing", got=r)
            ctx.close(r["demand_supplyT_gal"], b.get_dhw_load_supplyT_gal(i, dt), "demand of a plant without a store")
            ctx.close(r["oat_f"], b.get_oat_f(i, dt), "outdoor temperature"); ctx.close(r["inlet_water_temp_f"], b.get_inlet_water_temp_f(i, dt), "inlet temperature")
