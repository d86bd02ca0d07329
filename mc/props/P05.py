"""Temperature-maintenance equipment: sized from the loop loss (and, for swing tanks, the peak draw) onto the
published tank sizes, refused when it cannot work, and able to hold the loop when the plant it built is run."""
from itertools import product
from mc.sysexp import *
from mc.models.sizing import SWING_TABLE, SWING_TABLE_CA, RHO, KBTUH_PER_KW
from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem

BOUNDS = dict(swing="required volume just below, at and just above every published tank size, driven by loop loss and by peak draw, and beyond the largest",
              parallel="loop flows x return temperatures x triggers x coast times x safety factors x heater counts, and the complete refusal grid",
              holding="complete idle cycles (8 h of minutes) of the built plant from every starting temperature on the grid")
ASSUMPTIONS = ["holding is claimed for on-triggers at or below supply temperature and, as sized, loop return at the design return temperature"]


def loss(flow, sup, ret):
    return flow * 60.0 * RHO * (sup - ret) / 1000.0


def cases(tier):
    q = tier == "quick"
    for i in range(len(SWING_TABLE) + 1):
        yield "table", dict(i=i, q=q)
    for sup in (110.0, 120.0, 140.0):
        for off in (0.2, 0.35, 0.5, 0.8, 1.0):
            yield "parallel", dict(sup=sup, off_time=off)
    yield "refusals", {}
    for flow in (0.5, 2.0, 6.0) if q else (0.5, 1.0, 2.0, 4.0, 6.0, 12.0):
        for dr in (4.0, 10.0):
            yield "hold_parallel", dict(flow=flow, drop=dr, q=q)
            yield "hold_swing", dict(flow=flow, drop=dr, q=q)
    yield "losses", {}
    yield "again", {}


def sub_losses(ctx):
    b = building()
    for flow, sup, dr in product((0.0, 0.3, 2.0, 17.5), (110.0, 120.0, 135.0), (0.0, 1.0, 8.0, 30.0)):
        for s in (SwingSystem([], None, sup, 150.0, sup - dr, flow), ParallelLoopSystem([], None, sup, 150.0, sup - dr, flow, sup, sup + 8),
                  SinglePassRTPSystem([], None, sup, 150.0, sup - dr, flow), MultiPassRTPSystem([], None, sup, 150.0, sup - dr, flow)):
            ctx.states += 1
            ctx.close(s.get_recirc_loss_kbtuh(), loss(flow, sup, sup - dr), "loop loss is flow x temperature drop", flow=flow, sup=sup, drop=dr)
            if hasattr(s, "get_daily_recirc_loss_kbtu"):
                ctx.close(s.get_daily_recirc_loss_kbtu(), 24 * loss(flow, sup, sup - dr), "daily loop loss", flow=flow)
        for hr, df in ((10.0, 1.0), (16.0, 0.8), (24.0, 0.9)):
            s = SinglePassRTPSystem.from_size(b, sup, 150.0, sup - dr, flow, max_daily_run_hr=hr, defrost_factor=df)
            ctx.transitions += 1
            ctx.close(s.get_recirc_capacity_kbtuh(), loss(flow, sup, sup - dr) * 24 / hr / df, "loop share of the capacity of a return-to-primary plant", run_hours=hr, defrost=df)


def tables(need):
    if need > SWING_TABLE[-1]:
        return None
    v = min(x for x in SWING_TABLE if x >= need)
    return v, (min(x for x in SWING_TABLE_CA if x >= need) if v < 480 else 480)


def sub_table(ctx, i, q):
    edge = SWING_TABLE[i - 1] if i else 5.0
    for f, sup, dr, saf in product((0.5, 0.97, 1 - 1e-9, 1 + 1e-9, 1.03), (115.0, 120.0), (5.0, 12.0), (1.05, 1.2, 2.0)):
        need = edge * f
        for by, extra in product(("loss", "draw", "both"), (0.4, 0.99)):
            nl = need if by in ("loss", "both") else need * extra
            nd = need if by == "draw" else need * extra if by == "both" else 0.2 * need * extra
            flow = nl * 100 * KBTUH_PER_KW / 1000.0 / loss(1.0, sup, sup - dr)
            daily = nd * 60.0 / max(PEAK)
            want = tables(max(nl, nd))
            tight = bool(want) and nd > 0.9 * want[0]  # the peak minute nearly empties the tank: sizing may be refused for that
            b = building(daily)
            info = dict(required=need, driven_by=by, sup=sup, drop=dr, safety=saf)
            s = SwingSystem([], None, sup, 150.0, sup - dr, flow, tm_safety_factor=saf)
            ctx.states += 1
            ctx.transitions += 1
            try:
                s.size(b)
                got = True
            except ValueError:
                got = False
            if want is None:
                ctx.check(not got, "a loop too large for the largest swing tank is refused", **info)
                continue
            if not got:
                ctx.check(tight, "a loop within the published tank sizes is not refused", **info)
                continue
            ctx.check(s.get_minimum_tm_volume_gal() == want[0], "swing tank is the smallest published size that holds the loop loss and the peak minute", got=s.get_minimum_tm_volume_gal(), want=want[0], **info)
            ctx.check(s.get_minimum_tm_ca_volume_gal() == want[1], "California swing tank size", got=s.get_minimum_tm_ca_volume_gal(), want=want[1], **info)
            ctx.close(s.get_minimum_tm_capacity_kbtuh(), saf * loss(flow, sup, sup - dr), "swing element is the loop loss times its safety factor", **info)
            ctx.outcome(want)


def accept(off_time, saf, band):
    return saf > 1 and 0 < off_time <= 1 and band > 0 and off_time / (saf - 1) > 1 / 3


def sub_parallel(ctx, sup, off_time):
    b = building(300.0)
    for flow, dr, on, band, saf, n in product((0.4, 3.0, 11.0), (3.0, 15.0), (-8.0, 0.0, 5.0), (2.0, 8.0, 25.0), (1.1, 1.4, 1.75, 2.2), (1, 2, 3)):
        runtime = off_time / (saf - 1)
        if abs(runtime - 1 / 3) < 1e-9:
            continue
        info = dict(sup=sup, off_time=off_time, flow=flow, drop=dr, on=sup + on, band=band, safety=saf, heaters=n)
        mk = lambda: ParallelLoopSystem.from_size(b, sup, 150.0, sup - dr, flow, sup + on, sup + on + band, tm_off_time_hr=off_time, tm_safety_factor=saf, num_tm_heaters=n)
        ctx.states += 1
        ctx.transitions += 1
        if not accept(off_time, saf, band):
            try:
                mk()
            except ValueError:
                ctx.check(True, "")
                continue
            ctx.fail("a loop heater that would short-cycle is refused", **info)
            continue
        s = mk()
        l = loss(flow, sup, sup - dr)
        vol = l * 1000.0 * off_time / (RHO * band)
        ctx.close(s.get_minimum_tm_volume_gal(), vol, "loop tank coasts through the off time within its triggers", rtol=1e-9, **info)
        ctx.close(s.get_minimum_tm_capacity_kbtuh(), saf * l, "loop heater is the loop loss times its safety factor", rtol=1e-9, **info)
        ctx.close(s.tm_storage_tank.total_volume_gal, vol, "the loop tank that is built is the sized one", rtol=1e-9, **info)
        ctx.close(s.tm_water_heater.performance_map.get_capacity_kbtuh(30.0, 120.0, 100.0) * s.num_tm_heaters, saf * l, "the loop heaters that are built add up to the sized capacity", rtol=1e-9, **info)
        ctx.outcome(vol, saf * l)


def sub_refusals(ctx):
    b = building()
    for off_time, saf, band in product((-0.5, 0.0, 0.1, 0.3, 0.5, 1.0, 1.01, 2.0), (0.5, 1.0, 1.001, 1.2, 1.8, 2.4, 4.5), (-5.0, 0.0, 0.5, 10.0)):
        if saf > 1 and off_time > 0 and abs(off_time / (saf - 1) - 1 / 3) < 1e-9:
            continue
        s = ParallelLoopSystem([], None, 120.0, 150.0, 110.0, 3.0, 120.0, 120.0 + band, tm_off_time_hr=off_time, tm_safety_factor=saf)
        ok = accept(off_time, saf, band)
        ctx.states += 1
        ctx.transitions += 1
        try:
            s.size(b)
            got = True
        except ValueError:
            got = False
        ctx.check(got == ok, "loop-tank settings are accepted exactly when safety > 1, 0 < off time <= 1 h, off above on, and run time above 20 minutes", off_time=off_time, safety=saf, band=band, accepted=got)
    for saf, cls, how in product((-1.0, 0.0, 0.5, 0.999, 1.0, 1.001, 1.2, 3.0), (SwingSystem, SwingERTrdOffSystem), ("parts", "size")):
        ctx.states += 1
        ctx.transitions += 1
        try:
            if how == "parts":
                cls([], None, 120.0, 150.0, 110.0, 3.0, tm_safety_factor=saf)
            else:
                cls.from_size(b, 120.0, 150.0, 110.0, 3.0, tm_safety_factor=saf)
            got = True
        except ValueError:
            got = False
        ctx.check(got == (saf > 1), "a swing element is accepted exactly when its safety factor is above 1", safety=saf, accepted=got, how=how)
    for cls, args in ((SwingSystem, (120.0, 150.0, 110.0, 3.0)), (SwingERTrdOffSystem, (120.0, 150.0, 110.0, 3.0)), (ParallelLoopSystem, (120.0, 150.0, 110.0, 3.0, 120.0, 128.0))):
        s = cls([], None, *args)
        for g in ("get_minimum_tm_volume_gal", "get_minimum_tm_capacity_kbtuh", "get_minimum_tm_ca_volume_gal", "get_er_capacity_kbtuh"):
            if hasattr(s, g):
                ctx.states += 1
                try:
                    getattr(s, g)()
                except RuntimeError:
                    ctx.check(True, "")
                    continue
                ctx.fail("temperature-maintenance results are refused before sizing", query=g)


def run_idle(ctx, s, t0, dt, hold, top, **info):
    """Idle building: the loop runs, nobody draws."""
    idle = building(0.0)
    s.storage_tank.initialize(150.0, 48.0, 1.0)
    s.tm_storage_tank.initialize(t0, 48.0, 1.0)
    for h in s.water_heaters + [s.tm_water_heater]:
        h.turn_off()
    temps = []
    for i in range(8 * 60 // dt):
        r = s.simulate_step(idle, i, dt)
        temps.append(r["tm_tank_temp_f"])
        ctx.transitions += 1
    ctx.states += 1
    ctx.check(min(temps) >= min(t0, hold) - 1e-9, "the sized loop heater holds the idle loop at its on-trigger", lowest=min(temps), floor=hold, **info)
    ctx.check(max(temps) <= max(t0, top) + 1e-6, "the loop heater stops at its off-trigger", highest=max(temps), **info)
    ctx.outcome(min(temps), max(temps))
    return temps


def sub_hold_parallel(ctx, flow, drop, q):
    b = building(400.0)
    sup = 120.0
    for on, band, saf, off_time, n, dt in product((-3.0, 0.0), (5.0, 12.0), (1.1, 1.5, 1.75), (0.5, 1.0), (1, 3), (1, 5)):
        if not accept(off_time, saf, band) or sup + on <= sup - drop:
            continue
        s = ParallelLoopSystem.from_size(b, sup, 150.0, sup - drop, flow, sup + on, sup + on + band, tm_off_time_hr=off_time, tm_safety_factor=saf, num_tm_heaters=n,
                                         control_schedule=["normal"] * 24, control_map=dict(normal=Controls(0.5, 118.0, 0.3, 140.0, 150.0)))
        vol = s.get_minimum_tm_volume_gal()
        share = min(1.0, flow * dt / vol)
        hold = (sup + on) - share * (sup + on - (sup - drop))
        for t0 in (sup + on, sup + on + band / 2, sup + on + band):
            run_idle(ctx, s, t0, dt, hold, sup + on + band + saf * loss(flow, sup, sup - drop) * 1000 * dt / 60 / (RHO * vol), on=sup + on, band=band, safety=saf,
                     off_time=off_time, heaters=n, step=dt, start=t0, flow=flow, drop=drop)


def sub_hold_swing(ctx, flow, drop, q):
    sup = 120.0
    for daily, saf, dt, cls in product((100.0, 900.0), (1.05, 1.2, 1.75), (1, 5), (SwingSystem, SwingERTrdOffSystem)):
        b = building(daily)
        try:
            s = cls.from_size(b, sup, 150.0, sup - drop, flow, tm_safety_factor=saf, control_schedule=["normal"] * 24, control_map=dict(normal=Controls(0.5, 118.0, 0.3, 140.0, 150.0)))
        except ValueError:
            continue
        vol = s.get_minimum_tm_volume_gal()
        fall = loss(flow, sup, sup - drop) * 1000 * dt / 60 / (RHO * vol)
        for t0 in (sup, sup + 4.0, sup + 8.0):
            run_idle(ctx, s, t0, dt, sup - fall * 1.0001, sup + 8 + s.get_minimum_tm_capacity_kbtuh() * 1000 * dt / 60 / (RHO * vol), safety=saf, daily=daily, step=dt, start=t0, flow=flow, drop=drop)


def sub_again(ctx):
    """A plant whose loop, triggers or safety are changed and which is sized again has the equipment of the new loop."""
    alt = [dict(), dict(return_flow_gpm=6.0), dict(return_temp_f=108.0), dict(tm_safety_factor=1.5), dict(tm_off_time_hr=0.8), dict(tm_off_temp_f=134.0)]
    base = dict(return_flow_gpm=3.0, return_temp_f=112.0, tm_safety_factor=1.3, tm_off_time_hr=0.5, tm_off_temp_f=130.0)
    for kind, seq in product(("parallel", "swing", "er"), product(range(len(alt)), repeat=2)):
        b = building(300.0)
        g = dict(tm_safety_factor=base["tm_safety_factor"])
        if kind == "parallel":
            s = ParallelLoopSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, 120.0, 130.0, tm_off_time_hr=0.5, **g)
        elif kind == "swing":
            s = SwingSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, **g)
        else:
            s = SwingERTrdOffSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, **g)
        for k in seq:
            c = dict(base, **alt[k])
            for a, v in c.items():
                if kind == "parallel" or a not in ("tm_off_time_hr", "tm_off_temp_f"):
                    setattr(s, a, v)
            s.size(b)
            l = loss(c["return_flow_gpm"], 120.0, c["return_temp_f"])
            info = dict(kind=kind, changes=[alt[j] for j in seq], now=alt[k])
            ctx.states += 1
            ctx.transitions += 1
            if kind == "parallel":
                ctx.close(s.get_minimum_tm_volume_gal(), l * 1000.0 * c["tm_off_time_hr"] / (RHO * (c["tm_off_temp_f"] - 120.0)), "loop tank after the loop was changed", rtol=1e-9, **info)
            else:
                need = max(l * 1000.0 / (100 * KBTUH_PER_KW), 300.0 * max(PEAK) / 60.0)
                v = tables(need)
                ctx.check((s.get_minimum_tm_volume_gal(), s.get_minimum_tm_ca_volume_gal()) == v, "swing tank after the loop was changed", want=v, **info)
            er = s.get_er_capacity_kbtuh() if kind == "er" else 0.0
            ctx.close(s.get_minimum_tm_capacity_kbtuh() - er, c["tm_safety_factor"] * l, "loop heater after the loop was changed", rtol=1e-9, **info)
            ctx.outcome(kind, s.get_minimum_tm_volume_gal())
