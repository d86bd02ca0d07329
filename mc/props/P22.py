"""Swing tanks with electric-resistance back-up: the element is sized for the worst one-minute shortfall of two
design days, replayed minute by minute with the primary store starting empty and starting full."""
from itertools import product
from mc.sysexp import *
from mc.models.sizing import Plant, RHO, KBTUH_PER_KW
from mc.props.P01 import blocks, pulses, ctl
from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem

BOUNDS = dict(plants="12 load shapes x run hours 12-24 x loops x temperatures, sized from scratch",
              undersized="pre-built plants with 20-120 % of the sized heater, 30-150 % of the sized store, one or several heaters, nominal and temperature-dependent",
              points="all trade-off points of every plant that needs the element, several safety factors, figures")
ASSUMPTIONS = ["the swing tank's volume exceeds the largest one-minute draw (otherwise sizing is refused, which is checked)"]

SHAPES = [PEAK] + [blocks(v) for v in ((1, 1, 6, 1, 1, 4), (0, 3, 1, 5, 1, 0), (2, 2, 2, 1, 1, 1), (0, 0, 9, 1, 0, 0), (4, 1, 1, 1, 1, 4))] + \
         [pulses(*p) for p in ((0, 1, 12, 5), (23, 1, 7, 1), (6, 3, 18, 5), (22, 3, 3, 1))]


class Undersized(Exception):
    pass


def shortfall(daily, peak, hr, sup, sto, inlet, loss, cap, store, tmv, tmcap):
    """Largest number of degrees the swing tank would fall below supply within one minute."""
    gen = cap * 1000.0 / (RHO * (sto - inlet)) / 60.0
    over = [p > 1.0 / hr for p in peak]
    starts = [h for h in range(24) if over[h] and not over[h - 1]]
    s0 = starts[0] if starts else 0
    drop = loss * 1000.0 / 60.0 / (RHO * tmv)
    rise = tmcap * 1000.0 / 60.0 / (RHO * tmv)
    worst = 0.0
    for level in (0.0, store):
        t, on = sup, False
        for m in range(48 * 60):
            d = daily * peak[(s0 + m // 60) % 24] / 60.0
            q = d * (sup - inlet) / (t - inlet)
            hot = level + gen
            feed = inlet if q <= 0 or hot <= 0 else inlet + (sto - inlet) * min(1.0, hot / q)
            level = min(max(level + gen - q, 0.0), store)
            if q >= tmv:
                raise Undersized()
            t += q / tmv * (feed - t)
            t -= drop
            if on:
                t += rise
                if t > sup + 8.0:
                    t = max(sup + 8.0, t - rise)
                    on = False
            elif t <= sup:
                t = min(sup, t + rise)
                on = True
            if t < sup:
                worst = max(worst, sup - t)
                t = sup
    return worst


def element(tmv, deficit, safety):
    return tmv * RHO * 60.0 * deficit / 1000.0 * safety


def cases(tier):
    q = tier == "quick"
    for i in range(len(SHAPES)):
        for hr in (12.0, 16.0, 20.0, 24.0):
            yield "sized", dict(shape=i, hr=hr, q=q)
        yield "undersized", dict(shape=i, q=q)
    for i in (0, 1, 4, 6, 8):
        yield "points", dict(shape=i, q=q)
    yield "refuse", {}
    for i in (0, 1, 4, 8):
        yield "again", dict(shape=i)


LOOPS = [(3.0, 112.0, 120.0, 150.0, 48.0), (1.0, 105.0, 120.0, 135.0, 40.0), (6.0, 115.0, 125.0, 165.0, 60.0), (0.4, 117.0, 120.0, 150.0, 48.0)]


def judge(ctx, s, base, tmv, d, saf, **info):
    er = element(tmv, d, saf)
    ctx.close(s.get_er_capacity_kbtuh(), er, "the element closes the worst one-minute shortfall of the design days", rtol=1e-6, atol=1e-6, **info)
    ctx.close(s.get_er_capacity_kw(), er / KBTUH_PER_KW, "element capacity in kW", rtol=1e-6, atol=1e-6, **info)
    ctx.close(s.get_minimum_tm_capacity_kbtuh(), base + er, "swing heating is the loop's element plus the back-up", rtol=1e-6, atol=1e-6, **info)
    ctx.close(s.tm_water_heater.performance_map.get_capacity_kbtuh(30.0, 120.0, 100.0), base + er, "the swing heater that is built has the total capacity", rtol=1e-6, atol=1e-6, **info)
    ctx.outcome(er)


def sub_sized(ctx, shape, hr, q):
    peak = SHAPES[shape]
    for (flow, ret, sup, sto, inlet), daily, saf, ersaf, df in product(LOOPS, (40.0, 300.0, 2000.0), (1.2, 1.75), (1.0, 1.3), (1.0, 0.9)):
        if q and (saf == 1.75) != (ersaf == 1.3) or (q and (df == 0.9) != (daily == 2000.0)):
            continue
        info = dict(shape=shape, run_hours=hr, flow=flow, sup=sup, sto=sto, daily=daily, safety=saf, er_safety=ersaf)
        ref = Plant(daily, peak, AVG, inlet, sup, sto, hr, df, 2.8, None, None, 1.0, "swing", flow, ret, saf)
        try:
            w = ref.size()
            d = shortfall(daily, peak, hr, sup, sto, inlet, ref.loss, w["capacity"], w["storage"], w["tm_volume"], w["tm_capacity"])
        except (ValueError, Undersized):
            w = None
        b = building(daily, peak, inlet=inlet)
        ctx.states += 1
        ctx.transitions += 2880 * 2
        try:
            s = SwingERTrdOffSystem.from_size(b, sup, sto, ret, flow, tm_safety_factor=saf, er_safety_factor=ersaf, max_daily_run_hr=hr, defrost_factor=df)
        except ValueError:
            ctx.check(w is None, "a swing plant that works is not refused", **info)
            continue
        if not ctx.check(w is not None, "a swing plant that cannot work is refused", **info):
            continue
        ctx.close(s.get_minimum_capacity_kbtuh(), w["capacity"], "back-up does not change the primary heater", rtol=1e-7, **info)
        ctx.close(s.get_minimum_storage_storageT_gal(), w["storage"], "back-up does not change the primary store", rtol=1e-7, atol=1e-5, **info)
        ctx.close(s.get_minimum_tm_volume_gal(), w["tm_volume"], "back-up does not change the swing tank", **info)
        judge(ctx, s, w["tm_capacity"], w["tm_volume"], d, ersaf, **info)


def sub_undersized(ctx, shape, q):
    peak = SHAPES[shape]
    flow, ret, sup, sto, inlet = LOOPS[shape % 3]
    daily, oat = 900.0, 25.0
    ref = Plant(daily, peak, AVG, inlet, sup, sto, 16.0, 1.0, 2.8, None, None, 1.0, "swing", flow, ret)
    try:
        w = ref.size()
    except ValueError:
        return
    b = building(daily, peak, oat=oat, inlet=inlet)
    for fc, fs, n, kind, ersaf, fv in product((0.2, 0.6, 0.9, 1.2), (0.3, 1.0, 1.5), (1, 3), ("nominal", "lin"), (1.0, 1.25), (1.0, 1.5)):
        if q and ((n == 3) != (kind == "lin") or (ersaf == 1.25) != (fv == 1.5)):
            continue
        cap, vol, tmv = w["capacity"] * fc, max(1.0, w["storage"] * fs), w["tm_volume"] * fv
        hs = []
        real_cap = 0.0
        for k in range(n):
            h, _ = heater(["normal"] * 24, dict(normal=(0.5, sup, 0.3, sto - 5, sto)), cap / n * (1 + 0.1 * k), kind)
            hs.append(h)
            c = cap / n * (1 + 0.1 * k)
            real_cap += c if kind == "nominal" else lin_cap(c, oat, sto, inlet)
        st = StratifiedTank(vol, 2.8)
        tm = MixedStorageTank(tmv)
        info = dict(shape=shape, heater_share=fc, store_share=fs, heaters=n, map=kind, er_safety=ersaf, tank=tmv)
        base = w["tm_capacity"]
        try:
            d = shortfall(daily, peak, 24.0, sup, sto, inlet, ref.loss, real_cap, vol, tmv, base)
        except Undersized:
            continue
        s = SwingERTrdOffSystem.from_components(hs, st, tm, base, b, sup, sto, ret, flow, er_safety_factor=ersaf)
        ctx.states += 1
        ctx.transitions += 2880 * 2
        judge(ctx, s, base, tmv, d, ersaf, **info)
        ctx.check(s.water_heaters is hs or list(s.water_heaters) == hs, "the primary heaters are the ones given", **info)
        ctx.check(s.storage_tank is st and s.tm_storage_tank is tm, "the tanks are the ones given", **info)
        ctx.close(s.get_minimum_capacity_kbtuh(), real_cap, "primary capacity is what the given heaters produce in design weather", **info)
        ctx.close(s.get_minimum_storage_storageT_gal(), vol, "primary storage is the given tank", **info)
        c = s.tm_water_heater.get_controls_for_hour(0)
        ctx.check((c.on_trigger_t_f, c.off_trigger_t_f) == (sup, sup + 8.0), "the swing heater holds supply temperature with an 8 degree band", **info)


def sub_points(ctx, shape, q):
    peak = SHAPES[shape]
    flow, ret, sup, sto, inlet = LOOPS[0]
    daily = 900.0
    w = Plant(daily, peak, AVG, inlet, sup, sto, 16.0, 1.0, 2.8, None, None, 1.0, "swing", flow, ret)
    loss, w = w.loss, w.size()
    for fc, fs, ersaf, add in product((0.3, 0.7) if q else (0.3, 0.5, 0.7, 0.9), (0.3, 1.0), (1.0, 1.3), (1.0, 1.5)):
        b = building(daily, peak, inlet=inlet)
        cap, vol, tmv, base = w["capacity"] * fc, max(1.0, w["storage"] * fs), w["tm_volume"], w["tm_capacity"]
        h, _ = heater(["normal"] * 24, dict(normal=(0.5, sup, 0.3, sto - 5, sto)), cap)
        s = SwingERTrdOffSystem.from_components([h], StratifiedTank(vol, 2.8), MixedStorageTank(tmv), base, b, sup, sto, ret, flow, er_safety_factor=ersaf)
        info = dict(shape=shape, heater_share=fc, store_share=fs, er_safety=ersaf, extra_safety=add)
        need = lambda share: shortfall(daily * share, peak, 24.0, sup, sto, inlet, loss, cap, vol, tmv, base)
        total = base + element(tmv, need(1.0), ersaf)
        ctx.states += 1
        if need(1.0) <= 0:
            continue
        want = []
        for pct in range(120, 0, -10):
            d = need(pct / 100.0)
            want.append((float(pct), total if pct == 100 else base + element(tmv, d, add)))
            if d <= 0 and pct != 100:
                break
        want.reverse()
        before = (b.daily_dhw_use_supplyT_gal, s.get_er_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh(), s.er_safety_factor)
        kw, cov, start = s.get_er_sized_points(b, add)
        ctx.transitions += len(want)
        ctx.check((b.daily_dhw_use_supplyT_gal, s.get_er_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh(), s.er_safety_factor) == before,
                  "asking for the trade-off changes neither building nor plant", **info)
        ctx.check([float(x) for x in cov] == [x[0] for x in want], "trade-off points run from the share that needs no back-up to 120 %", got=cov, want=[x[0] for x in want], **info)
        for g, (pct, x) in zip(kw, want):
            ctx.close(g, x / KBTUH_PER_KW, "a trade-off point is the swing heating needed at that share of the load", rtol=1e-6, atol=0.5 + 1e-6, share=pct, **info)
        for i in range(1, len(kw)):
            if add == ersaf:
                ctx.check(kw[i] >= kw[i - 1] - 1e-9, "more load never needs less back-up", **info)
        if ctx.check(0 <= start < len(cov), "start index is on the curve", **info):
            ctx.check(cov[start] == 100.0, "the start index is the sized plant", got=cov[start], **info)
        fig = s.get_er_sizing_curve(b, add)
        from mc.props.P03 import figure
        figure(ctx, fig, [float(x) for x in cov], [float(y) for y in kw], start, **info)
        ctx.outcome(cov, kw)


def sub_refuse(ctx):
    b = building()
    s = SwingERTrdOffSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, max_daily_run_hr=12.0)
    if s.get_er_capacity_kbtuh() <= 0:
        for f in (lambda: s.get_er_sized_points(b), lambda: s.get_er_sizing_curve(b)):
            ctx.states += 1
            try:
                f()
            except RuntimeError:
                ctx.check(True, "")
                continue
            ctx.fail("a trade-off without any back-up is refused")
    raw = SwingERTrdOffSystem([], None, 120.0, 150.0, 112.0, 3.0)
    for f in (raw.get_er_capacity_kbtuh, raw.get_er_capacity_kw, lambda: raw.get_er_sized_points(b)):
        ctx.states += 1
        try:
            f()
        except RuntimeError:
            ctx.check(True, "")
            continue
        ctx.fail("back-up results are refused before sizing")
    # swing tank smaller than the peak minute: refused, and nothing is left changed
    h, _ = heater(["normal"] * 24, dict(normal=(0.5, 120.0, 0.3, 145.0, 150.0)), 20.0)
    for tmv in (0.5, 2.0, 5.0):
        ctx.states += 1
        big = building(6000.0)
        try:
            SwingERTrdOffSystem.from_components([h], StratifiedTank(200.0, 2.8), MixedStorageTank(tmv), 10.0, big, 120.0, 150.0, 112.0, 3.0)
        except ValueError:
            ctx.check(big.daily_dhw_use_supplyT_gal == 6000.0, "a refused sizing leaves the building alone")
            continue
        ctx.fail("a swing tank smaller than the peak minute is refused", tank=tmv)
    # trade-off points that fail at 120 % leave everything as it was
    b = building(900.0)
    for tmv in (1.2, 1.3, 1.4, 1.5):
        try:
            s = SwingERTrdOffSystem.from_components([h], StratifiedTank(30.0, 2.8), MixedStorageTank(tmv), 10.0, b, 120.0, 150.0, 112.0, 3.0)
        except ValueError:
            continue
        before = (b.daily_dhw_use_supplyT_gal, s.get_er_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh(), s.er_safety_factor)
        try:
            s.get_er_sized_points(b, 1.7)
        except (ValueError, RuntimeError):
            pass
        ctx.states += 1
        ctx.check((b.daily_dhw_use_supplyT_gal, s.get_er_capacity_kbtuh(), s.get_minimum_tm_capacity_kbtuh(), s.er_safety_factor) == before,
                  "a trade-off that fails leaves building and plant as they were", tank=tmv)


def sub_again(ctx, shape):
    """A plant sized again, on other buildings in every order, has the element each of them needs."""
    flow, ret, sup, sto, inlet = LOOPS[0]
    rows = []
    for daily, sh, inl in ((300.0, shape, inlet), (2000.0, shape, inlet), (900.0, (shape + 3) % len(SHAPES), 60.0)):
        ref = Plant(daily, SHAPES[sh], AVG, inl, sup, sto, 20.0, 1.0, 2.8, None, None, 1.0, "swing", flow, ret)
        try:
            w = ref.size()
            d = shortfall(daily, SHAPES[sh], 20.0, sup, sto, inl, ref.loss, w["capacity"], w["storage"], w["tm_volume"], w["tm_capacity"])
        except (ValueError, Undersized):
            continue
        rows.append((building(daily, SHAPES[sh], inlet=inl), w, d))
    for first in range(len(rows)):
        s = SwingERTrdOffSystem.from_size(rows[first][0], sup, sto, ret, flow, max_daily_run_hr=20.0, er_safety_factor=1.0)
        for n in list(range(len(rows))) + list(range(len(rows) - 1, -1, -1)):
            b, w, d = rows[n]
            s.size(b)
            er = element(w["tm_volume"], d, 1.0)
            ctx.states += 1
            ctx.transitions += 2880 * 2
            info = dict(shape=shape, first=first, now=n)
            ctx.close(s.get_er_capacity_kbtuh(), er, "the element after sizing again", rtol=1e-6, atol=1e-6, **info)
            ctx.close(s.get_minimum_tm_capacity_kbtuh(), w["tm_capacity"] + er, "swing heating after sizing again", rtol=1e-6, atol=1e-6, **info)
            ctx.close(s.get_minimum_storage_storageT_gal(), w["storage"], "primary store after sizing again", rtol=1e-7, atol=1e-5, **info)
            ctx.outcome(er)
