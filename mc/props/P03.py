"""Sizing curves: every point is the sizing at that point's run hours (or load-shift coverage), the trade-off is
monotone, the recommended point is the sized plant, and the plot shows exactly the curve."""
import os, tempfile
import numpy as np
from itertools import product
from mc.sysexp import *
from mc.models.sizing import Plant, coverage_fraction
from mc.props.P01 import blocks, pulses, norm, ctl, CTL, sched, SW
from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem

BOUNDS = dict(curves="13 load shapes x run hours 8-24 x steps x slopes x aquastats on storage, parallel and single-pass RTP plants; swing and swing ER on 6 shapes",
              load_shift="every shed block start x two lengths x load-up x five control sets x requested coverage, all 76 points each",
              multipass="4 plants, all points down to 9 h", plots="both plot kinds for every plant type: line, markers, slider")
ASSUMPTIONS = ["points whose run hours are within 1e-6 h of the shortest possible run time may or may not be listed"]

SHAPES = [PEAK, AVG] + [blocks(v) for v in ((1, 1, 6, 1, 1, 4), (1, 0, 0, 0, 0, 0), (0, 3, 1, 5, 1, 0), (2, 2, 2, 1, 1, 1), (0, 0, 9, 1, 0, 0), (4, 1, 1, 1, 1, 4))] + \
         [pulses(*p) for p in ((0, 1, 12, 5), (23, 1, 7, 1), (6, 3, 18, 5), (22, 3, 3, 1))] + \
         [norm([1.0] * 7 + [40.0] + [1.0] * 16)]
MODES = [None, dict(normal=(0.5, 118.0, 0.3, 125.0, 150.0)), dict(normal=(0.7, 120.0, 0.4, 150.0, 150.0), other=(0.2, 120.0, 0.1, 150.0, 150.0)), dict(normal=(0.15, 126.0, 0.1, 140.0, 150.0))]


def build(kind, peak=PEAK, avg=AVG, daily=800.0, hr=16.0, slope=2.8, modes=None, schedule=None, fract=1.0, flow=3.0, ret=112.0, defrost=1.0, **over):
    b = building(daily, peak, avg)
    kw = dict(max_daily_run_hr=hr, defrost_factor=defrost, control_schedule=list(schedule) if schedule else (["normal"] * 24 if modes else None),
              control_map=ctl(modes), strat_slope=slope, load_shift_fract_total_vol=fract)
    kw.update(over)
    if kind == "primary":
        s = DHWSystem.from_size(b, 120.0, 150.0, **kw)
    elif kind == "parallel":
        s = ParallelLoopSystem.from_size(b, 120.0, 150.0, ret, flow, tm_on_temp_f=120.0, tm_off_temp_f=128.0, **kw)
    elif kind == "sprtp":
        s = SinglePassRTPSystem.from_size(b, 120.0, 150.0, ret, flow, **kw)
    else:
        s = (SwingSystem if kind == "swing" else SwingERTrdOffSystem).from_size(b, 120.0, 150.0, ret, flow, **kw)
    return s, b


def ref(kind, peak=PEAK, avg=AVG, daily=800.0, hr=16.0, slope=2.8, modes=None, schedule=None, fract=1.0, flow=3.0, ret=112.0, defrost=1.0):
    return Plant(daily, list(peak), list(avg), 48.0, 120.0, 150.0, hr, defrost, slope, modes, schedule, fract, "swing" if kind == "er" else kind, flow, ret)


def expected_hours(hr, step, shortest):
    """24 h downwards in steps, restarting at the sized run hours, down to the shortest possible."""
    out, k = [], 0
    while 24.0 - k * step > hr + 1e-9:
        out.append(24.0 - k * step)
        k += 1
    rec, k = len(out), 0
    while hr - k * step > shortest:
        out.append(hr - k * step)
        k += 1
    return out, rec


def cases(tier):
    q = tier == "quick"
    for kind in ("primary", "parallel", "sprtp"):
        for i in range(len(SHAPES)):
            yield "curve", dict(kind=kind, shape=i, q=q)
    for kind in ("swing", "er"):
        for i in range(0, 12, 2 if q else 1):
            yield "curve_swing", dict(kind=kind, shape=i, q=q)
    for kind in ("primary", "parallel", "sprtp"):
        for c in CTL:
            for s0 in range(0, 24, 6):
                yield "shift", dict(kind=kind, ctl=c, first=s0, q=q)
    for c in CTL:
        for s0 in (1, 9, 15, 19) if q else range(1, 22, 2):
            yield "shift_swing", dict(ctl=c, start=s0)
    for n in range(4 if q else 6):
        yield "multipass", dict(n=n, step=2.0 if q else 1.0)
    for kind in ("primary", "parallel", "sprtp", "swing"):
        for ls in (False, True):
            yield "plot", dict(kind=kind, ls=ls)
    yield "refuse", {}
    for kind in ("primary", "parallel", "sprtp", "swing", "er"):
        for ls in (False, True):
            if not (ls and kind in ("swing", "er")):
                yield "again", dict(kind=kind, ls=ls)


def tradeoff(ctx, c, **info):
    h, cap, vol = c["heat_hours"], c["capacity_kbtuh"], c["storage_storageT_gal"]
    ctx.check(len(h) == len(cap) == len(vol), "curve lists have one entry per point", **info)
    for i in range(1, len(h)):
        ctx.check(h[i] < h[i - 1] and cap[i] >= cap[i - 1] - 1e-9 and vol[i] <= vol[i - 1] + 1e-6, "fewer run hours need more capacity and less storage",
                  points=[(h[j], cap[j], vol[j]) for j in (i - 1, i)], **info)
    if h:
        ctx.check(0 <= c["recommended_index"] < len(h), "the recommended point is on the curve", **info)


def points(ctx, kind_, s, b, cfg, step, peak, **info):
    c = s.get_sizing_curve(b) if step == 0.25 else s.get_sizing_curve(b, step=step)
    ctx.transitions += 1
    tradeoff(ctx, c, **info)
    shortest = 1.001 / max(peak)
    hours, rec = expected_hours(cfg["hr"], step, shortest)
    want = []
    for h in hours:
        try:
            w = ref(kind_, **dict(cfg, hr=h)).size()
        except ValueError:
            break
        if w["storage"] <= 0:
            break
        want.append((h, w["capacity"], w["storage"]))
    got = list(zip(c["heat_hours"], c["capacity_kbtuh"], c["storage_storageT_gal"]))
    ctx.states += len(got)
    fuzzy = bool(hours) and abs(hours[-1] - shortest) < 1e-6
    ctx.check(abs(len(got) - len(want)) <= fuzzy, "the curve runs from 24 hours through the sized run hours to the shortest possible",
              got=c["heat_hours"][-3:], want=[w[0] for w in want[-3:]], **info)
    for g, w in zip(got, want):
        ctx.close(g[0], w[0], "run hours of the curve points", **info)
        ctx.close(g[1], w[1], "a curve point's capacity is the sizing at its run hours", rtol=1e-7, at_hours=w[0], **info)
        ctx.close(g[2], w[2], "a curve point's storage is the sizing at its run hours", rtol=1e-7, atol=1e-5, at_hours=w[0], **info)
    if len(want) > rec:
        i = c["recommended_index"]
        ctx.check(i == rec, "the recommended point is at the sized run hours", got=i, want=rec, **info)
        ctx.close(c["capacity_kbtuh"][i], s.get_minimum_capacity_kbtuh(), "the recommended point is the sized plant (capacity)", rtol=1e-9, **info)
        ctx.close(c["storage_storageT_gal"][i], s.get_minimum_storage_storageT_gal(), "the recommended point is the sized plant (storage)", rtol=1e-9, **info)
    ctx.outcome(got[:3])


def sub_curve(ctx, kind, shape, q):
    peak = SHAPES[shape]
    for hr, step, slope, mi in product((8.0, 12.0, 13.3, 16.0, 20.5, 24.0), (0.25, 1.5), (1.7, 2.8), range(len(MODES))):
        if q and (step == 0.25) != (slope == 1.7):
            continue
        cfg = dict(peak=peak, hr=hr, slope=slope, modes=MODES[mi], defrost=0.9)
        if ref(kind, **cfg).strat() <= 1e-9:
            continue
        s, b = build(kind, **cfg)
        points(ctx, kind, s, b, cfg, step, peak, kind=kind, run_hours=hr, slope=slope, controls=mi, hours_step=step)


def sub_curve_swing(ctx, kind, shape, q):
    peak = SHAPES[shape]
    for hr, step, (flow, ret, daily) in product((10.0, 16.0, 24.0), (1.5,) if q else (0.5,), ((3.0, 112.0, 800.0), (1.5, 105.0, 2500.0))):
        cfg = dict(peak=peak, hr=hr, flow=flow, ret=ret, daily=daily, modes=MODES[shape % 2])
        try:
            s, b = build(kind, **cfg)
        except ValueError:
            continue
        points(ctx, kind, s, b, cfg, step, peak, kind=kind, run_hours=hr, flow=flow, daily=daily)


def ls_points(ctx, kind_, s, b, cfg, sc, modes, pct, every=1, **info):
    c = s.get_ls_sizing_curve(b, list(sc), ctl(modes), load_shift_percent=pct)
    ctx.transitions += 1
    p, cap, vol = c["load_shift_percent"], c["capacity_kbtuh"], c["storage_storageT_gal"]
    ctx.check(len(p) == len(cap) == len(vol) == 76, "the load-shift curve has a point for every percent from 25 to 100", n=len(p), **info)
    i = c["recommended_index"]
    ctx.check(i == max(0, min(75, round(100 * pct) - 25)), "the recommended point is at the requested coverage", got=i, requested=pct, **info)
    for k in range(76):
        ctx.close(p[k], (25 + k) / 100, "coverage of the points", **info)
        if k:
            ctx.check(cap[k] >= cap[k - 1] - 1e-9 * cap[k], "more coverage never needs less capacity", coverage=p[k], **info)
        if k % every and k != i and k != 75:
            continue
        w = ref(kind_, **dict(cfg, fract=coverage_fraction(p[k]))).size()
        ctx.close(cap[k], w["capacity"], "a load-shift point's capacity is the sizing at its coverage", rtol=1e-7, coverage=p[k], **info)
        ctx.close(vol[k], w["storage"], "a load-shift point's storage is the sizing at its coverage", rtol=1e-7, atol=1e-5, coverage=p[k], **info)
        ctx.states += 1
    if 0.25 <= pct <= 1:
        ctx.close(cap[i], s.get_minimum_capacity_kbtuh(), "the recommended load-shift point is the sized plant (capacity)", rtol=1e-9, **info)
        ctx.close(vol[i], s.get_minimum_storage_storageT_gal(), "the recommended load-shift point is the sized plant (storage)", rtol=1e-9, **info)
    ctx.outcome(cap[0], vol[0], cap[-1], vol[-1])


def sub_shift(ctx, kind, ctl, first, q):
    modes = CTL[ctl]
    for st in range(first, first + 6):
        for n, lu, pct, hr in ((2, 0, 0.25, 16.0), (4, 2, 0.8, 16.0), (5, 3, 1.0, 24.0), (3, 1, 0.57, 12.0), (1, 0, 0.1, 20.0)):
            if st + n > 24 or lu > st or (lu and "loadUp" not in modes):
                continue
            sc = sched(st, n, lu, (19, 22) if st % 3 == 0 else None)
            cfg = dict(hr=hr, modes=modes, schedule=sc, fract=coverage_fraction(pct))
            if ref(kind, **cfg).band() <= 1e-9:
                continue
            s, b = build(kind, **cfg)
            ls_points(ctx, kind, s, b, cfg, sc, modes, pct, 5 if q else 1, kind=kind, schedule="".join(m[0] for m in sc), run_hours=hr)


def sub_shift_swing(ctx, ctl, start):
    modes = CTL[ctl]
    for n, lu, pct in ((4, 1, 0.8), (2, 0, 0.4)):
        if start + n > 24 or (lu and "loadUp" not in modes):
            continue
        sc = sched(start, n, lu, (18, 22) if start < 10 else None)
        cfg = dict(modes=modes, schedule=sc, fract=coverage_fraction(pct))
        if ref("swing", **cfg).band() <= 1e-9:
            continue
        for kind in ("swing", "er"):
            s, b = build(kind, **cfg)
            ls_points(ctx, kind, s, b, cfg, sc, modes, pct, 19, kind=kind, schedule="".join(m[0] for m in sc))


MP = [dict(hr=14.0), dict(hr=18.0, flow=2.0), dict(hr=16.0, defrost=0.9, daily=2000.0), dict(hr=15.0, useable=0.85), dict(hr=20.0, inlet=60.0), dict(hr=16.0, sto=135.0)]


def sub_multipass(ctx, n, step):
    c0 = dict(dict(flow=3.0, defrost=1.0, daily=800.0, inlet=48.0, sto=145.0, useable=1.0), **MP[n])
    b = building(c0["daily"], inlet=c0["inlet"])
    modes = dict(normal=(0.5, 120.0, 0.4, 128.0, c0["sto"]))
    mk = lambda hr, **kw: MultiPassRTPSystem.from_size(b, 120.0, c0["sto"], 112.0, c0["flow"], max_daily_run_hr=hr, defrost_factor=c0["defrost"],
                                                       control_schedule=["normal"] * 24, control_map=ctl(modes), percent_useable=c0["useable"], **kw)
    s = mk(c0["hr"])
    c = s.get_sizing_curve(b, step=step)
    ctx.transitions += 1
    tradeoff_mp(ctx, c, plant=n)
    heat = (c0["daily"] * (120.0 - c0["inlet"]) * 8.353535 + c0["flow"] * 60 * 8.353535 * 8.0 * 24) / 1000.0 / c0["defrost"]
    i = c["recommended_index"]
    ctx.check(bool(c["heat_hours"]), "the multi-pass curve has the sized plant on it", plant=n)
    ctx.close(c["capacity_kbtuh"][i], s.get_minimum_capacity_kbtuh(), "the recommended point is the sized plant (capacity)", rtol=1e-9, plant=n)
    ctx.close(c["storage_storageT_gal"][i], s.get_minimum_storage_storageT_gal(), "the recommended point is the sized plant (storage)", rtol=1e-9, plant=n)
    for h, cap in zip(c["heat_hours"], c["capacity_kbtuh"]):
        ctx.close(h, heat / cap, "a multi-pass point's run hours are the day's heat over its capacity", rtol=0, atol=0.0501, plant=n)
    cand = [(s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal())]
    h = c0["hr"] - step
    while h >= 9 and h > 1.001 / max(PEAK):
        try:
            p = mk(h, capacity_boost_trial_days=2, capacity_boost_iterations=1)
        except (ValueError, RuntimeError, ZeroDivisionError):
            break
        if p.get_minimum_storage_storageT_gal() == 0:
            break
        cand.append((p.get_minimum_capacity_kbtuh(), p.get_minimum_storage_storageT_gal()))
        h -= step
    best = []
    for cap, vol in cand:
        bh = round(heat / cap, 1)
        if all(bh < x[0] for x in best):
            best.append((bh, cap, vol))
    best.sort(reverse=True)
    ctx.check(len(best) == len(c["heat_hours"]), "the multi-pass curve lists each distinct sizing once", got=c["heat_hours"], want=[x[0] for x in best], plant=n)
    for g, w in zip(zip(c["heat_hours"], c["capacity_kbtuh"], c["storage_storageT_gal"]), best):
        ctx.close(g[1], w[1], "a multi-pass point is a sizing of the plant (capacity)", rtol=1e-9, plant=n)
        ctx.close(g[2], w[2], "a multi-pass point is a sizing of the plant (storage)", rtol=1e-9, plant=n)
        ctx.states += 1
    ctx.outcome(best)


def tradeoff_mp(ctx, c, **info):
    h = c["heat_hours"]
    ctx.check(len(h) == len(c["capacity_kbtuh"]) == len(c["storage_storageT_gal"]), "curve lists have one entry per point", **info)
    for i in range(1, len(h)):
        ctx.check(h[i] < h[i - 1] and c["capacity_kbtuh"][i] > c["capacity_kbtuh"][i - 1], "fewer run hours need more capacity", **info)


def figure(ctx, fig, xs, ys, rec, **info):
    """One line through all points, one marker per point of which only the recommended one shows, a slider that shows each in turn."""
    line, marks = fig.data[0], fig.data[1:]
    near = lambda a, w: len(a) == len(w) and all(abs(float(x) - y) <= 1e-9 * max(1.0, abs(y)) for x, y in zip(a, w))
    ctx.check(near(line.x, xs) and near(line.y, ys), "the plotted line is the curve", **info)
    ctx.check(line.visible in (None, True), "the line is visible", **info)
    ctx.check(near([m.x[0] for m in marks], xs) and near([m.y[0] for m in marks], ys), "one marker per point", **info)
    ctx.check([m.visible in (None, True) for m in marks] == [i == rec for i in range(len(xs))], "only the recommended point is marked", **info)
    sl = fig.layout.sliders[0]
    ctx.check(sl.active == rec, "the slider starts at the recommended point", got=sl.active, want=rec, **info)
    ctx.check(len(sl.steps) == len(xs), "the slider has a position for every point", **info)
    for i, st in enumerate(sl.steps):
        ctx.check([bool(v) for v in st.args[0]["visible"]] == [True] + [j == i for j in range(len(xs))], "a slider position shows its own point", position=i, **info)
        ctx.transitions += 1


def sub_plot(ctx, kind, ls):
    modes = CTL["plain"] if ls else MODES[1]
    sc = sched(17, 4, 2, None) if ls else None
    for hr, pct in ((16.0, 0.8), (20.0, 1.0), (24.0, 0.3)):
        s, b = build(kind, hr=hr, modes=modes, schedule=sc, fract=coverage_fraction(pct) if ls else 1.0)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "curve.html")
            kw = dict(filepath=path) if hr == 16.0 else {}
            if ls:
                fig = s.plot_sizing_curve(b, list(sc), ctl(modes), load_shift_percent=pct, title="T1", **kw)
                c = s.get_ls_sizing_curve(b, list(sc), ctl(modes), load_shift_percent=pct)
                xs, ys, rec = [100.0 * p for p in c["load_shift_percent"]], list(c["storage_storageT_gal"]), c["recommended_index"]
            else:
                fig = s.plot_sizing_curve(b, title="T1", **kw)
                c = s.get_sizing_curve(b)
                n = len(c["heat_hours"])
                xs, ys, rec = c["storage_storageT_gal"][::-1], c["capacity_kbtuh"][::-1], n - 1 - c["recommended_index"]
            ctx.check((not kw) or (os.path.exists(path) and os.path.getsize(path) > 100), "the plot is written to the requested file", kind=kind)
        ctx.states += 1
        ctx.check(fig.layout.title.text == "T1", "the plot carries its title", kind=kind)
        figure(ctx, fig, xs, ys, rec, kind=kind, load_shift=ls, run_hours=hr)
        for i, st in enumerate(fig.layout.sliders[0].steps):
            nums = (f"{xs[i]:.0f}%", f"{ys[i]:.1f}") if ls else (f"{xs[i]:.1f}", f"{ys[i]:.1f}", f"{c['heat_hours'][n - 1 - i]:.2f}")
            ctx.check(all(x in st.label for x in nums), "slider labels give the numbers of their point", label=st.label, want=nums, kind=kind)


ASKS = [(800.0, 0, 16.0, 2.0, 0.5), (800.0, 0, 16.0, 1.0, 0.5), (500.0, 0, 16.0, 2.0, 0.5), (800.0, 5, 16.0, 2.0, 0.5), (800.0, 0, 13.0, 2.0, 0.5), (800.0, 0, 16.0, 2.0, 0.3)]


def ask(s, b, k, ls):
    """one question about a plant: (re)size for the building as it now is, take the curve, spoil what was handed out"""
    daily, shift, hr, step, f = ASKS[k]
    b.daily_dhw_use_supplyT_gal = daily
    b.peak_load_shape = np.array(PEAK[shift:] + PEAK[:shift])
    modes = ctl(dict(normal=(f, 118.0, f - 0.1, 125.0, 150.0), shed=(0.85, 118.0, 0.8, 150.0, 150.0)))
    sc = sched(16, 4, 0, False) if ls else ["normal"] * 24
    s.max_daily_run_hr = hr
    s.size(b, control_schedule=sc, control_map=modes)
    c = s.get_ls_sizing_curve(b, sc, modes, load_shift_percent=0.9) if ls else s.get_sizing_curve(b, step=step)
    out = {q: (list(map(float, v)) if isinstance(v, (list, tuple, np.ndarray)) else v) for q, v in c.items()}
    for v in c.values():
        if isinstance(v, list) and v:
            v[0] = -1.0
            v.append(7.0)
    return out


def sub_again(ctx, kind, ls):
    """A curve is the curve of the plant as it is now, whatever was asked of the plant and the building before."""
    want = [ask(*build(kind, modes=MODES[1]), k, ls) for k in range(len(ASKS))]
    for seq in product(range(len(ASKS)), repeat=2):
        s, b = build(kind, modes=MODES[1])
        for n, k in enumerate(seq):
            got = ask(s, b, k, ls)
            ctx.transitions += 1
            ctx.check(set(got) == set(want[k]), "the curve of a plant asked before (fields)", kind=kind, ls=ls, asked=seq[:n + 1])
            for q, w in want[k].items():
                g = got.get(q)
                if isinstance(w, list):
                    if ctx.check(len(g) == len(w), "the curve of a plant asked before (points)", kind=kind, ls=ls, asked=seq[:n + 1], field=q):
                        for x, y in zip(g, w):
                            ctx.close(x, y, "the curve of a plant asked before", rtol=1e-9, atol=1e-9, kind=kind, ls=ls, asked=seq[:n + 1], field=q)
                else:
                    ctx.check(g == w, "the curve of a plant asked before", kind=kind, ls=ls, asked=seq[:n + 1], field=q)
        ctx.states += 1
        ctx.outcome(want[seq[-1]])


def sub_refuse(ctx):
    for kind in ("primary", "parallel", "sprtp", "swing"):
        s, b = build(kind, modes=MODES[1])
        ctx.states += 1
        try:
            s.get_ls_sizing_curve(b, ["normal"] * 24, ctl(MODES[1]))
        except ValueError:
            ctx.check(True, "a load-shift curve needs a shed mode")
            continue
        ctx.fail("a load-shift curve needs a shed mode", kind=kind)
