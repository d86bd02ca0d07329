"""Sizing: for every load shape, run-hour limit, temperature set, aquastat, shed schedule and system type
enumerated, the sized capacity and storage equal those of a reference day balance (worst shortfall over all
windows of an endlessly repeated day), and the sized plant is replayed hour by hour to show it never runs
short and has nothing to spare."""
from itertools import product, combinations
from mc.sysexp import *
from mc.models.sizing import Plant, worst_deficit, coverage_fraction, RHO
from mc.models import systems as S

BOUNDS = dict(shapes="all 8-block shapes with levels 0/1/4 (quick: 6-block) and all one- and two-pulse shapes, x run hours 6-24",
              temperatures="supply 110-140 x storage supply..180 x inlet 35-72 x slope 0.8-6 x aquastat height 0-0.985 x trigger below/at/above supply",
              load_shift="every first shed block (start, length) x load-up hours x second block x coverage, five control sets (one with a narrow band); every shed start on five further days (peak after midnight, across midnight, at noon, at dusk, with gaps), and one shed block across supply 110-140, storage, inlet, derate, slope, use and loop",
              systems="storage only, instantaneous, parallel loop, single-pass RTP, multi-pass RTP, swing, swing with ER trade-off")
ASSUMPTIONS = ["load shapes are non-negative and sum to 1; run hours are between 1 and 24",
               "the multi-pass trial days are replayed with the real step function (checked on its own by P12)",
               "multi-pass plants are explored where the design day leaves an unheated slug (positive storage)"]


def norm(v):
    t = float(sum(v))
    return [x / t for x in v]


def blocks(levels):
    n = 24 // len(levels)
    return norm([l for l in levels for _ in range(n)])


def ctl(m):
    return {k: Controls(*v) for k, v in m.items()} if m else None


def plant(kind="primary", peak=PEAK, avg=AVG, daily=800.0, inlet=48.0, sup=120.0, sto=150.0, hr=16.0, defrost=1.0, slope=2.8,
          modes=None, schedule=None, fract=1.0, flow=0.0, ret=112.0, tm_safety=1.2, cls=None, annual=False):
    """(real system sized by the code under test, reference problem)"""
    b = building(daily, peak, avg, inlet=inlet)
    kw = dict(max_daily_run_hr=hr, defrost_factor=defrost, control_schedule=list(schedule) if schedule else None, control_map=ctl(modes),
              strat_slope=slope)
    if kind != "mprtp":
        kw["load_shift_fract_total_vol"] = fract
    if kind == "primary":
        real = DHWSystem.from_size(b, sup, sto, **kw)
    elif kind == "parallel":
        real = ParallelLoopSystem.from_size(b, sup, sto, ret, flow, tm_on_temp_f=sup, tm_off_temp_f=sup + 8, tm_safety_factor=tm_safety, **kw)
    elif kind == "sprtp":
        real = SinglePassRTPSystem.from_size(b, sup, sto, ret, flow, **kw)
    elif kind == "swing":
        real = SwingSystem.from_size(b, sup, sto, ret, flow, tm_safety_factor=tm_safety, **kw)
    ref = Plant(daily, list(peak), list(avg), inlet, sup, sto, hr, defrost, slope, modes, schedule, fract, kind, flow, ret, tm_safety)
    return real, ref


def judge(ctx, real, want, **info):
    ctx.transitions += 1
    ctx.close(real.get_minimum_capacity_kbtuh(), want["capacity"], "sized heating capacity is the design day's heat over the allowed run hours", rtol=1e-7, atol=1e-7, **info)
    ctx.close(real.get_minimum_storage_storageT_gal(), want["storage"], "sized storage covers the worst shortfall of the design day and no more", rtol=1e-7, atol=1e-5, **info)
    if real.storage_tank is not None:
        ctx.close(real.storage_tank.total_volume_gal, want["storage"], "the plant that is built has the sized tank", rtol=1e-7, atol=1e-5, **info)
        wh = real.water_heaters
        ctx.check(len(wh) == 1, "the plant that is built has one heater", **info)
        ctx.close(wh[0].performance_map.get_capacity_kbtuh(20.0, 150.0, 50.0), want["capacity"], "the plant that is built has the sized heater", rtol=1e-7, atol=1e-7, **info)
    ctx.outcome(want["capacity"], want["storage"])


def survive(ctx, peak, hr, real, ref, **info):
    """Hour-by-hour account in supply-temperature gallons, from every starting hour with a full store."""
    store = real.get_minimum_storage_storageT_gal() * ref.strat()
    rate = real.get_minimum_capacity_kbtuh() * 1000.0 * ref.defrost / RHO / (ref.sup - ref.inlet)
    low = store
    for s in range(24):
        lvl = store
        for k in range(72):
            lvl = min(store, lvl + rate - ref.daily * peak[(s + k) % 24])
            low = min(low, lvl)
    ctx.check(low >= -1e-6 * ref.daily, "a store of the sized volume with a heater of the sized capacity never runs short on the design day", lowest=low, **info)
    ctx.check(low <= 1e-6 * ref.daily or store <= 1e-9, "the sized store is no larger than the design day needs", lowest=low, **info)


RUN = [6.0, 9.5, 12.0, 16.0, 20.0, 24.0]
SIX = list(product((0, 1, 4), repeat=6))[1:]
EIGHT = list(product((0, 1, 4), repeat=8))[1:]
PULSES = [(a, w, b2, w2) for a in range(24) for w in (1, 3) for b2 in range(24) for w2 in (1, 5) if b2 != a]


def pulses(a, w, b2, w2):
    v = [1.0] * 24
    for k in range(w):
        v[(a + k) % 24] += 8
    for k in range(w2):
        v[(b2 + k) % 24] += 4
    return norm(v)


FLAT = [1 / 24] * 24
DAYS = dict(dawn=(FLAT, pulses(5, 3, 17, 1)), night=(FLAT, pulses(23, 3, 11, 1)), noon=(PEAK, pulses(12, 1, 14, 5)), dusk=(norm([1.5 + (h in (20, 21)) for h in range(24)]), pulses(20, 3, 1, 5)),
            gaps=(blocks((1, 0, 1, 0, 1, 0, 1, 1)), blocks((0, 1, 0, 4, 0, 1, 0, 4))))
SHED1 = [(s, n) for s in range(0, 24) for n in (*range(1, 9), 13, 17, 20) if s + n <= 24]
CTL = dict(
    plain=dict(normal=(0.6, 118.0, 0.3, 125.0, 150.0), loadUp=(0.3, 118.0, 0.1, 130.0, 150.0), shed=(0.85, 115.0, 0.7, 122.0, 150.0)),
    nolu=dict(normal=(0.5, 120.0, 0.2, 150.0, 150.0), shed=(0.8, 120.0, 0.3, 150.0, 150.0)),
    hot=dict(normal=(0.6, 125.0, 0.4, 140.0, 150.0), loadUp=(0.4, 130.0, 0.2, 145.0, 150.0), shed=(0.9, 122.0, 0.6, 130.0, 150.0)),
    narrow=dict(normal=(0.6, 118.0, 0.3, 125.0, 150.0), loadUp=(0.55, 118.0, 0.2, 130.0, 150.0), shed=(0.58, 118.0, 0.4, 125.0, 150.0)),
    flip=dict(normal=(0.4, 118.0, 0.2, 125.0, 150.0), loadUp=(0.7, 118.0, 0.1, 130.0, 150.0), shed=(0.7, 116.0, 0.6, 122.0, 150.0)),
)


def sched(start, n, lu, second):
    s = ["normal"] * 24
    for h in range(start, start + n):
        s[h] = "shed"
    for h in range(max(0, start - lu), start):
        s[h] = "loadUp"
    if second:
        for h in range(*second):
            if s[h] == "normal":
                s[h] = "shed"
    return s


def cases(tier):
    q = tier == "quick"
    for kind in ("primary", "parallel", "sprtp"):
        sh = SIX if q else EIGHT
        for lo in range(0, len(sh), 364 if q else 820):
            yield "shapes", dict(kind=kind, lo=lo, hi=lo + (364 if q else 820), big=not q)
        for a in range(0, 24, 3 if q else 1):
            yield "pulses", dict(kind=kind, first=a)
    for sup in (110.0, 120.0, 140.0):
        for inlet in (35.0, 48.0, 72.0):
            yield "temps", dict(sup=sup, inlet=inlet)
    for kind in ("primary", "parallel", "sprtp"):
        for c in CTL:
            for s0 in range(0, 24, 6):
                yield "shift", dict(kind=kind, ctl=c, first=s0, span=6, q=q)
    for d in DAYS:
        for c in ("plain", "nolu"):
            for kind in ("primary", "parallel", "sprtp"):
                yield "shift_days", dict(kind=kind, day=d, ctl=c, q=q)
            yield "shift_days", dict(kind="swing", day=d, ctl=c, q=q)
    for sup in (110.0, 120.0, 140.0):
        for c in CTL:
            yield "shift_temps", dict(sup=sup, ctl=c)
    for s0 in range(8):
        yield "swing", dict(part=s0, of=8, q=q)
    for c in CTL:
        for s0 in range(0, 24, 6):
            yield "swing_shift", dict(ctl=c, first=s0, q=q)
    for c in MPS:
        yield "mprtp", dict(c)
    yield "instant", {}
    yield "defaults", {}
    yield "refuse", {}


def sub_shapes(ctx, kind, lo, hi, big):
    for lv in (EIGHT if big else SIX)[lo:hi]:
        peak = blocks(lv)
        for hr in RUN if not big else (8.0, 16.0, 24.0):
            real, ref = plant(kind, peak=peak, hr=hr, flow=3.0)
            ctx.states += 1
            judge(ctx, real, ref.size(), shape=lv, run_hours=hr, kind=kind)
            if kind != "sprtp":
                survive(ctx, peak, hr, real, ref, shape=lv, run_hours=hr, kind=kind)


DEFAULT = dict(primary=(24.0, 2.8), parallel=(24.0, 2.8), swing=(24.0, 2.8), sprtp=(16.0, 1.7), mprtp=(14.0, 0.8))


def sub_defaults(ctx):
    """Settings that are left out take their documented values: the answer is the one for those values given in full."""
    sup, sto, ret, flow = 120.0, 150.0, 112.0, 3.0
    for kind, day, ctlname, hours in product(DEFAULT, (PEAK, pulses(7, 3, 18, 1), blocks((0, 4, 1, 0, 4, 1))), (None, "plain"), (None, sched(17, 4, 1, None))):
        if hours and not ctlname or kind == "mprtp" and (hours or not ctlname):
            continue
        hr, slope = DEFAULT[kind]
        modes = CTL[ctlname] if ctlname else None
        if modes and not hours:
            modes = dict(normal=modes["normal"])
        info = dict(kind=kind, day=[round(x, 4) for x in day], controls=ctlname, schedule=hours)
        for defrost in (None, 1.0):
            kw = dict(control_schedule=list(hours) if hours else ["normal"] * 24 if kind == "mprtp" else None, control_map=ctl(modes))
            full = dict(kw, max_daily_run_hr=hr, defrost_factor=1.0, strat_slope=slope)
            if kind != "mprtp":
                full["load_shift_fract_total_vol"] = 1.0
            if kind in ("parallel", "swing"):
                full["tm_safety_factor"] = 1.2
            if kind == "parallel":
                full["tm_off_time_hr"] = 0.5
            if defrost is not None:
                kw["defrost_factor"] = defrost
            cls = dict(primary=DHWSystem, parallel=ParallelLoopSystem, swing=SwingSystem, sprtp=SinglePassRTPSystem, mprtp=MultiPassRTPSystem)[kind]
            tail = () if kind == "primary" else (ret, flow)
            if kind == "parallel":
                tail += (sup, sup + 8)
            one, two = (cls.from_size(building(800.0, day, AVG, inlet=48.0), sup, sto, *tail, **k) for k in (kw, full))
            ctx.states += 1
            ctx.transitions += 2
            answers = lambda s: [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal(), s.storage_tank.total_volume_gal, s.storage_tank.strat_slope]
            ctx.check(answers(one) == answers(two), "settings left out take their documented values", got=answers(one), want=answers(two), **info)
            if kind not in ("mprtp", "swing"):
                ref = Plant(800.0, list(day), AVG, 48.0, sup, sto, hr, 1.0, slope, modes, hours, 1.0, kind, 0.0 if kind == "primary" else flow, ret, 1.2)
                judge(ctx, one, ref.size(), **info)
            if kind == "mprtp":       # its capacity is settled by the trial days of from_size
                continue
            again = cls.from_size(building(800.0, day, AVG, inlet=48.0), sup, sto, *tail, **kw)
            again.size(building(800.0, day, AVG, inlet=48.0), control_schedule=kw["control_schedule"], control_map=ctl(modes))
            ctx.transitions += 1
            ctx.check(answers(again)[:2] == answers(two)[:2], "sizing again with settings left out takes the same values", got=answers(again), want=answers(two), **info)


def sub_pulses(ctx, kind, first):
    for a, w, b2, w2 in PULSES:
        if a != first:
            continue
        peak = pulses(a, w, b2, w2)
        for hr in (10.0, 16.0, 24.0):
            real, ref = plant(kind, peak=peak, hr=hr, flow=2.0, modes=dict(normal=(0.5, 118.0, 0.3, 125.0, 150.0)))
            ctx.states += 1
            judge(ctx, real, ref.size(), pulses=(a, w, b2, w2), run_hours=hr, kind=kind)


def sub_temps(ctx, sup, inlet):
    for sto, slope, on, dt, defrost in product((sup, sup + 5, 150.0, 180.0), (0.8, 1.7, 2.8, 6.0), (0.0, 0.15, 0.4, 0.7, 0.95, 0.985), (-15.0, -4.0, 0.0, 3.0, 12.0), (1.0, 0.85)):
        if sto < sup or sup + dt > sto:
            continue
        modes = dict(normal=(on, sup + dt, on, sto, sto))
        for kind, flow, daily, m in (("primary", 0.0, 800.0, modes), ("parallel", 4.0, 37.0, modes), ("sprtp", 2.5, 12345.0, modes),
                                     ("primary", 0.0, 800.0, dict(a=(on, sup + dt, on, sto, sto), b=(min(1.0, on + .05), sup, on, sto, sto)))):
            info = dict(sup=sup, sto=sto, inlet=inlet, slope=slope, on=on, trigger=sup + dt, defrost=defrost, kind=kind)
            probe = Plant(daily, PEAK, AVG, inlet, sup, sto, 14.0, defrost, slope, m, None, 1.0, kind, flow, sup - 7)
            if probe.strat() < 1e-9:
                continue
            real, ref = plant(kind, daily=daily, inlet=inlet, sup=sup, sto=sto, hr=14.0, defrost=defrost, slope=slope, modes=m, flow=flow, ret=sup - 7,
                              schedule=None)
            ctx.states += 1
            judge(ctx, real, ref.size(), **info)


def sub_shift(ctx, kind, ctl, first, span, q):
    modes = CTL[ctl]
    for s, n in SHED1:
        if not first <= s < first + span or (q and n in (3, 5, 7)):
            continue
        for lu in (0, 1, 3, 5, 9):
            if lu > s:
                continue
            if lu and "loadUp" not in modes:
                continue
            for second in (None, (18, 22)) if q else (None, (18, 22), (21, 23)):
                sc = sched(s, n, lu, second)
                for fr, hr in ((1.0, 16.0), (coverage_fraction(0.8), 22.0)) if q else ((1.0, 16.0), (1.0, 10.0), (coverage_fraction(0.8), 22.0), (coverage_fraction(0.3), 24.0)):
                    ref = Plant(800.0, PEAK, AVG, 48.0, 120.0, 150.0, hr, 1.0, 2.8, modes, sc, fr, kind, 3.0, 112.0)
                    if ref.band() <= 1e-9:
                        continue
                    real, ref = plant(kind, modes=modes, schedule=sc, fract=fr, hr=hr, flow=3.0)
                    ctx.states += 1
                    judge(ctx, real, ref.size(), schedule="".join(m[0] for m in sc), coverage=fr, run_hours=hr, kind=kind)


def one_shift(ctx, kind, modes, sc, fr, hr, flow=3.0, **kw):
    d = dict(daily=800.0, peak=PEAK, avg=AVG, inlet=48.0, sup=120.0, sto=150.0, defrost=1.0, slope=2.8, ret=112.0)
    d.update(kw)
    ref = Plant(d["daily"], list(d["peak"]), list(d["avg"]), d["inlet"], d["sup"], d["sto"], hr, d["defrost"], d["slope"], modes, sc, fr, kind, flow, d["ret"])
    if ref.band() <= 1e-9 or ref.strat() <= 1e-9:
        return
    info = dict(schedule="".join(m[0] for m in sc), coverage=fr, run_hours=hr, kind=kind, flow=flow, **{k: v for k, v in kw.items() if k not in ("peak", "avg")})
    try:
        want = ref.size()
    except ValueError:
        want = None
    try:
        real, _ = plant(kind, modes=modes, schedule=sc, fract=fr, hr=hr, flow=flow, **d)
    except ValueError:
        real = None
    ctx.states += 1
    if ctx.check((real is None) == (want is None), "sizing is refused exactly when the swing tank cannot hold supply temperature", **info) and want is not None:
        judge(ctx, real, want, **info)


def sub_shift_days(ctx, kind, day, ctl, q):
    """Load shift on days whose worst shortfall lies after midnight, inside the gap between two shed blocks, ..."""
    peak, avg = DAYS[day]
    sw = kind == "swing"
    for s in range(1, 24, 5 if sw and q else 1):
        for n in (2,) if sw and q else (1, 2, 4):
            for second in (None, (s + n + 1, s + n + 3)) if sw and q else (None, (s + n + 1, s + n + 3), (s + n + 4, s + n + 6)):
                if s + n > 24 or (second and second[1] > 24):
                    continue
                for lu in (0, 2) if ctl == "plain" else (0,):
                    if lu > s:
                        continue
                    for fr, hr in ((1.0, 20.0),) if sw and q else ((1.0, 20.0), (coverage_fraction(0.6), 14.0)):
                        one_shift(ctx, kind, CTL[ctl], sched(s, n, lu, second), fr, hr, peak=peak, avg=avg)


def sub_shift_temps(ctx, sup, ctl):
    """Load shift at other temperatures, derates, slopes, loops and uses."""
    for sto, inlet, defrost, slope, (daily, flow) in product((sup + 10, sup + 35), (35.0, 66.0), (1.0, 0.8), (1.2, 2.8, 5.0), ((3.0, 0.05), (60.0, 0.4), (3000.0, 6.0))):
        modes = {k: (a, min(t + sup - 120.0, sto), o, min(u + sup - 120.0, sto), sto) for k, (a, t, o, u, _) in CTL[ctl].items()}
        for kind in ("primary", "parallel", "sprtp"):
            for lu in (0, 2) if "loadUp" in modes else (0,):
                one_shift(ctx, kind, modes, sched(17, 4, lu, None), 1.0, 16.0, flow=flow, sup=sup, sto=sto, inlet=inlet, defrost=defrost, slope=slope, daily=daily, ret=sup - 6)
        if flow < 1 and inlet < 40:
            one_shift(ctx, "swing", modes, sched(17, 4, 2 if "loadUp" in modes else 0, None), 1.0, 16.0, flow=flow, sup=sup, sto=sto, inlet=inlet, defrost=defrost, slope=slope, daily=daily, ret=sup - 6)


SW = [("shape", lv) for lv in product((1, 2, 6), repeat=4) if len(set(lv)) > 1] + [("pulse", (a, 1, (a + g) % 24, 4)) for a in range(0, 24, 2) for g in (3, 9)]


def sub_swing(ctx, part, of, q):
    grid = list(product(SW, (10.0, 16.0, 24.0), ((1.5, 112.0, 300.0, 150.0, 1.2), (4.0, 105.0, 2500.0, 150.0, 1.75), (2.0, 115.0, 900.0, 135.0, 1.05))))
    for (kind, lv), hr, (flow, ret, daily, sto, saf) in grid[part::of * (3 if q else 1)]:
        peak = blocks(lv) if kind == "shape" else pulses(*lv)
        ref = Plant(daily, peak, AVG, 48.0, 120.0, sto, hr, 0.95, 2.8, None, None, 1.0, "swing", flow, ret, saf)
        try:
            want = ref.size()
        except ValueError:
            want = None
        info = dict(shape=lv, run_hours=hr, flow=flow, ret=ret, daily=daily, storage=sto)
        try:
            real, _ = plant("swing", peak=peak, daily=daily, sto=sto, hr=hr, defrost=0.95, flow=flow, ret=ret, tm_safety=saf)
        except ValueError:
            real = None
        ctx.states += 1
        ctx.transitions += 1
        if not ctx.check((real is None) == (want is None), "swing sizing is refused exactly when the swing tank cannot hold supply temperature", want=want, **info) or want is None:
            continue
        judge(ctx, real, want, **info)
        ctx.close(real.get_minimum_tm_volume_gal(), want["tm_volume"], "swing tank volume", **info)
        ctx.close(real.get_minimum_tm_capacity_kbtuh(), want["tm_capacity"], "swing element capacity", **info)


def sub_swing_shift(ctx, ctl, first, q):
    modes = CTL[ctl]
    for s, n in SHED1:
        if not first <= s < first + 6 or n not in ((1, 2, 5) if q else (1, 2, 4, 5, 8)):
            continue
        for lu in (0, 1, 2) if q else (0, 1, 2, 3):
            if lu > s or (lu and "loadUp" not in modes):
                continue
            sc = sched(s, n, lu, (18, 22) if s < 16 and s % 2 else None)
            for fr, hr, flow in ((1.0, 16.0, 3.0), (coverage_fraction(0.7), 22.0, 1.5), (coverage_fraction(0.3), 24.0, 0.5)):
                ref = Plant(800.0, PEAK, AVG, 48.0, 120.0, 150.0, hr, 1.0, 2.8, modes, sc, fr, "swing", flow, 112.0)
                if ref.band() <= 1e-9:
                    continue
                real, ref = plant("swing", modes=modes, schedule=sc, fract=fr, hr=hr, flow=flow)
                ctx.states += 1
                judge(ctx, real, ref.size(), schedule="".join(m[0] for m in sc), coverage=fr, run_hours=hr)


MPS = [dict(flow=3.0, hr=14.0), dict(flow=1.0, hr=16.0, daily=2000.0), dict(flow=4.0, hr=16.0, sto=135.0), dict(flow=2.0, hr=20.0, inlet=60.0),
       dict(flow=3.0, hr=14.0, on=0.6, trig=115.0), dict(flow=3.0, hr=14.0, shape=(1, 1, 6, 1, 1, 4)), dict(flow=0.0, hr=14.0), dict(flow=3.0, hr=18.0, useable=0.85),
       dict(flow=3.0, hr=14.0, shape=(0, 0, 5, 0, 0, 0)), dict(flow=2.0, hr=22.0, daily=5000.0, sto=125.0), dict(flow=5.0, hr=16.0, defrost=0.9), dict(flow=3.0, hr=18.0, on=0.4)]


def sub_mprtp(ctx, flow, hr, daily=800.0, sto=145.0, inlet=48.0, on=0.5, trig=120.0, shape=None, useable=1.0, defrost=1.0):
    sup, ret, slope = 120.0, 112.0, 0.8
    peak = blocks(shape) if shape else PEAK
    modes = dict(normal=(on, trig, on - 0.1, min(sto, trig + 8), sto))
    b = building(daily, peak, AVG, inlet=inlet)
    info = dict(flow=flow, run_hours=hr, daily=daily, storage=sto, inlet=inlet, on=on, trigger=trig, shape=shape, useable=useable)
    fresh = lambda cap, vol: MultiPassRTPSystem([WaterHeater.from_nominal_capacity(cap, ["normal"] * 24, ctl(modes))],
                                               SlugOverlayTank(vol, inlet, sto, sup, useable, slope), sup, sto, ret, flow)
    real = MultiPassRTPSystem.from_size(b, sup, sto, ret, flow, max_daily_run_hr=hr, defrost_factor=defrost, control_schedule=["normal"] * 24,
                                        control_map=ctl(modes), percent_useable=useable)
    p = Plant(daily, peak, AVG, inlet, sup, sto, hr, defrost, slope, modes, None, 1.0, "mprtp", flow, ret)
    cap = p.kbtuh(daily / hr, sup) + p.loop_kbtuh()
    # mean temperature of the hot part of the tank when the aquastat calls
    lo = on + (sup - trig) / slope / 100
    top = lambda h: min(sto, trig + slope * 100 * (h - on))
    lo = max(0.0, lo)
    knee = min(1.0, on + (sto - trig) / slope / 100)
    hot = ((knee - lo) * (top(lo) + top(knee)) / 2 + (1 - knee) * sto) / (1 - lo) if lo < 1 else sup
    vol = t = big = 0.0
    for i in range(2880):
        d, tin = S.mixing_valve(daily * peak[(i // 60) % 24] / 60.0, flow, inlet, sup, ret, hot)
        if d > 0:
            t = (vol * t + d * tin) / (vol + d)
            vol += d
        if vol > 0:
            t += cap * 1000.0 / 60.0 / (vol * RHO)
            if t >= sto:
                vol = 0.0
        big = max(big, vol)
    size = big / p.strat()
    ctx.close(real.get_minimum_storage_storageT_gal(), size, "multi-pass storage is the largest unheated slug of the design days", rtol=1e-6, atol=1e-4, **info)
    cool = 1 - on
    for _ in range(3):
        trial = fresh(cap, size)
        trial.storage_tank.initialize(storage_temp_f=sto, cold_temp_f=inlet, percent_useable=cool)
        worst, short, began, was = sup, 0, 0, False
        for i in range(3 * 1440):
            st = trial.simulate_step(b, i, 1)
            firing = st["heater_output_kbtuh"] > 0
            if firing and not was:
                began = i
            was = firing
            if st["usable_volume_supplyT_gal"] <= 0 and st["tank_temps_f"][-1] < worst:
                worst, short = st["tank_temps_f"][-1], i - began
        ctx.transitions += 3 * 1440
        if short <= 0:
            break
        cap += size * useable * RHO * (sup - worst) / 1000.0 / (short / 60.0)
    ctx.states += 1
    ctx.outcome(cap, size)
    ctx.close(real.get_minimum_capacity_kbtuh(), cap, "multi-pass capacity makes up the shortfall met in its trial days", rtol=1e-5, atol=1e-4, **info)
    ctx.close(real.storage_tank.total_volume_gal, size, "the plant that is built has the sized tank", rtol=1e-6, atol=1e-4, **info)
    ctx.close(real.water_heaters[0].performance_map.get_capacity_kbtuh(30.0, 140.0, 50.0), cap, "the plant that is built has the sized heater", rtol=1e-5, atol=1e-4, **info)


def sub_instant(ctx):
    for lv, daily, sup, inlet, df in product([(1, 1, 6, 1, 1, 4), (1, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1)], (37.0, 800.0), (110.0, 140.0), (35.0, 60.0), (1.0, 0.8)):
        peak = blocks(lv)
        b = building(daily, peak, AVG, inlet=inlet)
        s = InstantWHSystem.from_size(b, sup, 150.0, df)
        ctx.states += 1
        judge(ctx, s, dict(capacity=daily * max(peak) * RHO * (sup - inlet) / df / 1000.0, storage=0.0), shape=lv, daily=daily, sup=sup, inlet=inlet)


def sub_refuse(ctx):
    b = building()
    bare = Building(None, 800.0, list(PEAK), list(AVG))
    cm = ctl(CTL["nolu"])
    sh = ["normal"] * 17 + ["shed"] * 4 + ["normal"] * 3
    for what, f in (
        ("sizing needs a design inlet temperature", lambda: DHWSystem.from_size(bare, 120.0, 150.0)),
        ("sizing needs a design inlet temperature", lambda: SwingSystem.from_size(bare, 120.0, 150.0, 112.0, 3.0)),
        ("sizing needs a design inlet temperature", lambda: SinglePassRTPSystem.from_size(bare, 120.0, 150.0, 112.0, 3.0)),
        ("sizing needs a design inlet temperature", lambda: InstantWHSystem.from_size(bare, 120.0, 150.0)),
        ("multi-pass plants do not load shift", lambda: MultiPassRTPSystem.from_size(b, 120.0, 150.0, 112.0, 3.0, control_schedule=sh, control_map=cm)),
    ):
        ctx.states += 1
        try:
            f()
        except ValueError:
            ctx.check(True, what)
            continue
        ctx.fail(what + ", and is refused without one" if "inlet" in what else what)
    # a multi-pass plant is refused exactly when a sensor sits below the cold inlet
    for use, on, off in product((1.0, 0.85, 0.6), (0.1, 0.3, 0.5, 0.8), (0.1, 0.3, 0.45)):
        ctx.states += 1
        try:
            MultiPassRTPSystem.from_size(b, 120.0, 145.0, 112.0, 3.0, control_schedule=["normal"] * 24, control_map=ctl(dict(normal=(on, 120.0, off, 128.0, 145.0))), percent_useable=use)
            ok = True
        except ValueError:
            ok = False
        dead = use < 1.0 and min(on, off) < 1.0 - use
        ctx.check(ok != dead, "a multi-pass plant is refused exactly when a sensor sits in the unusable zone", useable=use, on=on, off=off, accepted=ok)
    for kind, c in product(("primary", "parallel", "sprtp", "swing"), CTL):
        for sc in (["normal"] * 24, ["normal"] * 8 + ["loadUp"] * 3 + ["normal"] * 13):
            if "loadUp" in sc and "loadUp" not in CTL[c]:
                continue
            real, _ = plant(kind, modes=CTL[c], schedule=sc, flow=3.0)
            ctx.states += 1
            judge(ctx, real, Plant(800.0, PEAK, AVG, 48.0, 120.0, 150.0, 16.0, 1.0, 2.8, {"normal": CTL[c]["normal"]}, None, 1.0, kind, 3.0, 112.0).size(),
                  kind=kind, note="a schedule without shed hours sizes like no load shift at all")
    for s in (DHWSystem([], None, 120.0, 150.0), SwingSystem([], None, 120.0, 150.0, 112.0, 3.0), SinglePassRTPSystem([], None, 120.0, 150.0, 112.0, 3.0)):
        for g in (s.get_minimum_capacity_kbtuh, s.get_minimum_storage_storageT_gal):
            ctx.states += 1
            try:
                g()
            except RuntimeError:
                ctx.check(True, "results before sizing")
                continue
            ctx.fail("sizing results are refused before sizing")
