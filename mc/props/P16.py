"""Costs and energy: every report of a recorded year against an independent meter reading, with load pulses placed
at every month, season and rate-window boundary."""
import csv, os, tempfile
from mc.sysexp import *
from mc.props import P12
from mc.props.P15 import U, spec_of, expected, DAYS
from ecoengine.interfaces import Simulator
from ecoengine.interfaces.EcosizerEngine import get_annual_utility_comparison_graph, EcosizerEngine
from ecoengine.objects.simulation.SimulationRun import SimulationRun

BOUNDS = dict(tariffs="7 tariffs: 1-4 seasons, empty / full-day / midnight peak windows, wrapping discount windows; each also written to a file and read back, and 5 hour-by-hour tariffs with the utility's own period labels",
              pulses="a demand pulse at the last and first step of every month, and at every hour of a day around every rate boundary, in the primary and in the loop heater",
              steps="60, 30, 15, 10 (and 1 for 3-day) minute steps; complete, partial (stopped early), still growing (reports asked for while recording), 3-day and empty records",
              values="all patterns of missing / zero / positive power for both heaters")
ASSUMPTIONS = ["non-leap year; step lengths divide an hour"]
TARIFFS = [
    ([(0, 12, 16, 21, None, None)], False),
    ([(0, 12, 0, 24, None, None)], False),
    ([(0, 12, 9, 9, None, None)], False),
    ([(0, 5, 16, 21, None, None), (5, 9, 14, 20, None, None), (9, 12, 17, 24, None, None)], False),
    ([(0, 12, 16, 21, 22, 6)], True),
    ([(0, 3, 16, 21, 9, 14), (3, 6, 7, 10, 23, 5), (6, 11, 0, 6, 6, 24), (11, 12, 12, 18, 0, 8)], True),
    ([(0, 1, 16, 21, 10, 14), (1, 12, 5, 9, 20, 3)], True),
]
START = [sum(DAYS[:m]) * 24 for m in range(13)]


def run_of(dt, kw, tm=None, duration=525600, modes=None):
    r = SimulationRun(duration, dt)
    t = [50.0] * 6
    for i, p in enumerate(kw):
        q = None if tm is None else tm[i]
        r.record_timestep(0.0, 5.0, 1.0, p, 40.0, 50.0, t, "normal", *((None, None, None) if tm is None else (121.0, 0.0 if not q else q * 3.4, q)))
    return r


def meter(dt, kw, tm, seasons, disc, n12=True):
    """Independent meter: per month energy, cost by peak/other, demand by (month, type)."""
    exp = expected(seasons, disc)
    hrs = dt / 60
    kwh = [0.0] * 12
    cost = {True: [0.0] * 12, False: [0.0] * 12}
    peak = {}
    for i, p in enumerate(kw):
        x = (p or 0.0) + ((tm[i] or 0.0) if tm is not None else 0.0)
        m, k, e, d = exp[i * dt // 60]
        kwh[m] += x * hrs
        cost[k == 1][m] += x * hrs * e
        if x > peak.get((m, k), (0.0, 0.0))[0]:
            peak[(m, k)] = (x, d)
    dem = {True: [0.0] * 12, False: [0.0] * 12}
    for (m, k), (x, d) in peak.items():
        dem[k == 1][m] += x * d
    return kwh, cost, dem, max([(p or 0.0) + ((tm[i] or 0.0) if tm is not None else 0.0) for i, p in enumerate(kw)], default=0.0)


def vec(ctx, got, want, what, **info):
    ctx.check(len(got) == 12 and all(abs(a - b) <= 1e-6 + 1e-9 * abs(b) for a, b in zip(got, want)), what, got=list(got), want=want, **info)


def judge(ctx, r, dt, kw, tm, ti, annual=True, **info):
    seasons, disc = TARIFFS[ti]
    u = tracker(ti)
    kwh, cost, dem, peak = meter(dt, kw, tm, seasons, disc)
    base = 100.0 + len(seasons)
    a = r.get_annual_utility_cost(u)
    want = sum(cost[True]) + sum(cost[False]) + sum(dem[True]) + sum(dem[False]) + 12 * base
    info = dict(info, tariff=ti, dt=dt)
    ctx.close(a, want, "annual cost differs from energy at its rates + monthly peak demands + base charges", rtol=1e-9, **info)
    b = r.get_monthly_cost_breakdown(u)
    vec(ctx, b["energy"], [x + y for x, y in zip(cost[True], cost[False])], "monthly energy cost", **info)
    vec(ctx, b["demand"], [x + y for x, y in zip(dem[True], dem[False])], "monthly demand cost", **info)
    ctx.close(b["base"], base, "monthly base charge", **info)
    d = r.get_monthly_cost_breakdown_detailed(u)
    vec(ctx, d["energy_peak"], cost[True], "monthly peak energy cost", **info)
    vec(ctx, d["energy_off_peak"], cost[False], "monthly off-peak energy cost", **info)
    vec(ctx, d["demand_peak"], dem[True], "monthly peak demand cost", **info)
    vec(ctx, d["demand_off_peak"], dem[False], "monthly off-peak demand cost", **info)
    ctx.close(d["base"], base, "monthly base charge", **info)
    ctx.close(sum(b["energy"]) + sum(b["demand"]) + 12 * b["base"], a, "monthly costs add up to the annual cost", rtol=1e-9, **info)
    ctx.close(r.get_total_energy_kwh(), sum(kwh), "total energy", rtol=1e-9, **info)
    ctx.close(r.get_peak_demand_kw(), peak, "peak demand", **info)
    s = r.get_summary()
    ctx.close(s["total_energy_kwh"], sum(kwh), "summary energy", rtol=1e-9, **info)
    ctx.close(s["peak_demand_kw"], peak, "summary peak demand", **info)
    if annual:
        vec(ctx, r.get_monthly_energy_kwh(), kwh, "monthly energy", **info)
    else:
        vec(ctx, r.get_monthly_energy_kwh(), [0.0] * 12, "monthly energy of a run that is not a year", **info)
    ctx.states += 1
    ctx.transitions += 7 * len(kw)
    ctx.traces += 1
    ctx.outcome(a)


_T = {}


def tracker(ti):
    if ti not in _T:
        _T[ti] = U.from_params(**spec_of(*TARIFFS[ti]))
    return _T[ti]


def cases(tier):
    for ti in range(len(TARIFFS)):
        yield "shape", dict(ti=ti)
        for m in range(12) if tier == "thorough" else range(ti % 2, 12, 2):
            yield "month_edges", dict(ti=ti, m=m, dt=60)
        yield "month_edges", dict(ti=ti, m=(5 * ti + 4) % 12, dt=10)
        for h in range(0, 24, 4):
            yield "hours", dict(ti=ti, lo=h, dt=60)
    if tier == "thorough":
        for ti in range(len(TARIFFS)):
            for h in range(24):
                yield "hours", dict(ti=ti, lo=h, dt=10)
    for k in range(9):
        yield "missing", dict(k=k)
    yield "partial", {}
    yield "short", {}
    for dt in (60, 30):
        yield "growing", dict(dt=dt)
    for kind in ("storage", "sprtp", "parallel", "swing", "mprtp", "instant"):
        yield "systems", dict(kind=kind)
    yield "compare", {}
    yield "engine", {}
    for ti in range(len(TARIFFS)):
        yield "csv", dict(ti=ti)
    for n in range(len(LABELS)):
        yield "labels", dict(n=n)


def sub_shape(ctx, ti):
    """A load that differs in every hour of the year, split between heaters in several ways."""
    for dt, k in ((60, 0), (60, 1), (60, 2), (30, 1), (15, 0), (10, 1)):
        n = 525600 // dt
        kw = [((i * 7919) % 1009) / 37.0 for i in range(n)]
        tm = None if k == 0 else [((i * 104729) % 503) / 29.0 for i in range(n)]
        if k == 2:
            kw, tm = [None] * n, kw
        judge(ctx, run_of(dt, kw, tm), dt, kw, tm, ti, k=k)


def sub_month_edges(ctx, ti, m, dt):
    """One pulse at the edges of month m, in the primary or in the loop heater: month and demand period of that very step."""
    n = 525600 // dt
    per = 60 // dt
    first, last = START[m] * per, START[m + 1] * per - 1
    for where in (first, first - 1, last, (last + 1) % n):
        if where < 0:
            continue
        for loop in (False, True):
            kw, tm = [1.0] * n, [0.25] * n
            (tm if loop else kw)[where] = 500.0
            judge(ctx, run_of(dt, kw, tm), dt, kw, tm, ti, pulse=where, loop=loop)


def sub_hours(ctx, ti, lo, dt):
    """One pulse in every hour of a day in each season (first and last step of the hour)."""
    n = 525600 // dt
    per = 60 // dt
    for h in range(lo, lo + (4 if dt == 60 else 1)):
        seasons, _ = TARIFFS[ti]
        kw = [1.0] * n
        for s in seasons:
            for day in (START[s[0]] + 24 * 3, START[s[1] - 1] + 24 * 20):
                for j in (0, per - 1):
                    kw[(day + h) * per + j] = 300.0 + h + j
        judge(ctx, run_of(dt, kw), dt, kw, None, ti, hour=h)


def sub_missing(ctx, k):
    """All per-step patterns of missing, zero and positive values (period 4), both heaters."""
    vals = [None, 0.0, 2.5]
    a, b = divmod(k, 3)
    for c in range(3):
        for d in range(3):
            pk, pt = [vals[a], vals[c], 0.75, vals[b]], [vals[b], vals[d], vals[c], None]
            n = 8760
            kw, tm = [pk[i % 4] for i in range(n)], [pt[(i // 2) % 4] for i in range(n)]
            judge(ctx, run_of(60, kw, tm), 60, kw, tm, 5, pattern=(a, b, c, d))
    kw = [vals[a]] * 8760
    judge(ctx, run_of(60, kw), 60, kw, None, 4, pattern=(a,))


def sub_partial(ctx):
    """A run that stopped early: reports cover the recorded steps only."""
    for n in (1, 23, 24, 743, 744, 745, 1416, 4000, 8015, 8016, 8759):
        for ti in (0, 3, 6):
            kw = [1.0 + (i % 5) for i in range(n)]
            kw[-1] = 77.0
            tm = [0.5] * n if n % 2 else None
            judge(ctx, run_of(60, kw, tm), 60, kw, tm, ti, steps=n)


def sub_short(ctx):
    for dt in (1, 5, 10):
        n = 4320 // dt
        for ti in range(len(TARIFFS)):
            kw = [(i * 31 % 17) / 3 if i % 4 else None for i in range(n)]
            tm = [0.25 * (i % 3) for i in range(n)]
            judge(ctx, run_of(dt, kw, tm, duration=4320), dt, kw, tm, ti, annual=False)
    e = run_of(10, [])
    judge(ctx, e, 10, [], None, 0)


def sub_growing(ctx, dt):
    """Reports asked for while a run is being recorded are those of the steps recorded so far, under every tariff in turn."""
    n = 525600 // dt
    kw = [((i * 7919) % 1009) / 37.0 for i in range(n)]
    tm = [((i * 104729) % 503) / 29.0 for i in range(n)]
    r, other = SimulationRun(525600, dt), run_of(15, [2.0 + i % 7 for i in range(4 * 800)])
    at = 0
    for k, stop in enumerate((0, 1, 2, 24, 743 * 60 // dt, 744 * 60 // dt + 1, 3000 * 60 // dt, n)):
        for i in range(at, stop):
            r.record_timestep(0.0, 5.0, 1.0, kw[i], 40.0, 50.0, [50.0] * 6, "normal", 121.0, 0.0, tm[i])
        at = stop
        for ti in (k % 7, (k + 3) % 7, k % 7):
            judge(ctx, r, dt, kw[:stop], tm[:stop] or None, ti, recorded=stop)
            if stop < 800:
                judge(ctx, other, 15, [2.0 + i % 7 for i in range(4 * 800)], None, ti, after=stop)


def sub_systems(ctx, kind):
    """Real annual runs of every plant type, priced by every tariff."""
    b = building(600.0, zone=33)
    if kind == "instant":
        s = InstantWHSystem.from_size(b, 120.0, 150.0)
    else:
        s, _ = P12.make(kind, "two" if kind != "mprtp" else "one", V=500.0)
    r = Simulator.simulate_annual(s, b)
    kw, tm = list(r.heater_power_in_kw), list(r.tm_heater_input_kw) or None
    for ti in range(len(TARIFFS)):
        judge(ctx, r, 10, kw, tm, ti, kind=kind)


def label_meter(dt, kw, tm, label, rate, demand):
    """Meter for tariffs given hour by hour: a demand period is a label, peak if odd; its charge falls in the month of its highest power."""
    cost = {True: [0.0] * 12, False: [0.0] * 12}
    dem = {True: [0.0] * 12, False: [0.0] * 12}
    top = {}
    for i, p in enumerate(kw):
        x = (p or 0.0) + ((tm[i] or 0.0) if tm is not None else 0.0)
        h = i * dt // 60
        m = next(j for j in range(12) if h < START[j + 1])
        cost[label[h] % 2 == 1][m] += x * dt / 60 * rate[h]
        if x > top.get(label[h], (-1.0, 0))[0]:
            top[label[h]] = (x, m)
    for l, (x, m) in top.items():
        dem[l % 2 == 1][m] += x * demand[l]
    return cost, dem


def judge_labels(ctx, r, u, dt, kw, tm, label, rate, demand, base, **info):
    cost, dem = label_meter(dt, kw, tm, label, rate, demand)
    a = r.get_annual_utility_cost(u)
    ctx.close(a, sum(map(sum, cost.values())) + sum(map(sum, dem.values())) + 12 * base, "annual cost under an hour-by-hour tariff", rtol=1e-9, **info)
    b = r.get_monthly_cost_breakdown(u)
    vec(ctx, b["energy"], [x + y for x, y in zip(cost[True], cost[False])], "monthly energy cost under an hour-by-hour tariff", **info)
    vec(ctx, b["demand"], [x + y for x, y in zip(dem[True], dem[False])], "monthly demand cost under an hour-by-hour tariff", **info)
    d = r.get_monthly_cost_breakdown_detailed(u)
    for key, want in (("energy_peak", cost[True]), ("energy_off_peak", cost[False]), ("demand_peak", dem[True]), ("demand_off_peak", dem[False])):
        vec(ctx, d[key], want, "detailed monthly cost under an hour-by-hour tariff: " + key, **info)
    ctx.close(b["base"], base, "monthly base charge", **info)
    ctx.close(sum(b["energy"]) + sum(b["demand"]) + 12 * b["base"], a, "monthly costs add up to the annual cost", rtol=1e-9, **info)
    ctx.states += 1
    ctx.transitions += 3 * len(kw)
    ctx.traces += 1
    ctx.outcome(a)


def loads():
    n = 8760
    yield "varied", 60, [((i * 7919) % 1009) / 37.0 for i in range(n)], [((i * 104729) % 503) / 29.0 for i in range(n)]
    for m in range(0, 12, 3):
        kw = [1.0] * n
        kw[START[m]], kw[START[m + 1] - 1], kw[START[m] + 24 * 9 + 17] = 90.0, 80.0, 70.0
        yield f"edges of month {m}", 60, kw, None
    yield "half-hourly", 30, [((i * 31) % 97) / 7.0 for i in range(2 * n)], None


def sub_csv(ctx, ti):
    """A tariff written to a file and read back bills every run as the file says."""
    seasons, disc = TARIFFS[ti]
    exp = expected(seasons, disc)
    per = 3 if disc else 2
    label = [m * per + k for m, k, _, _ in exp]
    rate = [e for _, _, e, _ in exp]
    demand = {l: d for l, (_, _, _, d) in zip(label, exp)}
    with tempfile.TemporaryDirectory() as d:
        tracker(ti).to_csv(os.path.join(d, "t.csv"))
        u = U.from_csv(os.path.join(d, "t.csv"))
    for name, dt, kw, tm in loads():
        r = run_of(dt, kw, tm)
        judge_labels(ctx, r, u, dt, kw, tm, label, rate, demand, 100.0 + len(seasons), tariff=ti, load=name)
        ctx.close(r.get_annual_utility_cost(u), r.get_annual_utility_cost(tracker(ti)), "a tariff read back from its file bills a run the same", rtol=1e-9, tariff=ti, load=name)


LABELS = [
    ("one label all year", lambda h, m: 1),
    ("summer / winter x peak", lambda h, m: (2 if 5 <= m < 9 else 0) + (16 <= h % 24 < 21)),
    ("large labels", lambda h, m: 100 * (m + 1) + (h % 24 >= 12)),
    ("labels falling through the year", lambda h, m: 2 * (11 - m) + (h % 24 < 6)),
    ("quarters", lambda h, m: 7 * (m // 3) + 3),
]


def sub_labels(ctx, n):
    """Hour-by-hour tariffs with the utility's own period labels and hourly energy rates."""
    name, f = LABELS[n]
    month = [next(j for j in range(12) if h < START[j + 1]) for h in range(8760)]
    label = [int(f(h, month[h])) for h in range(8760)]
    demand = {l: 3.0 + (l * 5) % 7 for l in set(label)}
    for hourly in (False, True):
        rate = [0.05 + 0.01 * (label[h] % 5) + (0.001 * (h % 11) if hourly else 0.0) for h in range(8760)]
        rows, seen = [], set()
        for h in range(8760):
            first = label[h] not in seen
            seen.add(label[h])
            rows.append([label[h], repr(rate[h]) if first or hourly else "", demand[label[h]] if first else "", 37.5 if h == 0 else ""])
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, "t.csv"), "w", newline="") as fh:
                w = csv.writer(fh)
                w.writerow(["Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"])
                w.writerows(rows)
            u = U.from_csv(os.path.join(d, "t.csv"))
        for lname, dt, kw, tm in loads():
            judge_labels(ctx, run_of(dt, kw, tm), u, dt, kw, tm, label, rate, demand, 37.5, labels=name, hourly=hourly, load=lname)


def sub_compare(ctx):
    n = 8760
    kw = [((i * 7919) % 1009) / 37.0 for i in range(n)]
    k2 = [9.0 + (i % 24) for i in range(n)]
    for ti in range(len(TARIFFS)):
        u = tracker(ti)
        x, y = run_of(60, kw, [0.5] * n), run_of(60, k2)
        hp, iwh = get_annual_utility_comparison_graph(x, y, u, return_as_array=True)
        ctx.check(hp == x.get_monthly_cost_breakdown_detailed(u) and iwh == y.get_monthly_cost_breakdown_detailed(u), "comparison returns the two runs' own breakdowns, in order", tariff=ti)
        div = get_annual_utility_comparison_graph(x, y, u, return_as_div=True)
        ctx.check(isinstance(div, str) and "<div" in div and "<html" not in div.lower(), "the comparison chart is given as a page fragment", tariff=ti)
        fig = get_annual_utility_comparison_graph(x, y, u)
        tot = [sum(t.y[2 * m + j] for t in fig.data for j in (0, 1)) for m in range(12)]
        want = [sum(d[c][m] for d in (hp, iwh) for c in ("energy_peak", "energy_off_peak", "demand_peak", "demand_off_peak")) + 2 * u.monthly_base_charge for m in range(12)]
        vec(ctx, tot, want, "the comparison chart's bars add up to both runs' monthly bills", tariff=ti)
        first = [sum(t.y[2 * m] for t in fig.data) for m in range(12)]
        vec(ctx, first, [sum(hp[c][m] for c in ("energy_peak", "energy_off_peak", "demand_peak", "demand_off_peak")) + u.monthly_base_charge for m in range(12)], "first bar of each month is the heat pump's bill", tariff=ti)
        ctx.states += 1; ctx.transitions += 2
    for bad in ((run_of(1, [1.0] * 10, duration=4320), run_of(60, k2)), (run_of(60, k2), run_of(1, [1.0], duration=4320))):
        try:
            get_annual_utility_comparison_graph(*bad, tracker(0), return_as_array=True)
            ctx.fail("comparison of runs that are not both annual is accepted")
        except ValueError:
            pass
        ctx.judgements += 1; ctx.states += 1


def sub_engine(ctx):
    e = EcosizerEngine("multi_family", 50, 12, 120.0, 150.0, "swing_tank", gpdpp=25.0, return_temp_f=112.0, return_flow_gpm=3.0)
    for r, annual in ((e.simulate_annual(), True), (e.simulate_3day(), False)):
        dt = 10 if annual else 1
        kw, tm = list(r.heater_power_in_kw), list(r.tm_heater_input_kw) or None
        judge(ctx, r, dt, kw, tm, 5, annual=annual)
        ctx.check(e.get_simulation_summary(r) == r.get_summary(), "engine summary is the run's summary")
        ctx.check(list(e.get_annual_cost_estimate(r)["monthly_energy_kwh"]) == list(r.get_monthly_energy_kwh()), "engine energy estimate is the run's monthly energy")
