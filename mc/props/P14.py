"""Simulation bookkeeping: every deficit sequence through the early-stop automaton, every scripted step
record through a whole simulation, and every real system's run against an independent replay of its steps."""
import csv, os, re, tempfile
from itertools import product
from mc.sysexp import *
from mc.props import P12
from ecoengine.interfaces import Simulator
from ecoengine.objects.simulation.SimulationRun import SimulationRun

BOUNDS = dict(automaton="all deficit / recovery sequences of length 13 (quick) / 16 (thorough) at 1-minute steps, length 8 at 2-60 minute steps, three temperatures around the threshold",
              scripts="all pairs of deficit bursts of 0-12 steps at start, middle and end of a 3-day run, and of outage bursts",
              records="all combinations of missing and present power / temperature-maintenance values over 4-step patterns",
              start="all on-sensor positions x 4 control-map shapes x system types; starting tank state judged at 21 heights")
ASSUMPTIONS = ["step lengths divide a day"]
SUP = 120.0
REG = ["demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f"]
SERIES = dict(demand_supplyT_gal="dhw_demand_supplyT_gal")


class Scripted(DHWSystem):
    """A plant whose step reports are dictated by a script, so that only the bookkeeping is judged."""

    def __init__(self, script, supply=SUP, tank=None, heaters=()):
        super().__init__(list(heaters), tank, supply, 150.0)
        self.script, self.calls = script, []

    def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
        self.calls.append((timestep_interval, interval_min))
        return self.script(timestep_interval)


def step(i, usable=10.0, delivery=125.0, top=None, power=None, tm=None, out=20.0, mode="normal"):
    d = dict(demand_supplyT_gal=0.25 + i % 7 if i % 2 else 0.0, usable_volume_supplyT_gal=usable, heater_output_kbtuh=out + i % 3, heater_power_in_kw=power,
             oat_f=30.0 + i % 11, inlet_water_temp_f=50.0 + i % 5, tank_temps_f=[50.0 + i % 2, 60.0, 70.0 + i % 3, 80.0, 90.0, delivery if top is None else top], mode=mode)
    if top is not None:
        d["delivery_temp_f"] = delivery
    if tm is not None:
        d.update(tm)
    return d


def stop_at(deficits, dt, limit):
    """Reference automaton: index of the step that ends the run, or None."""
    c = 0
    for i, d in enumerate(deficits):
        c = c + dt if d else 0
        if c > limit:
            return i
    return None


def cases(tier):
    n = 13 if tier == "quick" else 16
    for k in range(8):
        yield "automaton", dict(k=k, n=n)
    for dt in (2, 3, 5, 6, 10, 12, 15, 30, 60):
        yield "automaton_dt", dict(dt=dt)
    for where in ("start", "noon", "second", "end"):
        for explicit in (True, False):
            yield "bursts", dict(where=where, explicit=explicit, step=2 if tier == "quick" else 1)
    yield "annual_bursts", {}
    for k in range(4):
        yield "outages", dict(k=k)
    for k in range(9):
        yield "records", dict(k=k)
    for kind in ["storage", "sprtp", "parallel", "swing", "mprtp"]:
        yield "start", dict(kind=kind)
        for V in (60.0, 300.0):
            yield "replay", dict(kind=kind, V=V, duration="3day")
        yield "replay", dict(kind=kind, V=300.0, duration="annual")
    yield "settings", {}
    yield "plot", {}


def sub_automaton(ctx, k, n):
    temps = {0: (SUP - 5.0, SUP), 1: (math_next(SUP - 5.0), 50.0)}
    for bits in range(1 << (n - 3)):
        seq = [(k >> j) & 1 for j in range(3)] + [(bits >> j) & 1 for j in range(n - 3)]
        # burst prefix so that short sequences also reach the limit
        for pre in (0, 5, 9):
            r = SimulationRun(4320, 1)
            full = [1] * pre + seq
            want = stop_at(full, 1, 10)
            got = None
            for i, d in enumerate(full):
                ctx.transitions += 1
                if r.check_outlet_deficit(temps[d][(i + bits) % 2], SUP):
                    got = i
                    break
                if r.stopped_early:
                    ctx.fail("run marked as stopped without stopping", seq=full, at=i)
            ctx.states += 1
            ctx.outcome(want)
            ctx.check(got == want and r.stopped_early == (want is not None), "run ends at another step than the eleventh consecutive minute of cold delivery", sequence=full, got=got, want=want)


def math_next(x):
    import math
    return math.nextafter(x, 0.0)


def sub_automaton_dt(ctx, dt):
    for lim, thr in ((10, 5.0), (0, 5.0), (30, 0.0), (60, 12.5)):
        temps = [SUP - thr, math_next(SUP - thr), SUP + 3]
        for seq in product(range(3), repeat=8):
            r = SimulationRun(4320, dt, outlet_deficit_threshold_f=thr, outlet_deficit_max_min=lim)
            want = stop_at([s == 1 for s in seq], dt, lim)
            got = next((i for i, s in enumerate(seq) if r.check_outlet_deficit(temps[s], SUP)), None)
            ctx.states += 1; ctx.transitions += 8
            ctx.check(got == want, "run ends at another step than the deficit rule says", seq=seq, dt=dt, limit=lim, threshold=thr, got=got, want=want)
        ctx.outcome(lim)


def judge_run(ctx, run, script, n, dt, stop, duration_min, supply, info):
    ctx.traces += 1
    k = n if stop is None else stop + 1
    ctx.check(run.stopped_early == (stop is not None), "stopped-early flag", got=run.stopped_early, **info)
    ctx.check(len(run.dhw_demand_supplyT_gal) == k, "number of recorded steps", got=len(run.dhw_demand_supplyT_gal), want=k, **info)
    steps = [script(i) for i in range(k)]
    for key in REG:
        ctx.check(list(getattr(run, SERIES.get(key, key))) == [s[key] for s in steps], "a recorded series differs from the step reports", series=key, **info)
    ctx.check([list(t) for t in run.tank_temps_f] == [[s["tank_temps_f"][j] for s in steps] for j in range(6)], "recorded tank temperatures differ from the step reports", **info)
    ctx.check(list(run.heater_mode) == [s.get("mode", "normal") for s in steps], "recorded modes differ", **info)
    TM = ["tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw"]
    if any(s.get(x) is not None for s in steps for x in TM):
        for x in TM:
            g = list(getattr(run, x))
            if g or any(s.get(x) is not None for s in steps):
                ctx.check(len(g) == k and all((a or 0.0) == (s.get(x) or 0.0) for a, s in zip(g, steps)), "temperature-maintenance series is not aligned with the steps", series=x, **info)
    out = dt * sum(1 for s in steps if s["usable_volume_supplyT_gal"] <= 0)
    ctx.check(run.outage_minutes == out, "outage minutes differ from the minutes without usable water", got=run.outage_minutes, want=out, **info)
    sm = run.get_summary()
    hrs = dt / 60
    kw = [(s["heater_power_in_kw"] or 0.0) + (s.get("tm_heater_input_kw") or 0.0) for s in steps]
    ctx.check(sm["successful"] == (out == 0) == run.is_successful(), "success means no outage minute", got=sm["successful"], **info)
    ctx.check(sm["total_outage_min"] == out and sm["num_steps_recorded"] == k and sm["stopped_early"] == (stop is not None), "summary differs from the record", got=sm, **info)
    ctx.close(sm["total_energy_kwh"], sum(kw) * hrs, "summary energy is power x time", rtol=1e-9, **info)
    ctx.close(sm["peak_demand_kw"], max(kw, default=0.0), "summary peak is the highest step power", **info)
    for m in (out - dt, out, out + dt):
        ctx.check(run.is_successful(m) == (out <= m), "success with an outage allowance", allowance=m, out=out, **info)
    return steps, out


def message(ctx, run, steps, out, dt, swing, info):
    msg = run.get_failure_message()
    if out == 0:
        ctx.check("fail" not in msg.lower() and "succe" in msg.lower(), "message of a successful run", got=msg, **info)
        return
    cold = [i for i, s in enumerate(steps) if s["usable_volume_supplyT_gal"] <= 0]
    temps = [steps[i]["tm_tank_temp_f"] if swing else steps[i]["tank_temps_f"][5] for i in cold]
    nums = [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?", msg)]
    ctx.check("fail" in msg.lower() and len(nums) >= 3 and nums[0] == out and nums[1] == cold[0] * dt // 1440 + 1 and abs(nums[2] - sum(temps) / len(temps)) <= 0.0501,
              "failure message gives the outage minutes, its first day and the mean delivered temperature", got=msg, want=[out, cold[0] * dt // 1440 + 1, sum(temps) / len(temps)], **info)


def sub_bursts(ctx, where, explicit, step):
    b = building(100.0)
    off = dict(start=0, noon=700, second=1430, end=4320 - 16)[where]
    mk = globals()["step"]
    for r1 in range(0, 13, step):
        for r2 in list(range(0, 13, 2)) + [11]:
            for gap in (1, 2):
                bad = set(range(off, off + r1)) | set(range(off + r1 + gap, off + r1 + gap + r2))

                def script(i):
                    t = SUP - 5.0 - 1e-9 if i in bad else SUP - 5.0
                    return mk(i, delivery=t, top=(150.0 if i in bad else 40.0) if explicit else None, power=1.5 if i % 2 else None)
                sysm = Scripted(script)
                run = Simulator.simulate(sysm, b, "3day")
                stop = stop_at([i in bad for i in range(4320)], 1, 10)
                judge_run(ctx, run, script, 4320, 1, stop, 4320, SUP, dict(r1=r1, r2=r2, gap=gap))
                ctx.check(sysm.calls == [(i, 1) for i in range(len(sysm.calls))], "steps are simulated once each, in order, one minute long", r1=r1, r2=r2)
                ctx.states += 1; ctx.transitions += len(sysm.calls); ctx.outcome(stop)


def sub_annual_bursts(ctx):
    b = building(100.0)
    for bad in (set(), {0}, {0, 1}, {100, 102}, {52558, 52559}, {52559}, {777, 778}):
        script = lambda i: step(i, delivery=SUP - 9 if i in bad else SUP, usable=0.0 if i % 6000 == 5 else 1e-9, power=float(i % 13))
        sysm = Scripted(script)
        run = Simulator.simulate(sysm, b, "annual")
        stop = stop_at([i in bad for i in range(52560)], 10, 10)
        steps, out = judge_run(ctx, run, script, 52560, 10, stop, 525600, SUP, dict(bad=sorted(bad)))
        message(ctx, run, steps, out, 10, False, dict(bad=sorted(bad)))
        ctx.check(run.duration_min == 525600 and run.timestep_min == 10 and run.num_steps == 52560, "annual run covers 365 days in 10-minute steps", got=(run.duration_min, run.timestep_min, run.num_steps))
        ctx.check(sysm.calls == [(i, 10) for i in range(len(sysm.calls))], "annual steps")
        ctx.states += 1; ctx.transitions += len(sysm.calls)


def sub_outages(ctx, k):
    """Usable volumes of 0, below 0 and just above 0 at every day, with and without a loop tank."""
    b = building(100.0)
    for pos in (0, 1, 1439, 1440, 2879, 2880, 4319):
        for n in (1, 2, 30):
            for v in (0.0, -3.0, 1e-12, -0.0):
                dry = set(range(pos, min(4320, pos + n)))
                tm = dict(tm_tank_temp_f=101.0 + pos % 17, tm_heater_output_kbtuh=2.0, tm_heater_input_kw=0.5) if k % 2 else None
                script = lambda i: step(i, usable=v if i in dry else 4.0 if n > 1 else 3e-3, delivery=SUP, top=99.0 + i % 23, tm=tm, power=1.0)
                if k >= 2:
                    sysm = SwingScripted(script)
                else:
                    sysm = Scripted(script)
                run = Simulator.simulate_3day(sysm, b)
                steps, out = judge_run(ctx, run, script, 4320, 1, None, 4320, SUP, dict(pos=pos, n=n, v=v))
                message(ctx, run, steps, out, 1, k == 3, dict(pos=pos, n=n, v=v, swing=k))
                ctx.states += 1; ctx.transitions += 4320; ctx.outcome(out, pos)


class SwingScripted(SwingSystem):
    def __init__(self, script):
        super().__init__([], None, SUP, 150.0, 112.0, 3.0)
        self.script = script

    def simulate_step(self, building, timestep_interval, interval_min=1, mode="normal"):
        return self.script(timestep_interval)


def sub_records(ctx, k):
    """All 4-step patterns of absent/zero/present power and loop-heater values, written out and read back."""
    tms = [None, dict(tm_tank_temp_f=118.0, tm_heater_output_kbtuh=0.0, tm_heater_input_kw=None), dict(tm_tank_temp_f=121.5, tm_heater_output_kbtuh=7.0, tm_heater_input_kw=2.25)]
    pws = [None, 0.0, 3.75]
    tmp = tempfile.mkdtemp(prefix="p14")
    try:
        choices = list(product(range(3), range(3)))
        for rest in product(range(9), repeat=2):
            pat = [choices[k], choices[rest[0]], choices[rest[1]], choices[(rest[0] + k) % 9]]
            # a plant either has a loop heater or not: no pattern mixes the two
            if any(t == 0 for _, t in pat) and any(t for _, t in pat):
                pat = [(p, t or 1) for p, t in pat]
            dt = (1, 10)[(k + rest[0]) % 2]
            r = SimulationRun(4 * dt, dt)
            script = lambda i: step(i, power=pws[pat[i][0]], tm=tms[pat[i][1]], usable=(0.0 if rest[1] == i else 2.0))
            for i in range(4):
                s = script(i)
                r.record_timestep(s["demand_supplyT_gal"], s["usable_volume_supplyT_gal"], s["heater_output_kbtuh"], s["heater_power_in_kw"], s["oat_f"], s["inlet_water_temp_f"],
                                  s["tank_temps_f"], s["mode"], s.get("tm_tank_temp_f"), s.get("tm_heater_output_kbtuh"), s.get("tm_heater_input_kw"))
                if s["usable_volume_supplyT_gal"] <= 0:
                    r.record_outage(dt)
            info = dict(pattern=pat, dt=dt)
            steps, _ = judge_run(ctx, r, script, 4, dt, None, 4 * dt, SUP, info)
            path = os.path.join(tmp, "r.csv")
            r.to_csv(path)
            rows = list(csv.DictReader(open(path)))
            ctx.check(len(rows) == 4, "exported record has one row per step", got=len(rows), **info)
            for i, (row, s) in enumerate(zip(rows, steps)):
                num = lambda x: None if row[x] in ("", "None") else float(row[x])
                ok = num("timestep") == i and num("time_min") == i * dt and num("dhw_demand_supplyT_gal") == s["demand_supplyT_gal"]
                ok = ok and all(num(x) == s[x] for x in REG[1:])
                ok = ok and all(num(f"tank_temp_{p}pct") == t for p, t in zip((0, 20, 40, 60, 80, 100), s["tank_temps_f"]))
                ctx.check(ok, "exported row differs from the recorded step", row=dict(row), step=s, i=i, **info)
            ctx.states += 1; ctx.transitions += 5; ctx.outcome(pat)
    finally:
        import shutil
        shutil.rmtree(tmp)


class _Seen(Exception):
    pass


def sub_start(ctx, kind):
    """The tanks the first step sees."""
    cfgs = "one"
    for onf in [x / 20 for x in range(1, 21)] + [0.333, 0.999]:
        for shape in ("normal", "no_normal", "second_heater", "no_controls", "normal_last"):
            for inlet in (40.0, 55.0):
                real, ref = P12.make(kind, cfgs)
                c = lambda f: Controls(f, 118.0, min(0.1, f), 125.0, 150.0)
                h = lambda m, s: WaterHeater.from_nominal_capacity(50.0, s, m)
                sh = ["normal"] * 24
                if shape == "normal":
                    real.water_heaters = [h({"normal": c(onf)}, sh)]
                elif shape == "normal_last":
                    real.water_heaters = [h({"shed": c(0.77), "loadUp": c(0.22), "normal": c(onf)}, sh)]
                elif shape == "no_normal":
                    real.water_heaters = [h({"shed": c(onf), "loadUp": c(0.9)}, ["shed"] * 24)]
                elif shape == "second_heater":
                    real.water_heaters = [h(None, None), h({"normal": c(onf)}, sh), h({"normal": c(0.9)}, sh)]
                else:
                    real.water_heaters = [h(None, None)]
                for x in real.water_heaters:
                    x.turn_on()
                # leave the tank in an unrelated state first
                real.storage_tank.initialize(131.0, 61.0, 0.13)
                b = building(100.0, inlet=inlet)
                seen = []

                def first(building, timestep_interval, interval_min=1, mode="normal"):
                    seen.append([real.storage_tank.get_temperature_at_fraction(f / 20) for f in range(21)])
                    tm = getattr(real, "tm_storage_tank", None)
                    seen.append(None if tm is None else tm.get_temperature_at_fraction(0.5))
                    seen.append([w.is_active() for w in real.water_heaters])
                    raise _Seen()
                real.simulate_step = first
                try:
                    Simulator.simulate(real, b, "3day")
                except _Seen:
                    pass
                want = 1.0 if shape == "no_controls" else 1.0 - onf
                fresh = type(real.storage_tank)(real.storage_tank.total_volume_gal, 48.0, 140.0, SUP, 0.9, 0.8) if kind == "mprtp" else StratifiedTank(300.0, 2.8)
                fresh.initialize(real.storage_temp_f, inlet, want)
                exp = [fresh.get_temperature_at_fraction(f / 20) for f in range(21)]
                ctx.check(all(abs(a - e) < 1e-6 for a, e in zip(seen[0], exp)), "the run does not start from the charge at which the normal aquastat calls for heat", kind=kind, on_fraction=onf, shape=shape, got=seen[0], want=exp)
                if seen[1] is not None:
                    ctx.close(seen[1], real.tm_off_temp_f, "loop tank starts at its off temperature", kind=kind)
                ctx.check(not any(seen[2]), "heaters are off at the start", kind=kind, shape=shape)
                ctx.states += 1; ctx.transitions += 1; ctx.outcome(exp[10])


def sub_replay(ctx, kind, V, duration):
    """The record of a simulation is exactly the sequence of its steps."""
    b = building(600.0, zone=None if duration == "3day" else 33)
    dt, n = (1, 4320) if duration == "3day" else (10, 52560)
    a, _ = P12.make(kind, "one", V=V)
    c, _ = P12.make(kind, "one", V=V)
    run = Simulator.simulate(a, b, duration)
    c.storage_tank.initialize(c.storage_temp_f, b.get_design_inlet_water_temp_f(), 1.0 - c.water_heaters[0].control_map["normal"].on_sensor_fract)
    if getattr(c, "tm_storage_tank", None) is not None:
        c.tm_storage_tank.initialize(c.tm_off_temp_f, b.get_design_inlet_water_temp_f(), 1.0)
    steps, bad, stop = [], [], None
    for i in range(n):
        s = c.simulate_step(b, i, dt)
        steps.append(s)
        bad.append(s.get("delivery_temp_f", s["tank_temps_f"][-1]) < SUP - 5)
        ctx.transitions += 2
        if all(bad[-(10 // dt + 1):]) and len(bad) >= 10 // dt + 1:
            stop = i
            break
    judge_run(ctx, run, lambda i: steps[i], n, dt, stop, n * dt, SUP, dict(kind=kind, V=V, duration=duration))
    if not any(bad) or kind == "swing":
        message(ctx, run, steps, run.outage_minutes, dt, kind == "swing", dict(kind=kind))
    ctx.states += len(steps); ctx.outcome(stop, run.outage_minutes)


def sub_settings(ctx):
    b = building(100.0)
    ok = lambda i: step(i)
    for d, dt, n in (("3day", 1, 4320), ("annual", 10, 52560)):
        s = Scripted(ok)
        r = Simulator.simulate(s, b, d)
        ctx.check((r.duration_min, r.timestep_min, r.num_steps, len(r.oat_f)) == (n * dt, dt, n, n), "run length", duration=d)
        ctx.check(r.supply_temp_f == SUP, "supply temperature kept with the run")
        f = Simulator.simulate_3day if d == "3day" else Simulator.simulate_annual
        r2 = f(Scripted(ok), b)
        ctx.check((r2.duration_min, r2.timestep_min, len(r2.oat_f)) == (n * dt, dt, n), "named entry points run their own duration", duration=d)
        ctx.states += 2; ctx.transitions += 2 * n
    for bad in ("3days", "", None, "ANNUAL", 3, "7day"):
        try:
            Simulator.simulate(Scripted(ok), b, bad)
            ctx.fail("an unknown duration is accepted", duration=bad)
        except ValueError:
            pass
        ctx.states += 1; ctx.judgements += 1
    # thresholds reach the run; supply temperature of the plant is used
    for thr, lim, sup in product((0.0, 2.0, 5.0, 20.0), (0, 3, 10, 25), (110.0, 140.0)):
        for mult in (1.0 + 1e-9, 1.0):
            t = sup - thr * mult if thr else sup - (1e-9 if mult > 1 else 0.0)
            script = lambda i: step(i, delivery=t if i >= 7 else sup)
            r = Simulator.simulate(Scripted(script, supply=sup), b, "3day", outlet_deficit_threshold_f=thr, outlet_deficit_max_min=lim)
            deficit = t < sup - thr
            ctx.check(len(r.oat_f) == (7 + lim + 1 if deficit else 4320), "deficit settings of the run are respected", threshold=thr, limit=lim, supply=sup, temp=t, got=len(r.oat_f))
            ctx.states += 1; ctx.transitions += len(r.oat_f)


def sub_plot(ctx):
    """Plotted series are the recorded ones; shaded bands are exactly the shed and load-up steps."""
    try:
        import plotly  # noqa
    except ImportError:
        return
    modes = (["normal"] * 3 + ["loadUp"] * 2 + ["shed"] * 4 + ["normal"] * 2) * 2 + ["shed"]
    for dt in (1, 10):
        for rot in range(0, len(modes), 3):
            ms = modes[rot:] + modes[:rot]
            r = SimulationRun(len(ms) * dt, dt)
            r.supply_temp_f = SUP
            for i, m in enumerate(ms):
                s = step(i, usable=20.0 - i / 3, mode=m)
                r.record_timestep(*[s[x] for x in REG], s["tank_temps_f"], m)
            fig = r.to_plotly(include_temperatures=True)
            ys = [list(t.y) for t in fig.data]
            has = lambda y: any(len(z) == len(y) and all(abs(p - q) < 1e-9 for p, q in zip(z, y)) for z in ys)
            ctx.check(has(r.usable_volume_supplyT_gal), "plot shows the usable volume", dt=dt)
            ctx.check(has([v * 60 / dt for v in r.dhw_demand_supplyT_gal]), "plot shows the demand as gallons per hour", dt=dt)
            ctx.check(has(r.oat_f) and has(r.inlet_water_temp_f) and all(has(t) for t in r.tank_temps_f), "plot shows the recorded temperatures", dt=dt)
            ctx.check(has([o * 1000.0 / (8.353535 * (SUP - t)) for o, t in zip(r.heater_output_kbtuh, r.inlet_water_temp_f)]), "plot shows the heaters' output as gallons per hour at supply temperature", dt=dt)
            ctx.check(all(list(t.x) == [i * dt for i in range(len(ms))] for t in fig.data), "every plotted value stands at its own minute", dt=dt)
            for k, y in (("usable", r.usable_volume_supplyT_gal), ("oat", r.oat_f), ("inlet", r.inlet_water_temp_f), ("tank 0%", r.tank_temps_f[0]), ("tank 40%", r.tank_temps_f[2]), ("tank 100%", r.tank_temps_f[5])):
                mine = [list(t.y) for t in fig.data if k in (t.name or "").lower()]
                ctx.check(not mine or mine == [y], "plotted series carry their own names", dt=dt, series=k)
            few = [list(t.y) for t in r.to_plotly().data]
            ctx.check(len(few) == 3 and all(y in ys for y in few), "without temperatures the plot has volume, demand and heating only", dt=dt, got=len(few))
            with tempfile.TemporaryDirectory(dir=os.environ.get("MC_SCRATCH")) as tmp:
                path = os.path.join(tmp, "plot.html")
                ctx.check(len(r.to_plotly(filepath=path).data) == 3 and os.path.getsize(path) > 1000 and os.listdir(tmp) == ["plot.html"], "the plot is written to the file asked for, and returned", dt=dt)
            tm = SimulationRun(len(ms) * dt, dt)
            tm.supply_temp_f, tm.show_tm_panel = SUP, True
            for i, m in enumerate(ms):
                s = step(i, usable=20.0 - i / 3, mode=m)
                tm.record_timestep(*[s[x] for x in REG], s["tank_temps_f"], m, 121.0 + i % 4, 7.0 * (i % 2), 2.0 * (i % 2))
            zs = [list(t.y) for t in tm.to_plotly(include_temperatures=True).data]
            ctx.check(sorted(zs) == sorted(ys + [tm.tm_heater_output_kbtuh, tm.tm_tank_temp_f]), "the loop panel adds the loop heater's output and the loop tank's temperature", dt=dt)
            bands = sorted((s.x0, s.x1) for s in fig.layout.shapes)
            want, i = [], 0
            while i < len(ms):
                j = i
                while j < len(ms) and ms[j] == ms[i]:
                    j += 1
                if ms[i] != "normal":
                    want.append((i * dt, j * dt))
                i = j
            notes = [(a.x, (a.text or "").lower()) for a in fig.layout.annotations if a.text]
            for word, mode in (("shed", "shed"), ("load", "loadUp")):
                at = [x for x, t in notes if word in t]
                ctx.check(all(x is None or any(lo - 1e-9 <= x <= hi + 1e-9 and ms[int(lo // dt)] == mode for lo, hi in want) for x in at), "a band carries its own label", got=notes)
            ctx.check(bands == sorted(want), "shaded bands are exactly the load-up and shed periods", got=bands, want=want)
            ctx.states += 1; ctx.transitions += 1; ctx.outcome(bands)
