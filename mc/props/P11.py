"""Aquastats and schedules: the full product of heater state, hour, mode and sensor temperatures around the
triggers on the real heater and tanks, all heat/draw/hour sequences up to a depth bound, and every step of
simulated days, against the hysteresis rule."""
import copy
from itertools import product
from mc.sysexp import *

BOUNDS = dict(relation="on/off x 24 hours x modes x sensor temperatures at, 1 ulp and 1e-9..5 F around both triggers (complete product)",
              sequences="all sequences of tank heating, draws and hour changes up to depth 8 (quick) / 11 (thorough)",
              schedules="all placements of one shed block and load-up block, schedules with unconfigured modes")
ASSUMPTIONS = ["on and off triggers as documented: on below the upper sensor's trigger, off at or above the lower sensor's trigger"]
import math


def cases(tier):
    D = 8 if tier == "quick" else 11
    for ont, offt in product([100.0, 118.0, 120.0], [121.0, 120.0, 128.5, 140.0]):
        yield "relation", dict(ont=ont, offt=offt)
    for onf, offf in product([0.2, 0.5, 0.9, 1.0], [0.0, 0.15, 0.4, 0.5]):
        yield "sensors", dict(onf=onf, offf=offf)
    for kind in ("strat", "mixed"):
        for k in range(4):
            yield "sequences", dict(kind=kind, variant=k, depth=D)
    for s in range(0, 24, 4):
        yield "schedule", dict(lo=s, hi=s + 4)
    yield "unconfigured", {}
    yield "queries", {}
    yield "reschedule", {}
    for dt in (1, 5, 10, 15, 30, 60):
        yield "system", dict(dt=dt)


def around(t):
    return sorted({t - 5, t - 1e-3, t - 1e-9, math.nextafter(t, 0), t, math.nextafter(t, 1e9), t + 1e-9, t + 1e-3, t + 5})


def sub_relation(ctx, ont, offt):
    """Mixed tank: every sensor reads exactly the tank temperature, so equality is exact."""
    modes = dict(normal=(0.5, ont, 0.2, offt, 150.0), shed=(0.9, ont - 15, 0.8, offt - 12, 145.0), loadUp=(0.3, ont + 2, 0.1, offt + 6, 155.0))
    sched = (["normal", "shed", "loadUp"] * 8)
    temps = sorted({t for m in modes.values() for x in (m[1], m[3]) for t in around(x)})
    for hour in range(24):
        m = modes[sched[hour]]
        for T0 in temps:
            for on in (False, True):
                h, _ = heater(sched, modes, 50.0)
                tank = MixedStorageTank(100.0)
                tank.initialize(T0, 50.0, 1.0)
                (h.turn_on if on else h.turn_off)()
                h.update_state(tank, hour)
                ctx.transitions += 1; ctx.states += 1
                want = (not T0 >= m[3]) if on else (T0 < m[1])
                ctx.check(h.is_active() == want, "on/off decision differs from the aquastat rule", hour=hour, temp=T0, was_on=on, controls=m, got=h.is_active())
                ctx.check(tank.get_temperature_at_fraction(0.5) == T0, "reading the aquastat changed the tank")
                ctx.close(h.get_outlet_temp_f(hour), m[4], "outlet temperature is not the scheduled mode's", hour=hour)
                ctx.close(h.get_output_kbtuh(40.0, 150.0, 50.0), 50.0 if want else 0.0, "output is not capacity while on and zero while off", hour=hour)
                c = h.get_controls_for_hour(hour)
                ctx.check(c.should_turn_on(tank) == (T0 < m[1]) and c.should_turn_off(tank) == (T0 >= m[3]), "controls disagree with their triggers", temp=T0, controls=m)
                if want and T0 < m[3] or not want and T0 >= m[1]:
                    h.update_state(tank, hour)          # no change without a temperature change
                    ctx.transitions += 1
                    ctx.check(h.is_active() == want, "heater chattered without a temperature change", hour=hour, temp=T0, was_on=on)
                ctx.outcome(want, hour % 3, T0)


def sub_sensors(ctx, onf, offf):
    """Stratified tank: the decision reads the on sensor's height when off and the off sensor's height when on."""
    V = 200.0
    for ont, offt in ((110.0, 118.0), (120.0, 121.0), (118.0, 145.0)):
        modes = dict(normal=(onf, ont, offf, offt, 150.0))
        for k in range(0, 101):
            tank, ref = StratifiedTank(V, 1.7), T.RefStrat(V, 1.7)
            tank.initialize(150.0, 45.0, k / 100); ref.initialize(150.0, 45.0, k / 100)
            for on in (False, True):
                h, r = heater(["normal"] * 24, modes, 50.0)
                (h.turn_on if on else h.turn_off)(); r.on = on
                h.update_state(tank, 5)
                r.update(ref, 5, h.is_active(), 1e-6)
                ctx.transitions += 1; ctx.states += 1
                ctx.outcome(r.on, on, k)
                ctx.check(h.is_active() == r.on, "decision does not follow the sensor height", useable=k, on=on, controls=modes["normal"])


def sub_sequences(ctx, kind, variant, depth):
    V = 120.0
    modes = [dict(normal=(0.5, 118.0, 0.2, 124.0, 145.0), shed=(0.9, 112.0, 0.8, 119.0, 140.0)),
             dict(normal=(0.8, 120.0, 0.4, 120.0, 145.0), shed=(1.0, 100.0, 0.9, 105.0, 140.0)),
             dict(normal=(0.3, 119.0, 0.3, 127.0, 145.0), shed=(0.3, 110.0, 0.3, 121.0, 140.0)),
             dict(normal=(1.0, 118.0, 0.0, 130.0, 145.0), shed=(0.7, 118.0, 0.6, 126.0, 140.0))][variant]
    sched = ["normal"] * 8 + ["shed"] * 8 + ["normal"] * 8
    if kind == "strat":
        tank, ref = StratifiedTank(V, 2.8), T.RefStrat(V, 2.8)
    else:
        tank, ref = MixedStorageTank(V), T.RefMixed(V)
    tank.initialize(145.0 if kind == "strat" else 121.0, 50.0, 0.5); ref.initialize(145.0 if kind == "strat" else 121.0, 50.0, 0.5)
    h, r = heater(sched, modes, 40.0)
    ops = [("run", 3), ("run", 10), ("draw", V * 0.02), ("draw", V * 0.2), ("lose", 0.0)] if kind == "strat" else [("run", 3), ("run", 10), ("draw", V * 0.02), ("draw", V * 0.2), ("lose", 90.0)]
    seen = set()
    frontier = [(tank, ref, h, r, ())]
    for d in range(depth):
        nxt = []
        for t0, m0, h0, r0, hist in frontier:
            for (name, a), hour in product(ops, (2, 10)):
                t1, m1, h1, r1 = copy.deepcopy((t0, m0, h0, r0))
                if name == "run":
                    k = h1.get_output_kbtuh(40.0, 145.0, 50.0)
                    ctx.close(k, 40.0 if r1.on else 0.0, "output while on/off", history=hist)
                    t1.heat(k, a, 145.0); m1.heat(40.0 if r1.on else 0.0, a, 145.0)
                elif name == "draw":
                    t1.draw(a, 50.0, 115.0, 145.0); m1.draw(a, 50.0, 115.0, 145.0)
                elif name == "lose" and kind == "mixed":
                    t1.apply_fixed_heat_loss_kbtuh(a, 2); m1.lose(a, 2)
                h1.update_state(t1, hour)
                r1.update(m1, hour, h1.is_active(), 1e-3)
                ctx.transitions += 1
                hh = hist + ((name, a, hour),)
                ctx.traces += 1
                ctx.check(h1.is_active() == r1.on, "on/off state differs from the hysteresis model", history=hh)
                key = (m1.key(), r1.on)
                if key not in seen:
                    seen.add(key); ctx.states += 1; ctx.outcome(key)
                    nxt.append((t1, m1, h1, r1, hh))
        frontier = nxt


def sub_schedule(ctx, lo, hi):
    """Every start/length of a shed block with a load-up block before it: the hour's mode decides."""
    modes = dict(normal=(0.5, 115.0, 0.2, 125.0, 150.0), shed=(0.5, 105.0, 0.2, 110.0, 140.0), loadUp=(0.5, 122.0, 0.2, 135.0, 155.0))
    tank = MixedStorageTank(100.0)
    for s, n, lu in product(range(lo, hi), (1, 2, 5), (0, 1, 3)):
        sched = ["normal"] * 24
        for k in range(n):
            sched[(s + k) % 24] = "shed"
        for k in range(1, lu + 1):
            if sched[(s - k) % 24] == "normal":
                sched[(s - k) % 24] = "loadUp"
        h, _ = heater(sched, modes, 50.0)
        ctx.check(h.is_load_shifting(), "a schedule with shed controls is load shifting")
        for temp in (104.0, 108.0, 112.0, 120.0, 123.0, 130.0, 140.0):
            tank.initialize(temp, 50.0, 1.0)
            for on in (False, True):
                for hour in range(24):
                    (h.turn_on if on else h.turn_off)()
                    h.update_state(tank, hour)
                    m = modes[sched[hour]]
                    ctx.transitions += 1; ctx.states += 1
                    want = (temp < m[3]) if on else (temp < m[1])
                    ctx.check(h.is_active() == want, "decision is not the scheduled mode's", hour=hour, schedule=sched, temp=temp, was_on=on)
                    ctx.outcome(want, sched[hour], temp)


def sub_unconfigured(ctx):
    modes = dict(normal=(0.5, 115.0, 0.2, 125.0, 150.0))
    tank = MixedStorageTank(100.0)
    tank.initialize(100.0, 50.0, 1.0)
    for bad in range(24):
        sched = ["normal"] * 24
        sched[bad] = "shed"
        for on in (False, True):
            for hour in range(24):
                h, _ = heater(sched, modes, 50.0)
                (h.turn_on if on else h.turn_off)()
                ctx.transitions += 1; ctx.states += 1
                try:
                    h.update_state(tank, hour)
                    raised = False
                except ValueError:
                    raised = True
                ctx.check(raised == (hour == bad), "an hour whose mode has no controls must be rejected, others served", hour=hour, bad=bad)
                if raised:
                    ctx.check(h.is_active() == on, "a rejected update changed the heater state")
                    ctx.check(h.get_controls_for_hour(hour) is None, "no controls for the hour")
                    try:
                        h.get_outlet_temp_f(hour); ctx.fail("outlet temperature of an unconfigured hour answered", hour=hour)
                    except ValueError:
                        pass
                ctx.outcome(raised, hour)
    for sched, cmap in ((None, None), (["normal"] * 24, None), (None, {k: Controls(*v) for k, v in modes.items()})):
        h = WaterHeater.from_nominal_capacity(10.0, sched, cmap)
        for hour in range(24):
            ctx.transitions += 1
            ctx.check(h.get_controls_for_hour(hour) is None, "a heater without controls has none for any hour")
            try:
                h.update_state(tank, hour); ctx.fail("a heater without controls was operated", hour=hour)
            except ValueError:
                pass


def sub_queries(ctx):
    for names in ([], ["normal"], ["normal", "shed"], ["normal", "loadUp"], ["loadUp", "shed"], ["shed"], ["loadUp"], ["normal", "loadUp", "shed"]):
        m = {k: Controls(0.5, 115.0, 0.2, 125.0, 150.0) for k in names}
        h = WaterHeater.from_nominal_capacity(33.0, ["normal"] * 24, m)
        ctx.transitions += 1; ctx.states += 1
        ctx.outcome(tuple(names))
        ctx.check(h.is_load_shifting() == ("shed" in names or "loadUp" in names), "load shifting means a load-up or shed mode is configured", modes=names)
        ctx.check(not h.is_active(), "a new heater is off")
        for on in (True, False, True, True, False, False):
            (h.turn_on if on else h.turn_off)()
            ctx.check(h.is_active() == on, "manual switch")
            ctx.close(h.get_output_kbtuh(40.0, 140.0), 33.0 if on else 0.0, "output is capacity while on and zero while off")
            ctx.close(h.get_capacity_kbtuh(40.0, 140.0), 33.0, "capacity does not depend on the switch")
            ctx.check(h.get_power_in_kw(40.0, 140.0) is None, "a nominal heater reports no power")
    lin = WaterHeater(LinMap(50.0), ["normal"] * 24, {"normal": Controls(0.5, 115.0, 0.2, 125.0, 150.0)})
    for oat, out, inl in product((5.0, 40.0, 95.0), (120.0, 150.0), (None, 40.0, 70.0)):
        for on in (False, True):
            (lin.turn_on if on else lin.turn_off)()
            ctx.transitions += 1
            ctx.close(lin.get_output_kbtuh(oat, out, inl), lin_cap(50.0, oat, out, inl) if on else 0.0, "output is the performance map's capacity while on")
            ctx.close(lin.get_power_in_kw(oat, out, inl), lin_kw(50.0, oat, out, inl), "power is the performance map's")
    none = WaterHeater(None, ["normal"] * 24, {"normal": Controls(0.5, 115.0, 0.2, 125.0, 150.0)})
    none.turn_on()
    ctx.check(none.get_capacity_kbtuh(40.0, 140.0) is None and none.get_output_kbtuh(40.0, 140.0) == 0.0, "no performance map, no output")


def sub_system(ctx, dt):
    """Every step of three simulated days: the heater state after each step follows the rule applied to the
    profile seen before it, with the mode scheduled for that step's hour."""
    modes = dict(normal=(0.6, 118.0, 0.3, 125.0, 150.0), loadUp=(0.4, 118.0, 0.2, 130.0, 150.0), shed=(0.85, 115.0, 0.7, 122.0, 150.0))
    for lu, sh in (((4, 5), (6, 7, 8)), ((14, 15), (16, 17, 18, 19)), ((), (23, 0)), ((3,), (4, 5))):
        sched = ["loadUp" if h in lu else "shed" if h in sh else "normal" for h in range(24)]
        h, _ = heater(sched, modes, 60.0)
        s = DHWSystem([h], StratifiedTank(350.0, 2.8), 120.0, 150.0)
        s.storage_tank.initialize(150.0, 48.0, 0.5)
        b = building(500.0)
        for i in range(3 * 24 * 60 // dt):
            hour = (i * dt // 60) % 24
            m = modes[sched[hour]]
            was = h.is_active()
            t_on, t_off = s.storage_tank.get_temperature_at_fraction(m[0]), s.storage_tank.get_temperature_at_fraction(m[2])
            want = (not t_off >= m[3]) if was else (t_on < m[1])
            r = s.simulate_step(b, i, dt)
            ctx.transitions += 1; ctx.states += 1
            ctx.outcome(want, sched[hour], round(t_on, 1))
            ctx.check(h.is_active() == want, "heater state after the step does not follow the hour's mode", step=i, dt=dt, hour=hour, mode=sched[hour], t_on=t_on, t_off=t_off, was=was)
            ctx.check(r["mode"] == sched[hour], "reported mode is not the hour's", step=i, got=r["mode"])
            ctx.close(r["heater_output_kbtuh"], 60.0 if want else 0.0, "reported output does not match the heater state", step=i)


def sub_reschedule(ctx):
    """A heater whose schedule or modes are exchanged follows the new ones from then on (all sequences of three exchanges)."""
    A = dict(normal=(0.5, 115.0, 0.2, 125.0, 150.0), shed=(0.5, 105.0, 0.2, 110.0, 140.0))
    B = dict(normal=(0.5, 119.0, 0.2, 122.0, 148.0), shed=(0.5, 90.0, 0.2, 100.0, 141.0))
    scheds = [["normal"] * 24, ["normal"] * 6 + ["shed"] * 12 + ["normal"] * 6, ["shed"] * 24]
    tank = MixedStorageTank(100.0)
    for seq in product(product((A, B), range(3), (False, True)), repeat=3):
        h = None
        for modes, k, in_place in seq:
            ctl = {m: Controls(*v) for m, v in modes.items()}
            if h is None:
                h = WaterHeater.from_nominal_capacity(33.0, list(scheds[k]), ctl)
            elif in_place:
                h.control_schedule[:] = scheds[k]
                h.control_map.update(ctl)
            else:
                h.control_schedule, h.control_map = list(scheds[k]), ctl
            for hour in (0, 5, 6, 12, 17, 18, 23):
                m = modes[scheds[k][hour]]
                ctx.states += 1
                ctx.check(h.get_outlet_temp_f(hour) == m[4], "outlet temperature after the schedule was changed", hour=hour)
                for temp, on in product((95.0, 107.0, 117.0, 123.0), (False, True)):
                    tank.initialize(temp, 50.0, 1.0)
                    (h.turn_on if on else h.turn_off)()
                    h.update_state(tank, hour)
                    ctx.transitions += 1
                    ctx.check(h.is_active() == (temp < (m[3] if on else m[1])), "decision after the schedule was changed", hour=hour, temp=temp, was_on=on)
            ctx.outcome(k, in_place, modes is A)
