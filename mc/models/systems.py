"""Reference step models of the hot-water systems: aquastats with hysteresis, heaters, and the
order of heating, drawing and loop losses within one timestep, written over the reference tanks.
`step` returns what the system has to report for the step."""
from __future__ import annotations
from . import tanks as T

RHO_CP = T.RHO_CP
KW = 3.412142
NODES = (0.0, 0.2, 0.4, 0.6, 0.8, 1.0)
EPS = 2e-3      # F: a decision this close to its trigger is left to the implementation


class RefHeater:
    """modes: {name: (on_fract, on_temp, off_fract, off_temp, outlet)}; schedule: 24 names.
    cap/power: functions (oat, outlet, inlet) -> kBTU/h, kW or None."""

    def __init__(self, schedule, modes, cap, power=lambda o, t, i: None):
        self.schedule, self.modes, self.cap, self.power, self.on = schedule, modes, cap, power, False

    def ctl(self, hour):
        return self.modes[self.schedule[hour]]

    def outlet(self, hour):
        return self.ctl(hour)[4]

    def shifting(self):
        return "loadUp" in self.modes or "shed" in self.modes

    def update(self, tank, hour, hint=None, eps=EPS):
        onf, ont, offf, offt, _ = self.ctl(hour)
        if self.on:
            t, trig = tank.temp(offf), offt
            new = not (t >= trig)
        else:
            t, trig = tank.temp(onf), ont
            new = t < trig
        if new != hint and hint is not None and abs(t - trig) < eps:
            new = hint
        self.on = new


class RefSystem:
    """Single storage tank without loop losses in the primary (also the primary of a parallel loop)."""

    def __init__(self, tank, heaters, supply, storage):
        self.tank, self.heaters, self.supply, self.storage = tank, heaters, supply, storage

    def key(self):
        return (self.tank.key(), tuple(h.on for h in self.heaters))

    def env(self, b, i, dt):
        avg = any(h.shifting() for h in self.heaters)
        return b.get_dhw_load_supplyT_gal(i, dt, use_avg=avg), b.get_oat_f(i, dt), b.get_inlet_water_temp_f(i, dt)

    def fire(self, hour, oat, inlet, hints, tank=None):
        tank = tank or self.tank
        for h, hint in zip(self.heaters, hints):
            h.update(tank, hour, hint)
        act = [h for h in self.heaters if h.on]
        kbtuh = sum(h.cap(oat, h.outlet(hour), inlet) for h in act)
        kws = [h.power(oat, h.outlet(hour), inlet) for h in act]
        kw = sum(k or 0.0 for k in kws) if any(k is not None for k in kws) else None
        return kbtuh, kw

    def base(self, b, i, dt, hints):
        demand, oat, inlet = self.env(b, i, dt)
        hour = (i * dt // 60) % 24
        kbtuh, kw = self.fire(hour, oat, inlet, hints)
        out = max(h.outlet(hour) for h in self.heaters)
        return demand, oat, inlet, hour, kbtuh, kw, out

    def report(self, demand, oat, inlet, hour, kbtuh, kw, **extra):
        r = dict(demand_supplyT_gal=demand, usable_volume_supplyT_gal=self.tank.usable(self.supply), heater_output_kbtuh=kbtuh,
                 heater_power_in_kw=kw, oat_f=oat, inlet_water_temp_f=inlet, tank_temps_f=[self.tank.temp(f) for f in NODES],
                 mode=self.heaters[0].schedule[hour])
        r.update(extra)
        return r

    def step(self, b, i, dt, hints, tm_hint=None):
        demand, oat, inlet, hour, kbtuh, kw, out = self.base(b, i, dt, hints)
        self.tank.heat(kbtuh, dt, out)
        self.tank.draw(demand, inlet, self.supply, out)
        return self.report(demand, oat, inlet, hour, kbtuh, kw)


class RefSPRTP(RefSystem):
    def __init__(self, tank, heaters, supply, storage, ret, gpm):
        super().__init__(tank, heaters, supply, storage)
        self.ret, self.gpm = ret, gpm

    def step(self, b, i, dt, hints, tm_hint=None):
        r = super().step(b, i, dt, hints)
        self.tank.recirc(self.gpm, self.ret, dt, self.supply)
        r["usable_volume_supplyT_gal"] = self.tank.usable(self.supply)
        r["tank_temps_f"] = [self.tank.temp(f) for f in NODES]
        return r


class RefParallel(RefSystem):
    def __init__(self, tank, heaters, supply, storage, ret, gpm, tm_tank, tm_heater, n_tm, on, off):
        super().__init__(tank, heaters, supply, storage)
        self.ret, self.gpm, self.tm, self.tmh, self.n, self.on_t, self.off_t = ret, gpm, tm_tank, tm_heater, n_tm, on, off

    def key(self):
        return super().key() + (self.tm.key(), self.tmh.on)

    def step(self, b, i, dt, hints, tm_hint=None):
        r = super().step(b, i, dt, hints)
        hour = (i * dt // 60) % 24
        self.tm.recirc(self.gpm, self.ret, dt)
        self.tmh.update(self.tm, hour, tm_hint, 1e-6)
        kbtuh, kw = 0.0, None
        if self.tmh.on:
            t, mid = self.tm.temp(1.0), (self.on_t + self.off_t) / 2
            kbtuh = self.tmh.cap(r["oat_f"], t, mid) * self.n
            kw = self.tmh.power(r["oat_f"], t, mid)
            kw = None if kw is None else kw * self.n
        self.tm.heat(kbtuh, dt)
        r.update(tm_tank_temp_f=self.tm.temp(0.5), tm_heater_output_kbtuh=kbtuh, tm_heater_input_kw=kw)
        return r


class RefSwing(RefSystem):
    def __init__(self, tank, heaters, supply, storage, ret, gpm, tm_tank, tm_heater):
        super().__init__(tank, heaters, supply, storage)
        self.ret, self.gpm, self.tm, self.tmh = ret, gpm, tm_tank, tm_heater

    def key(self):
        return super().key() + (self.tm.key(), self.tmh.on)

    def step(self, b, i, dt, hints, tm_hint=None):
        demand, oat, inlet, hour, kbtuh, kw, out = self.base(b, i, dt, hints)
        self.tank.heat(kbtuh, dt, out)
        t0 = self.tm.T
        hw = demand * (self.supply - inlet) / (t0 - inlet) if t0 > self.supply else demand
        self.tm.mix_in(hw, self.tank.avg(hw))
        loss = self.gpm * 60 * RHO_CP * (self.supply - self.ret) / 1000
        self.tm.lose(loss, dt)
        self.tmh.update(self.tm, hour, tm_hint, 1e-4)
        tm_kbtuh = self.tmh.cap(oat, self.tm.T, None) if self.tmh.on else 0.0
        self.tm.heat(tm_kbtuh, dt)
        self.tank.draw_gal(hw, inlet, self.supply)
        r = self.report(demand, oat, inlet, hour, kbtuh, kw, delivery_temp_f=self.tm.T, tm_tank_temp_f=self.tm.T,
                        tm_heater_output_kbtuh=tm_kbtuh, tm_heater_input_kw=tm_kbtuh / KW)
        self.t0 = t0
        if t0 < self.supply:
            r["usable_volume_supplyT_gal"] = 0.0
        return r


def mixing_valve(load, flow, cold, supply, ret, hot):
    """Storage draw and temperature of the water entering storage; heat out = load heat + loop loss."""
    loss = flow * (supply - ret)
    if hot <= cold:
        return load, cold
    if load <= 0 and loss <= 0:
        return 0.0, cold
    if load * (hot - supply) > loss or hot < supply:
        return (load * (supply - cold) + loss) / (hot - cold), cold
    d = (load + flow) * (supply - ret) / (hot - ret)
    return d, (load * cold + (d - load) * ret) / d


class RefMPRTP(RefSystem):
    def __init__(self, tank, heaters, supply, storage, ret, gpm):
        super().__init__(tank, heaters, supply, storage)
        self.ret, self.gpm = ret, gpm

    def env(self, b, i, dt):
        return b.get_dhw_load_supplyT_gal(i, dt), b.get_oat_f(i, dt), b.get_inlet_water_temp_f(i, dt)

    def step(self, b, i, dt, hints, tm_hint=None):
        demand, oat, inlet = self.env(b, i, dt)
        hour = (i * dt // 60) % 24
        self.tank.cold = inlet
        was = any(h.on for h in self.heaters)
        for h, hint in zip(self.heaters, hints):
            h.update(self.tank, hour, hint, 0.02)
        act = [h for h in self.heaters if h.on]
        if act:
            self.tank.activate(self.supply)
        elif was:
            self.tank.deactivate()
        top = self.tank.temp(1.0)
        kbtuh = sum(h.cap(oat, h.outlet(hour), None) for h in act)
        kws = [h.power(oat, h.outlet(hour), None) for h in act]
        kw = sum(k or 0.0 for k in kws) if any(k is not None for k in kws) else None
        d, tin = mixing_valve(demand, self.gpm * dt, inlet, self.supply, self.ret, top)
        if act and self.tank.slug[0] > 0:
            self.tank.heat_slug(kbtuh, dt)
        if d > 0:
            self.tank.draw_gal(d, tin, update=False)
        self.last_draw = d
        return self.report(demand, oat, inlet, hour, kbtuh, kw, delivery_temp_f=self.supply if act else top)
