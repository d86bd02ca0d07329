"""Reference sizing model: plain arithmetic over 24-hour profiles, written from the
physical definition of each quantity (hot water balance of a day), without numpy."""
from statistics import NormalDist

RHO = 8.353535
KBTUH_PER_KW = 3.412142
SWING_TABLE = [40, 50, 80, 100, 120, 160, 175, 240, 350, 400, 500, 600, 800, 1000, 1250]
SWING_TABLE_CA = [80, 96, 168, 288, 480]
DEADBAND = 8.0
_DAYS = NormalDist(0.7052988591269841, 0.08236427664525116)


def coverage_fraction(pct):
    """Share of the design day's demand met on `pct` of the days."""
    return 1.0 if pct >= 1 else min(1.0, _DAYS.inv_cdf(pct))


def usable_share(on, on_t, slope, inlet, sup, sto):
    """Supply-temperature gallons per gallon of tank available above the sensor at height `on`
    when that sensor reads on_t: the profile rises `slope` degrees per percent of height up to
    the storage temperature, and only water at supply temperature or hotter counts."""
    lo = on if on_t >= sup else on + (sup - on_t) / slope / 100.0
    if lo >= 1.0:
        return 0.0
    knee = min(1.0, on + (sto - on_t) / slope / 100.0)
    t = lambda h: on_t + slope * 100.0 * (h - on)
    ramp = (knee - lo) * ((t(lo) + t(knee)) / 2.0 - inlet)
    return (ramp + (1.0 - knee) * (sto - inlet)) / (sup - inlet)


def hot_share(on, on_t, slope, sup, sto):
    """Share of the tank, in full-charge equivalents above supply temperature, above the sensor."""
    lo = on if on_t >= sup else on + (sup - on_t) / slope / 100.0
    knee = min(1.0, on + (sto - on_t) / slope / 100.0)
    return (1.0 - knee) + (knee - lo) / 2.0


def worst_deficit(supply, demand):
    """Largest shortfall accumulated over any consecutive hours of an endless repetition."""
    n = len(demand)
    worst = 0.0
    for s in range(n):
        acc = 0.0
        for k in range(n):
            acc += demand[(s + k) % n] - supply[(s + k) % n]
            if acc > worst:
                worst = acc
    return worst


class Plant:
    """Inputs of one sizing problem."""

    def __init__(self, daily, peak, avg, inlet, sup, sto, run_hr, defrost, slope, modes=None, schedule=None,
                 fract=1.0, kind="primary", flow=0.0, ret=0.0, tm_safety=1.2, er_safety=1.0):
        self.__dict__.update(locals())
        self.loss = flow * 60.0 * RHO * (sup - ret) / 1000.0 if flow else 0.0
        self.shift = bool(modes) and "shed" in modes and bool(schedule)
        self.hours = run_hr
        if self.shift:
            self.hours = min(run_hr, float(sum(m != "shed" for m in schedule)))

    # ---- pieces
    def strat(self):
        if not self.modes:
            return usable_share(0.0, self.sup, self.slope, self.inlet, self.sup, self.sto)
        ms = [self.modes["normal"]] if "normal" in self.modes else list(self.modes.values())
        return min(usable_share(m[0], m[1], self.slope, self.inlet, self.sup, self.sto) for m in ms)

    def band(self):
        lu = self.modes.get("loadUp", self.modes["normal"])
        sh = self.modes["shed"]
        return (usable_share(lu[2], lu[3], self.slope, self.inlet, self.sup, self.sto)
                - usable_share(sh[0], sh[1], self.slope, self.inlet, self.sup, self.sto))

    def first_shed(self):
        hrs = [h for h in range(24) if self.schedule[h] == "shed"]
        end = hrs[0]
        while end + 1 < 24 and self.schedule[end + 1] == "shed":
            end += 1
        block = list(range(hrs[0], end + 1))
        lu = 0
        while hrs[0] - lu - 1 >= 0 and self.schedule[hrs[0] - lu - 1] == "loadUp":
            lu += 1
        return block, lu

    def kbtuh(self, gph, hot):
        return gph * RHO * (hot - self.inlet) / self.defrost / 1000.0

    def loop_kbtuh(self):
        return self.loss * 24.0 / self.hours / self.defrost if self.kind in ("sprtp", "mprtp") else 0.0

    def load_up_rate(self, base, vshift, vlu, lu):
        if lu == 0:
            return base
        m = self.modes
        hs = lambda c: hot_share(c[0], c[1], self.slope, self.sup, self.sto)
        a_lu, a_n, a_s = hs(m.get("loadUp", m["normal"])), hs(m["normal"]), hs(m["shed"])
        if a_lu - a_s <= 0:
            return base
        return max(base, (vshift * (a_lu - a_n) / (a_lu - a_s) + vlu) / lu)

    # ---- results
    def size(self):
        return self.swing() if self.kind in ("swing", "swing_er") else self.plain()

    def plain(self):
        demand = [self.daily * p for p in self.peak]
        gph = self.daily / self.hours
        cap = self.kbtuh(gph, self.sup) + self.loop_kbtuh()
        vol = worst_deficit([gph] * 24, demand) / self.strat()
        if self.shift:
            # return-to-primary plants also carry the loop's daily heat through the shed period
            daily = self.daily + (self.loss * 1000.0 / (RHO * (self.sup - self.inlet)) * 24.0 if self.kind == "sprtp" else 0.0)
            block, lu = self.first_shed()
            use = [daily * a for a in self.avg]
            vshift = sum(use[h] for h in block) * self.fract
            vlu = sum(use[h] for h in range(block[0] - lu, block[0]))
            rate = self.load_up_rate(daily / self.hours, vshift, vlu, lu)
            cap = max(cap, self.kbtuh(rate, self.sup) + self.loop_kbtuh())
            acc = worst = 0.0
            for h in range(block[-1] + 1, 48):
                acc += use[h % 24] - (0.0 if self.schedule[h % 24] == "shed" else rate)
                worst = max(worst, acc)
            vol = max(vol, (worst * self.fract + vshift) / self.band())
        return dict(capacity=cap, storage=vol)

    # ---- swing tank
    def tm(self):
        need = max(self.loss * 1000.0 / (100.0 * KBTUH_PER_KW), self.daily * max(self.peak) / 60.0)
        if need > SWING_TABLE[-1]:
            raise ValueError("swing tank too large")
        vol = next(v for v in SWING_TABLE if v >= need)
        ca = next(v for v in SWING_TABLE_CA if v >= need) if vol < 480 else 480
        return vol, ca, self.tm_safety * self.loss

    def swing_draws(self, minutes):
        """Gallons taken from primary each minute while the swing tank serves `minutes` of demand."""
        v, _, cap = self.tm()
        t, on = self.sup + 0.1, False
        out = [minutes[0]]
        loss = self.loss * 1000.0 / 60.0 / (RHO * v)
        el = cap * 1000.0 / 60.0 / (RHO * v)
        top = self.sup + DEADBAND
        for d in minutes[1:]:
            q = d * (self.sup - self.inlet) / (t - self.inlet) if t > self.inlet else d
            out.append(q)
            if q >= v:
                raise ValueError("swing tank emptied in a minute")
            if q > 0:
                t += q / v * (self.sto - t)
            t -= loss
            if on:
                t += el
                if t > top:
                    t = max(top, t - el)
                    on = False
            elif t <= self.sup:
                t = min(self.sup, t + el)
                on = True
            if t < self.sup - 1e-9:
                raise ValueError("swing tank too cold")
        return out

    def swing(self):
        v, ca, tmcap = self.tm()
        per_min = lambda prof, start, hrs: [prof[(start + i // 60) % 24] / 60.0 for i in range(60 * hrs)]
        use = [self.daily * p for p in self.peak]
        rate0 = self.daily / self.hours
        below = [u > rate0 for u in use]
        short = [rate0 - u for u in use]
        peaks = [h for h in range(24) if 1.0 / self.hours - self.peak[h] < 0 and 1.0 / self.hours - self.peak[h - 1] >= 0]
        starts = sorted({h for p in peaks for h in (p, p + 1) if h < 24})
        worst, mix = 0.0, 1.0
        for s in starts:
            q = self.swing_draws(per_min(use, s, 24))
            m = sum(q) / self.daily
            acc = low = 0.0
            for x in q:
                acc += x - rate0 * m / 60.0
                low = max(low, acc)
            if low > worst:
                worst, mix = low, m
        conv = (self.sto - self.inlet) / (self.sup - self.inlet)
        cap = self.kbtuh(self.daily * mix / self.hours, self.sto)
        vol = worst * conv / self.strat()
        final_mix = mix
        if self.shift:
            block, lu = self.first_shed()
            use = [self.daily * a for a in self.avg]

            def through(hours):
                raw = sum(use[h] for h in hours)
                if raw <= 0:
                    return 0.0 if not hours else raw
                return sum(self.swing_draws([use[h] / 60.0 for h in hours for _ in range(60)]))
            vshift = through(block) * self.fract
            vlu = through(list(range(block[0] - lu, block[0])))
            rate = self.load_up_rate(self.daily * mix / self.hours, vshift, vlu, lu)
            cap = max(cap, self.kbtuh(rate, self.sto))
            end = block[-1] + 1
            q = self.swing_draws(per_min(use, end, 24))
            acc = low = 0.0
            for i, x in enumerate(q):
                acc += x - (0.0 if self.schedule[(end + i // 60) % 24] == "shed" else rate / 60.0)
                low = max(low, acc)
            ls = (low + vshift) * conv / self.band()
            if ls > vol:
                vol, final_mix = ls, sum(q) / self.daily
        return dict(capacity=cap, storage=vol, tm_volume=v, tm_ca=ca, tm_capacity=tmcap, mix=final_mix)
