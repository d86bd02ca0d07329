"""Reference models of the storage tanks, written from the documented physics in gallons and
degrees (a ramp that slides through the tank, an energy account, a mixed volume, a mixed slug),
independently of the implementation's percentage/shift bookkeeping."""
from __future__ import annotations

RHO_CP = 8.353535          # BTU / gal / F


def clip(x, lo, hi):
    return max(lo, min(hi, x))


def ramp_area(lo, hi, z, g, cold, hot):
    """Integral over heights [lo, hi] (gal) of the temperature clip(g*(x-z), cold, hot)."""
    if hi <= lo:
        return 0.0
    a, b = clip(z + cold / g, lo, hi), clip(z + hot / g, lo, hi)
    mid = g * ((b - z) ** 2 - (a - z) ** 2) / 2.0
    return cold * (a - lo) + mid + hot * (hi - b)


class RefStrat:
    """State: z (height in gal at which the extended ramp would read 0 F), cold and outlet temps."""

    def __init__(self, V, slope):
        self.V, self.g = V, slope * 100.0 / V
        self.z, self.cold, self.hot = 0.0, 50.0, 140.0

    def key(self):
        return (round(self.z, 6), self.cold, self.hot)

    def initialize(self, storage, cold, useable):
        self.cold, self.hot = cold, storage
        self.z = (1.0 - useable) * self.V - cold / self.g

    def line(self, x):
        return self.g * (x - self.z)

    def temp(self, f):
        return clip(self.line(f * self.V), self.cold, self.hot)

    def usable(self, supply):
        if supply > self.hot:
            return 0.0
        return self.V - clip(self.z + supply / self.g, 0.0, self.V)

    def avg(self, gal):
        gal = min(gal, self.V)
        if gal <= 0:
            return self.hot
        return ramp_area(self.V - gal, self.V, self.z, self.g, self.cold, self.hot) / gal

    def heat_content(self):
        return RHO_CP * (ramp_area(0.0, self.V, self.z, self.g, self.cold, self.hot) - self.V * self.cold)

    def interior(self):
        """Cold water present at the bottom and outlet-temperature water at the top."""
        return self.line(0.0) <= self.cold + 1e-9 and self.line(self.V) >= self.hot - 1e-9

    def _up(self, d, floor):
        before = self.z
        zmax = self.V - floor / self.g          # top of the tank reads `floor`
        self.z = min(before + d, max(before, zmax))

    def draw(self, v, cold, supply, outlet):
        self.cold, self.hot = cold, outlet
        if outlet <= cold or v <= 0:
            return
        need = v * (supply - cold)
        d0 = need / (outlet - cold)
        if self.avg(d0) >= outlet - 1e-6:
            d = d0
        else:
            lo, hi = min(d0, self.V), self.V
            for _ in range(100):
                m = (lo + hi) / 2
                if m * (self.avg(m) - cold) < need:
                    lo = m
                else:
                    hi = m
            d = hi
        self._up(d, supply)

    def heat(self, kbtuh, minutes, outlet):
        self.hot = outlet
        if kbtuh <= 0 or outlet <= self.cold:
            return
        d = kbtuh * 1000.0 * minutes / 60.0 / (RHO_CP * (outlet - self.cold))
        self.z = max(self.z - d, -outlet / self.g)

    def recirc(self, gpm, ret, minutes, supply=None):
        if self.hot <= self.cold:
            return
        sup = self.hot if supply is None else supply
        self.z += gpm * minutes * (sup - ret) / (self.hot - self.cold)

    def draw_gal(self, gal, inlet, supply=None):
        self.cold = inlet
        if gal > 0:
            self._up(gal, inlet if supply is None else supply)


class RefEnergy:
    """State: stored heat E above cold (BTU); the profile is the ramp that holds that heat."""

    def __init__(self, V, cold, storage, slope, dead=0.0):
        self.V, self.cold, self.hot, self.g = V, cold, storage, slope * 100.0 / V
        self.dead = dead * V                  # gallons below the inlet pipe
        self.E = 0.0

    def key(self):
        return (round(self.E, 4), self.cold, self.hot)

    def emax(self):
        return (self.V - self.dead) * RHO_CP * (self.hot - self.cold)

    def heat_at(self, y):
        """Heat when the ramp leaves `cold` at height y (gal, may be outside the tank)."""
        z = y - self.cold / self.g
        return RHO_CP * (ramp_area(self.dead, self.V, z, self.g, self.cold, self.hot) - (self.V - self.dead) * self.cold)

    def y(self):
        E = clip(self.E, 0.0, self.emax())
        top, bot = self.V, -(self.hot - self.cold) / self.g
        if E <= 0:
            return top
        if E >= self.emax():
            return bot                        # ramp just below the bottom: whole tank hot
        lo, hi = bot, top
        for _ in range(90):
            m = (lo + hi) / 2
            if self.heat_at(m) > E:
                lo = m
            else:
                hi = m
        return (lo + hi) / 2

    def temp(self, f):
        x = f * self.V
        if x < self.dead - 1e-12 * self.V:
            return self.cold
        return clip(self.cold + self.g * (x - self.y()), self.cold, self.hot)

    def usable(self, supply):
        if supply > self.hot:
            return 0.0
        return self.V - clip(self.y() + (supply - self.cold) / self.g, 0.0, self.V)

    def zone_avg(self, lo, hi):
        if hi <= lo:
            return self.cold
        z = self.y() - self.cold / self.g
        return ramp_area(lo, hi, z, self.g, self.cold, self.hot) / (hi - lo)

    def avg(self, gal):
        gal = min(gal, self.V)
        return self.hot if gal <= 0 else self.zone_avg(self.V - gal, self.V)

    def initialize(self, storage, cold, useable):
        self.cold, self.hot = cold, storage
        self.E = self.heat_at((1.0 - useable) * self.V)

    def draw(self, v, cold, supply, outlet):
        self.cold = cold
        if v > 0 and supply > cold:
            self.E = max(0.0, self.E - v * RHO_CP * (supply - cold))

    def heat(self, kbtuh, minutes, outlet):
        if kbtuh > 0 and outlet > self.cold:
            self.E = min(self.E + kbtuh * 1000.0 * minutes / 60.0, self.emax())

    def add(self, btu):
        if btu > 0:
            self.E = min(self.E + btu, self.emax())

    def recirc(self, gpm, ret, minutes, supply=None):
        sup = self.hot if supply is None else supply
        self.E = max(0.0, self.E - gpm * minutes * RHO_CP * (sup - ret))

    def draw_gal(self, gal, inlet, supply=None, update=True):
        if update:
            self.cold = inlet
        if gal > 0:
            self.E = max(0.0, self.E - gal * RHO_CP * max(0.0, self.avg(gal) - inlet))


class RefSlug(RefEnergy):
    """RefEnergy plus a mixed slug occupying the bottom of the usable zone while heating."""

    def __init__(self, V, cold, storage, supply, useable, slope):
        super().__init__(V, cold, storage, slope, dead=1.0 - useable)
        self.supply, self.cap = supply, useable * V
        self.slug = None                      # [volume, temperature, original volume]

    def key(self):
        return super().key() + ((None,) if self.slug is None else tuple(round(v, 5) for v in self.slug))

    def initialize(self, storage, cold, useable):
        self.cold, self.hot, self.slug = cold, storage, None
        if storage <= cold or useable <= 0:
            self.E = 0.0
            return
        # the height (1-useable) is exactly at supply temperature
        y = (1.0 - useable) * self.V - (self.supply - cold) / self.g
        self.E = clip(self.heat_at(y), 0.0, self.emax())

    def activate(self, supply):
        if self.slug is not None:
            return
        top = clip(self.y() + (supply - self.cold) / self.g, self.dead, self.V)
        vol = top - self.dead
        self.slug = [vol, self.zone_avg(self.dead, top) if vol > 0 else self.cold, vol]

    def slug_top(self):
        return self.dead + self.slug[0]

    def heat_slug(self, kbtuh, minutes):
        if self.slug is None or self.slug[0] <= 0 or kbtuh <= 0:
            return
        self.slug[1] += kbtuh * 1000.0 * minutes / 60.0 / (self.slug[0] * RHO_CP)

    def draw_gal(self, gal, inlet, supply=None, update=True):
        if self.slug is None:
            return super().draw_gal(gal, inlet, supply, update)
        if gal <= 0:
            return
        s = self.slug
        out = max(0.0, gal - max(0.0, self.cap - s[0]))     # part of the draw that comes out of the slug itself
        keep = s[0] - out
        s[1] = (keep * s[1] + gal * inlet) / (keep + gal) if keep > 0 else inlet
        s[0] = min(keep + gal, self.cap)

    def deactivate(self):
        if self.slug is None:
            return
        vol, temp, orig = self.slug
        e = max(0.0, vol * RHO_CP * (temp - self.cold))
        above = self.cap - vol
        if above > 1e-9:
            moved = vol - orig
            e += max(0.0, above * RHO_CP * (self.zone_avg(self.V - moved - above, self.V - moved) - self.cold))
        self.E, self.slug = e, None

    def temp(self, f):
        if self.slug is None:
            return super().temp(f)
        x = f * self.V
        if x < self.dead - 1e-12 * self.V:
            return self.cold
        if x <= self.slug_top() + 1e-12 * self.V:
            return clip(self.slug[1], self.cold, self.hot)
        return super().temp((x - (self.slug[0] - self.slug[2])) / self.V)

    def usable(self, supply):
        if self.slug is None:
            return min(super().usable(supply), self.cap)
        return self.cap - self.slug[0] + (self.slug[0] if self.slug[1] >= supply else 0.0)


class RefMixed:
    def __init__(self, V):
        self.V, self.T = V, 0.0

    def key(self):
        return (round(self.T, 6),)

    def initialize(self, storage, cold, useable):
        self.T = storage

    def temp(self, f):
        return self.T

    def avg(self, gal):
        return self.T

    def usable(self, supply):
        return self.V if self.T >= supply else 0.0

    def swap(self, gal, temp):
        """`gal` gallons leave at tank temperature and are replaced at `temp`."""
        if gal > 0:
            gal = min(gal, self.V)
            self.T += gal * (temp - self.T) / self.V

    def draw(self, v, cold, supply, outlet):
        if self.T > cold and v > 0:
            self.swap(v * (supply - cold) / (self.T - cold), cold)

    def draw_gal(self, gal, inlet, supply=None):
        self.swap(gal, inlet)

    def mix_in(self, gal, temp):
        self.swap(gal, temp)

    def recirc(self, gpm, ret, minutes):
        self.T += gpm * minutes * (ret - self.T) / self.V

    def heat(self, kbtuh, minutes, outlet=None):
        if kbtuh > 0:
            self.T += kbtuh * 1000.0 * minutes / 60.0 / (self.V * RHO_CP)

    def lose(self, kbtuh, minutes):
        if kbtuh > 0 and minutes > 0:
            self.T -= kbtuh * 1000.0 * minutes / 60.0 / (self.V * RHO_CP)
