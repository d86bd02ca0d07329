"""Builds real systems and their reference models side by side, and compares step reports."""
import copy
from ecoengine.objects.building.Building import Building
from ecoengine.objects.building.ClimateZone import ClimateZone
from ecoengine.objects.components.heating.Controls import Controls
from ecoengine.objects.components.heating.WaterHeater import WaterHeater
from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
from .models import tanks as T, systems as S

_mf = [0.02, 0.01, 0.008, 0.007, 0.01, 0.03, 0.075, 0.085, 0.07, 0.055, 0.045, 0.04, 0.04, 0.035, 0.03, 0.03, 0.035, 0.05, 0.065, 0.075, 0.07, 0.055, 0.04, 0.02]
PEAK = [x / sum(_mf) for x in _mf]
_av = [0.025, 0.015, 0.01, 0.01, 0.015, 0.03, 0.06, 0.07, 0.06, 0.05, 0.045, 0.04, 0.04, 0.04, 0.035, 0.035, 0.04, 0.05, 0.06, 0.065, 0.06, 0.055, 0.045, 0.045]
AVG = [x / sum(_av) for x in _av]


class LinMap(PerformanceMap):
    """A heater whose capacity and power depend on all three temperatures, so that a wrong
    temperature handed to the heater is visible in the reported output."""

    def __init__(self, cap, power=True):
        super().__init__(None, "lin")
        self.c, self.p = cap, power

    def get_capacity_kbtuh(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        return lin_cap(self.c, oat_f, outlet_temp_f, inlet_temp_f)

    def get_power_in_kw(self, oat_f, outlet_temp_f, inlet_temp_f=None):
        return lin_kw(self.c, oat_f, outlet_temp_f, inlet_temp_f) if self.p else None


def lin_cap(c, oat, out, inlet):
    return c * (1 + 0.004 * (oat - 40) - 0.001 * (out - 140) - 0.002 * ((55.0 if inlet is None else inlet) - 50))


def lin_kw(c, oat, out, inlet):
    return c / 3.412142 / (2.5 + 0.02 * (oat - 40) - 0.01 * (out - 140) - 0.005 * ((55.0 if inlet is None else inlet) - 50))


def heater(schedule, modes, cap, kind="nominal"):
    """(real heater, reference heater) with the same aquastats."""
    cmap = {k: Controls(*v) for k, v in modes.items()}
    if kind == "nominal":
        return (WaterHeater.from_nominal_capacity(cap, list(schedule), cmap),
                S.RefHeater(list(schedule), modes, lambda o, t, i: cap))
    power = kind != "lin_nopower"
    return (WaterHeater(LinMap(cap, power), list(schedule), cmap),
            S.RefHeater(list(schedule), modes, lambda o, t, i: lin_cap(cap, o, t, i),
                        (lambda o, t, i: lin_kw(cap, o, t, i)) if power else (lambda o, t, i: None)))


def building(daily=800.0, peak=PEAK, avg=AVG, zone=None, oat=32.0, inlet=48.0):
    cz = ClimateZone.from_zone_id(zone) if zone else ClimateZone.from_design_conditions(oat, inlet)
    return Building(cz, daily, list(peak), list(avg))


def fields(ctx, got, want, hist, ref, tol_t=5e-3, tol_v=2e-3, keys=None):
    V = ref.tank.V
    for k, w in want.items():
        if keys and k not in keys:
            continue
        if k not in got:
            ctx.fail("a reported quantity is missing", key=k, history=hist)
            continue
        g = got[k]
        if k == "tank_temps_f":
            ctx.check(len(g) == len(w), "six tank temperatures are reported", got=g, history=hist)
            slug = getattr(ref.tank, "slug", None)
            for f, a, c in zip(S.NODES, g, w):
                if slug is not None and abs(f * V - ref.tank.slug_top()) < 2e-4 * V:
                    continue
                tol = tol_t
                if hasattr(ref.tank, "emax") and not 2e-3 <= ref.tank.E / ref.tank.emax() <= 1 - 2e-3:
                    tol = max(tol, 0.6)
                ctx.close(a, c, "tank temperature after the step differs from the step model", rtol=0, atol=tol, node=f, history=hist)
        elif k == "mode":
            ctx.check(g == w, "reported mode is not the scheduled mode of the hour", got=g, want=w, history=hist)
        elif w is None or g is None:
            ctx.check((w or 0.0) == (g or 0.0), "reported power is present when it should not be (or missing)", key=k, got=g, want=w, history=hist)
        elif k == "usable_volume_supplyT_gal":
            slug = getattr(ref.tank, "slug", None)
            if slug is not None and abs(slug[1] - ref.supply) < 0.02:
                continue
            if hasattr(ref, "t0") and abs(ref.t0 - ref.supply) < 1e-4:
                continue
            ctx.close(g, w, "usable volume after the step differs from the step model", rtol=0, atol=tol_v * V / 10 + 1e-9, history=hist)
        elif k in ("tm_tank_temp_f", "delivery_temp_f"):
            ctx.close(g, w, k + " differs from the step model", rtol=0, atol=tol_t, history=hist)
        else:
            ctx.close(g, w, k + " differs from the step model", rtol=1e-6 if not k.startswith("heater_") else 1e-5, atol=1e-9, history=hist)


def hints(real):
    tm = getattr(real, "tm_water_heater", None)
    return [h.is_active() for h in real.water_heaters], (tm.is_active() if tm is not None else None)


def init(real, ref, storage, cold, useable, tm=None):
    real.storage_tank.initialize(storage, cold, useable)
    ref.tank.initialize(storage, cold, useable)
    if tm is not None:
        real.tm_storage_tank.initialize(tm, cold, 1.0)
        ref.tm.initialize(tm, cold, 1.0)


def one(ctx, real, ref, b, i, dt, hist, **kw):
    got = real.simulate_step(b, i, dt)
    h, t = hints(real)
    want = ref.step(b, i, dt, h, t)
    ctx.transitions += 1
    ctx.traces += 1
    ctx.check(h == [x.on for x in ref.heaters], "heater on/off state differs from the aquastat rule", got=h, want=[x.on for x in ref.heaters], history=hist)
    if t is not None:
        ctx.check(t == ref.tmh.on, "loop heater on/off state differs from its aquastat rule", got=t, history=hist)
    fields(ctx, got, want, hist, ref, **kw)
    return got, want


def explore(ctx, real, ref, b, alphabet, depth, **kw):
    """All sequences of simulated steps (any order of step index / length in `alphabet`) up to depth."""
    seen = {ref.key()}
    ctx.states += 1
    frontier = [(real, ref, ())]
    for d in range(depth):
        nxt = []
        for r0, m0, hist in frontier:
            for step in alphabet:
                i, dt = step[:2]
                r1, m1 = copy.deepcopy(r0), copy.deepcopy(m0)
                h = hist + (step,)
                one(ctx, r1, m1, b[step[2]] if len(step) > 2 else b, i, dt, h, **kw)
                k = m1.key()
                if k in seen:
                    continue
                seen.add(k)
                ctx.states += 1
                ctx.outcome(k)
                nxt.append((r1, m1, h))
        frontier = nxt
