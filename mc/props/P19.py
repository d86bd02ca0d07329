"""Heat-pump performance maps: for all 126 shipped models, over a lattice built from each map's own data
(every tabulated outdoor, inlet and outlet temperature, between them, and outside them), capacity, power and
COP follow the published data by the documented rules; the reference reads the data files itself."""
import json, math, os, pickle, warnings
from itertools import product
from mc.sysexp import *
from ecoengine.objects.components.heating import PerformanceMap as PMmod
from ecoengine.objects.components.heating.PerformanceMap import HPWHsimPerformanceMap, NominalPerformanceMap
from ecoengine.interfaces import EcosizerEngine as EE

D = os.path.join(os.path.dirname(EE.__file__), "..", "data", "preformanceMaps")
BOUNDS = dict(order="around points of every map: all neighbours 0.02 and 0.3 degrees away asked alternately with the point itself, and of two differently configured fleets of the model alternately",
              models="all 126 of the registry; every published data point of every interpolated map",
              lattice="all tabulated outdoor temperatures (quick: thinned to 8), off-grid, below and above range x tabulated inlets (thinned to 12, quick 5), off-grid, outside, unspecified x tabulated outlets (likewise), off-grid, outside",
              fleet="1 and 3 units x with and without a nominal capacity x three design inlets")
ASSUMPTIONS = ["the interpolation itself (scipy's LinearNDInterpolator over the shipped data) is taken as given",
               "exact ties between two tabulated outdoor temperatures are not judged"]
K = 3.412142
TWO = {"MODELS_SANCO2_C_SP", "MODELS_COLMAC_R454B_C_SP", "MODELS_Droplet_C_SP"}


def registry():
    with open(os.path.join(D, "maps.json")) as f:
        return json.load(f)


def load(p, kind):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with open(os.path.join(D, "pkls", f"{p}_{kind}.pkl"), "rb") as f:
            return pickle.load(f)


class Table:
    """Published data of an interpolated map."""

    def __init__(self, name, entry):
        p = entry["pkl_prefix"]
        self.cap, self.pwr = load(p, "capacity_interpolator"), load(p, "power_in_interpolator")
        self.oats, self.rows, (_, self.inmax), self.high, self.low = load(p, "bounds")
        self.memo = {}
        self.two = name in TWO or name.endswith("MP") or "Lochinvar" in name
        self.hx = float(entry.get("hx_increase", 0.0)) if entry.get("secondary_heat_exchanger") else 0.0

    def at(self, inlet, outlet, oat):
        k = (inlet, None if self.two else outlet, oat)
        if k not in self.memo:
            self.memo[k] = self.query(inlet, outlet, oat)
        return self.memo[k]

    def query(self, inlet, outlet, oat):
        q = [[inlet, oat]] if self.two else [[inlet, outlet, oat]]
        r = float(self.cap(q)[0][0]), float(self.pwr(q)[0][0])
        return None if math.isnan(r[0]) or math.isnan(r[1]) else r

    def unit(self, oat, outlet, inlet, er):
        inlet, outlet = min(inlet + self.hx, self.inmax), outlet + self.hx
        if oat >= self.oats[-1]:
            return tuple(self.high), "high"
        r = self.at(inlet, outlet, oat)
        if r:
            return r, "map"
        er = self.low[0] if er is None else er
        if oat < self.oats[0]:
            return (er, er), "resistance"
        k = min(range(len(self.oats)), key=lambda i: abs(self.oats[i] - oat))
        row = self.rows[k]
        up = [e for e in row if inlet <= e[0] and abs(e[0] - inlet) < abs(row[-1][0] - inlet)]
        tin, outs = min(up, key=lambda e: e[0] - inlet) if up else row[-1]
        r = self.at(tin, outlet, self.oats[k])
        if r:
            return r, "snapped inlet"
        to = min(outs, key=lambda o: abs(o - outlet))
        r = self.at(tin, to, self.oats[k])
        if r:
            add = r[0] * (outlet - to) / (outlet - tin) if to < outlet and outlet > tin else 0.0
            return (r[0] + add, r[1] + add), "snapped outlet"
        return (er, er / 1.5), "off the map"


class Quad:
    """Published coefficients: quadratic in the inlet per outdoor temperature, linear in between (and on beyond the last)."""

    def __init__(self, entry):
        self.pm = entry["perfmap"]

    def unit(self, oat, outlet, inlet, er, design=None):
        q = lambda c, t: c[0] + c[1] * t + c[2] * t ** 2
        pm = self.pm
        if oat < pm[0]["T_F"]:
            if er is None:
                er = max(q(pm[0]["COP_coeffs"], design), 0.0) * q(pm[0]["inputPower_coeffs"], design) / 1000.0
                er = max(er, 0.0)
            return (er, er), "resistance"
        hi = next((i for i in range(1, len(pm)) if oat < pm[i]["T_F"]), len(pm) - 1)
        a, b = pm[hi - 1], pm[hi]
        w = (oat - a["T_F"]) / (b["T_F"] - a["T_F"])
        cop = (1 - w) * q(a["COP_coeffs"], inlet) + w * q(b["COP_coeffs"], inlet)
        kw = ((1 - w) * q(a["inputPower_coeffs"], inlet) + w * q(b["inputPower_coeffs"], inlet)) / 1000.0
        return (cop * kw, kw), "map" if oat < pm[-1]["T_F"] else "beyond"


def names(part, of):
    return [n for i, n in enumerate(registry()) if i % of == part]


def cases(tier):
    q = tier == "quick"
    of = 42
    for part in range(of):
        yield "lattice", dict(part=part, of=of, q=q)
        yield "published", dict(part=part, of=of)
        yield "fleet", dict(part=part, of=of)
        yield "order", dict(part=part, of=of)
    yield "polynomials", {}
    yield "nominal", {}
    yield "registry", {}


def thin(v, n):
    v = sorted(set(float(x) for x in v))
    return v if len(v) <= n else sorted({v[round(i * (len(v) - 1) / (n - 1))] for i in range(n)})


def axis(v, n, lo, hi):
    """tabulated values, points a third of the way between them, and points outside on both sides"""
    v = thin(v, n)
    return sorted(set(v + [a + (b - a) / 3 for a, b in zip(v, v[1:])] + [v[0] - d for d in lo] + [v[-1] + d for d in hi]))


def lattice(name, e, q):
    if "pkl_prefix" in e:
        t = Table(name, e)
        n = 5 if q else 12
        ins = [x - t.hx for r in t.rows for x, _ in r]
        outs = [x - t.hx for r in t.rows for _, o in r for x in o]
        inlets = axis(ins, n, (3.0, 12.0), (0.01, 25.0)) + [None]
        outlets = axis(outs, n, (2.0, 25.0), (2.0, 20.0)) if not t.two else thin(outs, 2) + [111.0, 150.0]
        return t, sorted(axis(t.oats, 8 if q else 40, (0.01, 9.0), (0.01, 20.0)) + [t.oats[0] + 0.2, t.oats[-1] - 0.2]), inlets, outlets
    t = Quad(e)
    return t, axis([p["T_F"] for p in t.pm], 9, (0.01, 15.0), (0.01, 12.0, 35.0)), [None] + [40.0 + 5 * i for i in range(19)], [120.0, 150.0]


def want(t, name, oat, outlet, inlet, units, nominal, design):
    i = design if inlet is None else inlet
    er = nominal / units / K if nominal is not None else None
    (o, p), how = t.unit(oat, outlet, i, er, design) if isinstance(t, Quad) else t.unit(oat, outlet, i, er)
    return o * units * K, p * units, how


def judge(ctx, m, t, name, oat, outlet, inlet, units=1, nominal=None, design=50.0, wh=None):
    cap, kw, how = want(t, name, oat, outlet, inlet, units, nominal, design)
    info = dict(model=name, oat=oat, outlet=outlet, inlet=inlet, units=units, nominal=nominal, design=design, rule=how)
    g, p = m.get_capacity_kbtuh(oat, outlet, inlet), m.get_power_in_kw(oat, outlet, inlet)
    ctx.states += 1
    ctx.transitions += 2
    ctx.close(g, cap, "capacity differs from the published performance", rtol=1e-8, atol=1e-9, **info)
    ctx.close(p, kw, "power differs from the published performance", rtol=1e-8, atol=1e-9, **info)
    if wh is None:
        c = m.get_cop(oat, outlet, inlet)
        if kw > 0:
            ctx.close(c, cap / K / kw, "COP is heat out over power in", rtol=1e-8, **info)
        else:
            ctx.check(c is None, "no COP without power", **info)
    ctx.outcome(name, how)


def sub_lattice(ctx, part, of, q):
    reg = registry()
    for name in names(part, of):
        t, oats, inlets, outlets = lattice(name, reg[name], q)
        design = 57.0
        m = PerformanceMap.from_model_name(name, design_inlet_temp_f=design)
        for oat, inlet, outlet in product(oats, inlets, outlets):
            judge(ctx, m, t, name, oat, outlet, inlet, design=design)
        lo = t.oats[0] if isinstance(t, Table) else t.pm[0]["T_F"]
        for d in (-30.0, -0.01, 0.0, 0.01, 30.0):
            ctx.check(bool(m.is_within_operating_bounds(lo + d)) == (d >= 0), "operating range starts at the coldest published outdoor temperature", model=name, oat=lo + d)
        ctx.close(m.oat_min, lo, "coldest published outdoor temperature", model=name)


def sub_published(ctx, part, of):
    """Every data point of the published table below the hottest outdoor temperature is returned as published."""
    reg = registry()
    for name in names(part, of):
        e = reg[name]
        if "pkl_prefix" not in e:
            continue
        t = Table(name, e)
        m = PerformanceMap.from_model_name(name)
        vals = {}
        for f, i in ((t.cap, 0), (t.pwr, 1)):
            for pt, v in zip(f.points, f.values):
                vals.setdefault(tuple(float(x) for x in pt), ([], []))[i].append(float(v[0]))
        for pt, (os_, ps) in vals.items():
            oat = pt[-1]
            if len(os_) != 1 or len(ps) != 1:
                continue  # published twice (or in one table only)
            o, p = os_, ps
            if oat >= t.oats[-1] or pt[0] > t.inmax:
                continue
            inlet, outlet = float(pt[0]) - t.hx, (150.0 if t.two else float(pt[1]) - t.hx)
            if t.at(float(pt[0]), float(pt[0] if t.two else pt[1]), oat) is None:
                continue  # the shipped triangulation loses this corner
            ctx.states += 1
            ctx.transitions += 2
            ctx.close(m.get_capacity_kbtuh(oat, outlet, inlet), o[0] * K, "capacity at a published point", rtol=1e-6, model=name, point=pt)
            ctx.close(m.get_power_in_kw(oat, outlet, inlet), p[0], "power at a published point", rtol=1e-6, model=name, point=pt)
        ctx.outcome(name)


def sub_fleet(ctx, part, of):
    reg = registry()
    for name in names(part, of):
        t, oats, inlets, outlets = lattice(name, reg[name], True)
        pick = thin(oats, 7)
        for units, nominal, design in ((1, None, 44.0), (3, None, 68.0), (1, 77.0, 68.0), (3, 77.0, 44.0)):
            m = PerformanceMap.from_model_name(name, num_units=units, design_inlet_temp_f=design, nominal_capacity_kbtuh=nominal)
            w = WaterHeater.from_model_name(name, ["normal"] * 24, {"normal": Controls(0.5, 120.0, 0.2, 150.0, 150.0)}, num_units=units, design_inlet_temp_f=design, nominal_capacity_kbtuh=nominal)
            for oat, inlet, outlet in product(pick + [pick[0] - 7.0], [None, 52.0, 160.0], thin(outlets, 3) + [190.0]):
                judge(ctx, m, t, name, oat, outlet, inlet, units, nominal, design)
                judge(ctx, w, t, name, oat, outlet, inlet, units, nominal, design, wh=True)
        if isinstance(t, (Table, Quad)):
            for f in (m.get_capacity_kbtuh, m.get_power_in_kw):
                try:
                    f(None, 140.0, 50.0)
                    ok = False
                except ValueError:
                    ok = True
                ctx.check(ok, "a real map needs the outdoor temperature", model=name)


def sub_polynomials(ctx):
    """Maps given by one set of polynomial coefficients (in the registry next to the interpolated ones)."""
    poly6 = lambda c, x, y: c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * y * y + c[5] * x * y
    poly11 = lambda c, x, y, z: (c[0] + c[1] * x + c[2] * y + c[3] * z + c[4] * x * x + c[5] * y * y + c[6] * z * z + c[7] * x * y + c[8] * x * z + c[9] * y * z + c[10] * x * y * z)
    for name, e in registry().items():
        pm = e.get("perfmap")
        if not pm or len(pm) != 1 or len(pm[0]["COP_coeffs"]) not in (6, 11):
            continue
        mp = name.endswith("MP")
        if len(pm[0]["COP_coeffs"]) != (6 if mp else 11):
            continue
        for units in (1, 4):
            m = HPWHsimPerformanceMap(model_name=name, perfmap=pm, num_units=units, is_multipass=mp, nominal_capacity_kbtuh=None, design_inlet_temp_f=53.0)
            for oat, out, inlet in product((20.0, 41.0, 67.5, 96.0), (120.0, 140.0, 160.0), (None, 40.0, 61.0, 110.0)):
                i = 53.0 if inlet is None else inlet
                kw = poly6(pm[0]["inputPower_coeffs"], oat, i) if mp else poly11(pm[0]["inputPower_coeffs"], oat, out, i)
                cop = poly6(pm[0]["COP_coeffs"], oat, i) if mp else poly11(pm[0]["COP_coeffs"], oat, out, i)
                ctx.states += 1
                ctx.transitions += 2
                ctx.close(m.get_capacity_kbtuh(oat, out, inlet), cop * kw * K * units, "capacity of a polynomial map", model=name, oat=oat, outlet=out, inlet=inlet)
                ctx.close(m.get_power_in_kw(oat, out, inlet), kw * units, "power of a polynomial map", model=name, oat=oat, outlet=out, inlet=inlet)
                ctx.outcome(name, kw > 0)


def sub_nominal(ctx):
    for c, oat, out, inlet in product((0.0, 12.5, 900.0), (None, -40.0, 40.0, 130.0), (100.0, 150.0, None), (None, 35.0, 140.0)):
        m = NominalPerformanceMap(c)
        w = WaterHeater.from_nominal_capacity(c, None, None)
        ctx.states += 1
        for x in (m, w):
            ctx.check(x.get_capacity_kbtuh(oat, out, inlet) == c, "a nominal heater has its nominal capacity everywhere", capacity=c, oat=oat)
            ctx.check(x.get_power_in_kw(oat, out, inlet) is None, "a nominal heater's power is unknown", capacity=c)
        ctx.check(m.get_cop(oat, out, inlet) is None, "a nominal heater's COP is unknown", capacity=c)
        ctx.outcome(c)


def sub_registry(ctx):
    for bad in ("", "MODELS_", "models_sanco2_c_sp", "MODELS_SANCO2_C_SP ", None):
        for f in (lambda: PerformanceMap.from_model_name(bad), lambda: WaterHeater.from_model_name(bad, None, None)):
            ctx.states += 1
            try:
                f()
                ok = False
            except ValueError:
                ok = True
            ctx.check(ok, "an unknown model is refused", model=bad)
    for name, e in registry().items():
        m = PerformanceMap.from_model_name(name)
        ctx.states += 1
        ctx.check(m.model_name == name, "the map carries its model name", model=name)
        out = 120.0 if name.endswith("MP") else 145.0
        lo = m.oat_min
        for oat, inlet in product((lo, lo + 5.0, lo + 15.0, lo + 40.0), (50.0, 70.0)):
            c, p = m.get_capacity_kbtuh(oat, out, inlet), m.get_power_in_kw(oat, out, inlet)
            ctx.check(c is not None and c > 0 and math.isfinite(c) and p > 0 and math.isfinite(p), "capacity and power are positive in the operating range", model=name, oat=oat, inlet=inlet, got=[c, p])
            ctx.outcome(name, oat, c)


def sub_order(ctx, part, of):
    """what a map answers depends on the question only, not on nearby questions or other fleets of the model asked before"""
    reg = registry()
    for name in names(part, of):
        t, oats, inlets, outlets = lattice(name, reg[name], True)
        a = PerformanceMap.from_model_name(name, design_inlet_temp_f=51.0)
        b = PerformanceMap.from_model_name(name, num_units=4, design_inlet_temp_f=63.0, nominal_capacity_kbtuh=90.0)
        lo, hi = min(oats), max(oats)
        for f in (0.35, 0.6):
            oat, outlet = lo + f * (hi - lo) + 0.11, 0.6 * min(outlets) + 0.4 * max(outlets)
            inlet = 58.13
            for d in (0.02, 0.3, 3.0):
                for do, dt, di in ((0, 0, 0), (0, 0, d), (0, 0, -d), (0, d, 0), (0, -d, 0), (d, 0, 0), (-d, 0, 0), (0, 0, 0)):
                    judge(ctx, a, t, name, oat + do, outlet + dt, inlet + di, design=51.0)
                    judge(ctx, b, t, name, oat + do, outlet + dt, inlet + di, 4, 90.0, 63.0)
            for m, u, n, de in ((a, 1, None, 51.0), (b, 4, 90.0, 63.0), (a, 1, None, 51.0)):
                judge(ctx, m, t, name, oat, outlet, None, u, n, de)
                judge(ctx, m, t, name, lo - 20.0, outlet, inlet, u, n, de)
