"""The engine facade: every configuration of EcosizerEngine reached by changing up to two settings of a base
configuration (all schematics under both names, sized / load-shifting / pre-sized) must give the plant that the
documented construction rules give when the components are put together by hand; same sizing numbers, same
simulation record, same curve, same refusals.  Also the module-level lookup functions."""
import csv, json, os, tempfile
from itertools import combinations, product
from mc.sysexp import *
from mc.models.sizing import coverage_fraction
from mc.props.P13 import record, same
from ecoengine.interfaces import Simulator, EcosizerEngine as EE
from ecoengine.interfaces.EcosizerEngine import EcosizerEngine

DATA = os.path.join(os.path.dirname(EE.__file__), "..", "data")
BOUNDS = dict(configurations="6 schematics x {sized, load shift, pre-sized} x all single and (sizing numbers; thorough: simulation too) all pairs of changed settings; both schematic names",
              schedules="all single shed blocks x load-up 0-3 h x two control sets, on the sized numbers; a part on the recorded run", climate="every zip code (string or int; quick: every fifth), every station, every zone, design-condition dictionaries, refused keys",
              lookups="all models x flags, all stations x exclusions, output capacity x heater counts x derates")
ASSUMPTIONS = ["component constructors and from_size are judged by P01-P18; here the facade is judged against them",
               "load-up hours that would start before midnight are not judged"]
NAMES = dict(primary=("primary_no_recirc", "singlepass_norecirc"), parallel=("parallel_loop", "paralleltank"), swing=("swing_tank", "swingtank"),
             sprtp=("single_pass_rtp", "sprtp"), mprtp=("multi_pass_rtp", "mprtp"), instant=("instant_wh",))
RECIRC = ("parallel", "swing", "sprtp", "mprtp")
HP, HP2, HPMP = "MODELS_SANCO2_C_SP", "MODELS_NyleC60A_C_SP", "MODELS_NyleC90A_MP"
RAMP = [float(i + 1) / 300 for i in range(24)]
SCH = [1] * 16 + [0] * 4 + [1] * 4

COLD = {"design_oat_f": 21.0, "design_inlet_water_temp_f": 44.0}
BASE = dict(building_type="multi_family", magnitude=60, zip_code_or_climate_zone=COLD, supply_temp_f=120.0, storage_temp_f=150.0)
COMMON = [("magnitude", 83), ("gpdpp", 17.0), ("zip_code_or_climate_zone", 19), ("zip_code_or_climate_zone", {"design_oat_f": 0.0, "design_inlet_water_temp_f": 51.0}), ("supply_temp_f", 124.0),
          ("storage_temp_f", 146.0), ("defrost_factor", 0.83), ("building_type", "nursing_home"), ("custom_peak_load_shape", RAMP), ("custom_avg_load_shape", RAMP[::-1])]
CONTROLS = [("aquastat_fract", 0.62), ("off_sensor_fract", 0.23), ("off_sensor_fract", 0.0), ("on_trigger_t_f", 116.0), ("off_trigger_t_f", 141.0), ("max_daily_run_hr", 11.5)]
LOOP = [("return_temp_f", 109.0), ("return_flow_gpm", 5.5)]
TM = [("tm_safety_factor", 1.4)]
TMP = [("tm_on_temp_f", 117.0), ("tm_off_temp_f", 133.0), ("tm_off_time_hr", 0.35)]
SHIFT = [("load_shift_schedule", [1] * 9 + [0] * 2 + [1] * 6 + [0] * 3 + [1] * 4), ("load_shift_schedule", [1] * 24), ("load_up_hours", 3), ("load_up_hours", 0), ("shed_aquastat_fract", 0.7), ("shed_aquastat_fract", None),
         ("load_up_aquastat_fract", 0.2), ("shed_off_sensor_fract", 0.4), ("load_up_off_sensor_fract", 0.08), ("load_up_off_sensor_fract", 0.0), ("shed_off_sensor_fract", 0.0), ("load_up_off_trigger_t_f", 138.0), ("load_shift_percent", 0.6), ("load_shift_percent", 1.0)]
PRE = [("storage_volume_storageT_gal", 410.0), ("heating_capacity_kbtuh", 95.0), ("num_heaters", 3), ("hpwh_model", HP), ("hpwh_model", HP2)]
PRETM = [("tm_storage_vol", 65.0), ("tm_capacity_kbtuh", 33.0)]
PRETMP = [("tm_model", HPMP), ("num_tm_heaters", 2)]


def base(kind, form):
    c = dict(BASE)
    if kind == "mprtp":
        c["storage_temp_f"] = 142.0
    if kind in RECIRC:
        c.update(return_temp_f=112.0, return_flow_gpm=3.0)
    if form == "shift":
        c.update(load_shift_schedule=SCH, load_up_hours=2, shed_aquastat_fract=0.8, load_up_aquastat_fract=0.3)
    if form == "preshift":
        c.update(load_shift_schedule=SCH, load_up_hours=2, shed_aquastat_fract=0.8, load_up_aquastat_fract=0.3)
    if form in ("presized", "preshift"):
        c.update(storage_volume_storageT_gal=700.0, heating_capacity_kbtuh=160.0)
        if kind in ("parallel", "swing"):
            c.update(tm_storage_vol=100.0, tm_capacity_kbtuh=20.0)
    return c


def changes(kind, form):
    o = list(COMMON) if form != "preshift" else []
    if kind != "instant":
        o += CONTROLS
        if kind == "mprtp":
            o = [x for x in o if x[0] not in ("storage_temp_f", "off_trigger_t_f")] + [("storage_temp_f", 138.0), ("off_trigger_t_f", 136.0)]
    if kind in RECIRC:
        o += LOOP
    if kind in ("parallel", "swing") and form != "presized":
        o += TM
    if kind == "parallel":
        o += TMP
    if form in ("shift", "preshift"):
        o += SHIFT
    if form == "preshift":
        return [x for x in o if x[0] != "load_shift_percent"] + [("num_heaters", 3), ("hpwh_model", HP)]
    if form == "presized":
        o += PRE
        if kind in ("parallel", "swing"):
            o += PRETM + PRETMP
        if kind == "instant":
            o = [x for x in o if x[0] != "storage_volume_storageT_gal"]
        else:
            o += [("load_shift_schedule", SCH)]
    return o


def cases(tier):
    q = tier == "quick"
    for kind in NAMES:
        for form in ("sized", "shift", "presized", "preshift"):
            if kind in ("mprtp", "instant") and form in ("shift", "preshift"):
                continue
            n = len(changes(kind, form))
            if kind == "mprtp" and form == "sized":
                for i in range(-1, n):
                    yield "config", dict(kind=kind, form=form, first=i, sim=0 if q and i >= 0 else 1, pairs=False)
                continue
            for i in range(-1, n):
                yield "config", dict(kind=kind, form=form, first=i, sim=1 if q else 2, pairs=not (form.startswith("pre") and q) and i >= 0)
    for kind in NAMES:
        for form in ("sized", "shift", "presized"):
            if not (kind in ("mprtp", "instant") and form == "shift"):
                yield "again", dict(kind=kind, form=form)
    for k in range(24):
        yield "schedules", dict(start=k)
    yield "names", {}
    yield "tm_models", {}
    for part in range(8):
        yield "zips", dict(part=part, of=8, q=q)
    yield "climate", {}
    yield "refusals", {}
    yield "buckets", {}
    yield "models", {}
    for part in range(6):
        yield "output", dict(part=part, of=6, q=q)
    yield "curves", {}
    for kind in ("primary", "parallel", "swing", "sprtp", "mprtp"):
        for form in ("sized", "shift"):
            if kind == "mprtp" and (form == "shift" or q):
                continue
            yield "engine_curve", dict(kind=kind, form=form)
    for kind in NAMES:
        for form in ("sized", "presized") + (("shift", "preshift") if kind not in ("mprtp", "instant") else ()):
            yield "results", dict(kind=kind, form=form)
    yield "components", {}


# ---- the documented construction, by hand ------------------------------------------------------------

def controls(c):
    on = c.get("on_trigger_t_f") or c["supply_temp_f"]
    off = c.get("off_trigger_t_f") or c["storage_temp_f"]
    oh, fh, out = c.get("aquastat_fract", 0.5), c.get("off_sensor_fract", 0.1), c["storage_temp_f"]
    m = {"normal": (oh, on, fh, off, out)}
    sch = c.get("load_shift_schedule")
    if not sch or all(sch):
        return ["normal"] * 24, m, False
    first, n = sch.index(0), c.get("load_up_hours", 0)
    hours = ["shed" if sch[h] == 0 else "loadUp" if n and first - n <= h < first else "normal" for h in range(24)]
    pick = lambda k, d: d if c.get(k) is None else c[k]
    m["shed"] = (pick("shed_aquastat_fract", oh), on, pick("shed_off_sensor_fract", fh), off, out)
    if n and c.get("load_up_aquastat_fract") is not None:
        m["loadUp"] = (c["load_up_aquastat_fract"], on, pick("load_up_off_sensor_fract", fh), pick("load_up_off_trigger_t_f", off), out)
    return hours, m, True


def climate(k):
    if isinstance(k, dict):
        return ClimateZone.from_design_conditions(k["design_oat_f"], k["design_inlet_water_temp_f"])
    return ClimateZone.from_zone_id(k)


def by_hand(kind, c):
    b = Building.from_building_type(c["building_type"], c["magnitude"], climate(c["zip_code_or_climate_zone"]), gpdpp=c.get("gpdpp", 25),
                                    custom_peak_load_shape=c.get("custom_peak_load_shape"), custom_avg_load_shape=c.get("custom_avg_load_shape"))
    sup, sto, df, hr = c["supply_temp_f"], c["storage_temp_f"], c.get("defrost_factor", 1.0), c.get("max_daily_run_hr", 16.0)
    hours, modes, shift = controls(c)
    cm = {k: Controls(*v) for k, v in modes.items()}
    ret, flow = c.get("return_temp_f"), c.get("return_flow_gpm")
    ton, toff = c.get("tm_on_temp_f", sup), c.get("tm_off_temp_f", sup + 8.0)
    saf, toh = c.get("tm_safety_factor", 1.75), c.get("tm_off_time_hr", 0.5)
    if "storage_volume_storageT_gal" in c:
        n = c.get("num_heaters", 1)
        if "hpwh_model" in c:
            whs = [WaterHeater.from_model_name(c["hpwh_model"], hours, cm, design_inlet_temp_f=b.get_design_inlet_water_temp_f(), num_units=n)]
        else:
            whs = [WaterHeater.from_nominal_capacity(c["heating_capacity_kbtuh"] / n, hours, cm) for _ in range(n)]
        V = c["storage_volume_storageT_gal"]
        if kind == "primary":
            return b, DHWSystem(whs, StratifiedTank(V, 2.8), sup, sto, hr, df)
        if kind == "sprtp":
            return b, SinglePassRTPSystem(whs, StratifiedTank(V, 1.7), sup, sto, ret, flow, max_daily_run_hr=hr, defrost_factor=df)
        if kind == "mprtp":
            return b, MultiPassRTPSystem(whs, SlugOverlayTank(V, b.get_design_inlet_water_temp_f(), sto, sup, strat_slope=0.8), sup, sto, ret, flow, max_daily_run_hr=14, defrost_factor=df)
        if kind == "instant":
            s = InstantWHSystem(sup, sto, defrost_factor=df)
            s.water_heaters = whs
            return b, s
        if kind == "swing":
            t = Controls(0.5, sup, 0.5, sup + 8.0, sup + 8.0)
            s = SwingSystem(whs, StratifiedTank(V, 2.8), sup, sto, ret, flow, tm_safety_factor=saf, max_daily_run_hr=hr, defrost_factor=df)
            s.tm_storage_tank = MixedStorageTank(c["tm_storage_vol"])
            s.tm_water_heater = WaterHeater.from_nominal_capacity(c["tm_capacity_kbtuh"], ["normal"] * 24, {"normal": t})
            return b, s
        t, k = Controls(0.5, ton, 0.5, toff, toff), c.get("num_tm_heaters", 1)
        per = c["tm_capacity_kbtuh"] / k if c.get("tm_capacity_kbtuh") is not None else None
        tw = (WaterHeater.from_model_name(c["tm_model"], ["normal"] * 24, {"normal": t}, design_inlet_temp_f=ret, nominal_capacity_kbtuh=per) if "tm_model" in c
              else WaterHeater.from_nominal_capacity(per, ["normal"] * 24, {"normal": t}))
        return b, ParallelLoopSystem(whs, StratifiedTank(V, 2.8), sup, sto, ret, flow, ton, toff, tm_off_time_hr=toh, tm_safety_factor=saf,
                                     tm_storage_tank=MixedStorageTank(c["tm_storage_vol"]), tm_water_heater=tw, num_tm_heaters=k, max_daily_run_hr=hr, defrost_factor=df)
    if kind == "instant":
        return b, InstantWHSystem.from_size(b, sup, sto, df)
    kw = dict(max_daily_run_hr=hr, defrost_factor=df, control_schedule=hours, control_map=cm)
    if kind == "mprtp":
        return b, MultiPassRTPSystem.from_size(b, sup, sto, ret, flow, **{**kw, "max_daily_run_hr": 14})
    kw["load_shift_fract_total_vol"] = coverage_fraction(c.get("load_shift_percent", 0.95)) if shift else 1.0
    if kind == "primary":
        return b, DHWSystem.from_size(b, sup, sto, **kw)
    if kind == "sprtp":
        return b, SinglePassRTPSystem.from_size(b, sup, sto, ret, flow, **kw)
    if kind == "swing":
        return b, SwingSystem.from_size(b, sup, sto, ret, flow, tm_safety_factor=saf, **kw)
    return b, ParallelLoopSystem.from_size(b, sup, sto, ret, flow, ton, toff, tm_off_time_hr=toh, tm_safety_factor=saf, **kw)


def numbers(s):
    def g(n):
        try:
            return getattr(s, n)() if hasattr(s, n) else None
        except RuntimeError:
            return None
    return dict(min_capacity_kbtuh=g("get_minimum_capacity_kbtuh"), min_storage_storageT_gal=g("get_minimum_storage_storageT_gal"),
                min_tm_volume_gal=g("get_minimum_tm_volume_gal"), min_tm_capacity_kbtuh=g("get_minimum_tm_capacity_kbtuh"))


def compare(ctx, kind, c, name, sim):
    info = dict(kind=kind, settings={k: v for k, v in c.items() if BASE.get(k) != v})
    try:
        b, s = by_hand(kind, c)
    except (ValueError, RuntimeError) as x:
        b, s, err = None, None, type(x)
    ctx.states += 1
    ctx.transitions += 1
    try:
        e = EcosizerEngine(schematic=name, **c)
    except (ValueError, RuntimeError) as x:
        ctx.check(s is None, "the engine refuses a configuration its plant can be sized for", error=str(x)[:200], **info)
        return
    if not ctx.check(s is not None, "the engine accepts a configuration its plant refuses", **info):
        return
    ctx.close(e.get_hw_magnitude(), b.daily_dhw_use_supplyT_gal, "daily hot water use of the engine's building", **info)
    want, got = numbers(s), e.get_sizing_results()
    for k, w in want.items():
        if w is None:
            ctx.check(got.get(k) is None, "a sizing result is reported that the plant does not have", key=k, got=got.get(k), **info)
        else:
            ctx.close(got.get(k), w, "the engine reports another plant than the documented construction gives", rtol=1e-7, atol=1e-7, key=k, **info)
    ctx.outcome(tuple(want.values()))
    if sim:
        r = record(e.simulate_3day())
        same(ctx, r, record(Simulator.simulate(s, b, "3day")), "the engine's plant runs differently from the documented construction", **info)
        ctx.traces += 1
        ctx.outcome(r["summary"])


def sub_config(ctx, kind, form, first, sim, pairs):
    ch = changes(kind, form)
    c0 = base(kind, form)
    if first >= 0:
        c0[ch[first][0]] = ch[first][1]
    compare(ctx, kind, c0, NAMES[kind][0], sim)
    if pairs:
        for k, v in ch[first + 1:]:
            if k != ch[first][0]:
                compare(ctx, kind, {**c0, k: v}, NAMES[kind][0], sim > 1)


def sub_tm_models(ctx):
    """A pre-sized loop heater given as a model, with or without its nominal capacity."""
    for cap, n, m, oat in product((None, 12.0, 30.0), (1, 2), (HPMP, HP), (-20.0, 35.0)):
        c = {**base("parallel", "presized"), "tm_model": m, "num_tm_heaters": n, "zip_code_or_climate_zone": {"design_oat_f": oat, "design_inlet_water_temp_f": 50.0}}
        c.pop("tm_capacity_kbtuh")
        if cap is not None:
            c["tm_capacity_kbtuh"] = cap
        compare(ctx, "parallel", c, NAMES["parallel"][0], oat > 0 or cap is not None)


def sub_names(ctx):
    for kind, names in NAMES.items():
        for form in ("sized", "shift", "presized"):
            if kind in ("mprtp", "instant") and form == "shift":
                continue
            for n in names:
                compare(ctx, kind, base(kind, form), n, True)


def sub_schedules(ctx, start):
    """All shed blocks: the sized numbers (and, on a part, the recorded run with its mode series) follow the schedule."""
    for n, lu, full in product(range(1, min(25 - start, 24)), range(4), (False, True)):
        if lu > start:
            continue
        c = base("primary", "shift")
        c.update(load_shift_schedule=[0 if start <= h < start + n else 1 for h in range(24)], load_up_hours=lu, load_up_aquastat_fract=0.25, aquastat_fract=0.45)
        if full:
            c.update(shed_aquastat_fract=0.85, shed_off_sensor_fract=0.6, load_up_off_sensor_fract=0.06, load_up_off_trigger_t_f=137.0)
        compare(ctx, "primary", c, "primary_no_recirc", False)
        if n in (1, 4, 24 - start) and lu in (0, 2) and full:
            c = {**base("primary", "presized"), **c}
            compare(ctx, "primary", c, "primary_no_recirc", True)


# ---- climate keys ------------------------------------------------------------------------------------

def weather(b):
    return [b.get_oat_f(i, 60) for i in range(0, 8760, 83)] + [b.get_inlet_water_temp_f(i, 60) for i in range(0, 8760, 83)] + [b.get_design_inlet_water_temp_f()]


def rows(f):
    with open(os.path.join(DATA, "climate_data", f), newline="") as fh:
        return list(csv.reader(fh))[1:]


_ref = {}


def zone_result(z):
    if z not in _ref:
        b, s = by_hand("primary", {**BASE, "zip_code_or_climate_zone": z, "gpdpp": 25.0})
        _ref[z] = (numbers(s), weather(b))
    return _ref[z]


def eng(key, **kw):
    return EcosizerEngine("multi_family", 60, key, 120.0, 150.0, "primary_no_recirc", gpdpp=25.0, **kw)


def check_zone(ctx, key, z):
    want, _ = zone_result(z)
    got = eng(key).get_sizing_results()
    ctx.states += 1
    ctx.transitions += 1
    ctx.close(got["min_capacity_kbtuh"], want["min_capacity_kbtuh"], "the climate key sizes for another zone", key=key, zone=z)
    ctx.close(got["min_storage_storageT_gal"], want["min_storage_storageT_gal"], "the climate key sizes for another zone", key=key, zone=z)


def sub_zips(ctx, part, of, q):
    # one sizing per key is enough to tell zones with different design water apart; the buckets tell the rest apart
    bz = {}
    for i, r in enumerate(rows("ZipCode_ClimateZone_Lookup.csv")):
        if i % of != part or q and i // of % 5:
            continue
        z = r[0].strip(), int(r[1])
        if i // of % 15 == 0:
            check_zone(ctx, z[0], z[1])
            check_zone(ctx, int(z[0]), z[1])
        if z[1] not in bz:
            bz[z[1]] = EE.get_oat_buckets(zone_id=z[1])
        ctx.states += 1
        ctx.check(EE.get_oat_buckets(zip_code=z[0] if i // of % 2 else int(z[0])) == bz[z[1]], "a zip code is looked up in another zone", key=z[0], zone=z[1])


def sub_climate(ctx):
    for z in range(1, 97):
        check_zone(ctx, z, z)
        ctx.outcome(z, zone_result(z)[0]["min_capacity_kbtuh"])
    for r in rows("WeatherStation_ClimateZone_Lookup.csv"):
        check_zone(ctx, r[0], int(r[1]))
    for oat, inlet in product((-5.0, 32.0, 61.0), (38.0, 50.0, 66.5)):
        want = numbers(by_hand("primary", {**BASE, "zip_code_or_climate_zone": {"design_oat_f": oat, "design_inlet_water_temp_f": inlet}})[1])
        got = eng({"design_oat_f": oat, "design_inlet_water_temp_f": inlet}).get_sizing_results()
        ctx.close(got["min_capacity_kbtuh"], want["min_capacity_kbtuh"], "design conditions given directly", oat=oat, inlet=inlet)
        ctx.states += 1


def sub_refusals(ctx):
    def refused(what, **kw):
        a = {**BASE, "gpdpp": 25.0, "schematic": "primary_no_recirc", **kw}
        ctx.states += 1
        ctx.transitions += 1
        try:
            EcosizerEngine(**a)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, what, settings={k: v for k, v in kw.items()})
    for k in (0, 97, -1, 123, 9999, 100000, None, 3.5, "nowhere", "", "00000", 10000, [19], "19x"):
        refused("a climate key that names no zone is refused", zip_code_or_climate_zone=k)
    for pre in ({}, dict(storage_volume_storageT_gal=500.0, heating_capacity_kbtuh=100.0)):
        for n in ("", "Swing_Tank", "swing", "primary", None, "parallel_loop ", "instant", "mprtp_2"):
            refused("an unknown schematic is refused", schematic=n, **pre)
        tm = dict(tm_storage_vol=100.0, tm_capacity_kbtuh=20.0) if pre else {}
        for kind in RECIRC:
            for n in NAMES[kind]:
                sto = dict(storage_temp_f=142.0) if kind == "mprtp" else {}
                refused("a loop schematic without return conditions is refused", schematic=n, **pre, **tm, **sto)
                refused("a loop schematic without return flow is refused", schematic=n, return_temp_f=112.0, **pre, **tm, **sto)
                refused("a loop schematic without return temperature is refused", schematic=n, return_flow_gpm=3.0, **pre, **tm, **sto)
                if pre and kind in ("parallel", "swing"):
                    lp = dict(return_temp_f=112.0, return_flow_gpm=3.0)
                    refused("a pre-sized loop plant without a loop tank is refused", schematic=n, tm_capacity_kbtuh=20.0, **lp, **pre)
                    refused("a pre-sized loop plant without a loop heater is refused", schematic=n, tm_storage_vol=100.0, **lp, **pre)
    for z in (dict(), dict(zip_code="90001", zone_id=3), dict(zone_id=3, weather_station="x"), dict(zip_code=90001, weather_station="x"), dict(zip_code=1, zone_id=1, weather_station="x")):
        ctx.states += 1
        try:
            EE.get_oat_buckets(**z)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, "outdoor temperature buckets need exactly one key", keys=z)
    for kw in (dict(defrost_derate=-0.01), dict(defrost_derate=1.01), dict(num_heaters=0), dict(num_heaters=-2), dict(num_heaters=1.5), dict(num_heaters="2"), dict(model="no such model")):
        a = {**dict(model=HP, oat_f=40.0, inlet_water_temp_f=50.0, outlet_water_temp_f=150.0), **kw}
        ctx.states += 1
        try:
            EE.get_hpwh_output_capacity(**a)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, "output capacity refuses bad arguments", args=a)
    ctx.outcome("refusals")


def sub_buckets(ctx):
    cols = list(zip(*[[float(x) for x in r] for r in rows("DryBulbTemperatures_ByClimateZone.csv")]))
    for z in range(1, 97):
        day = [sum(cols[z - 1][24 * d:24 * d + 24]) / 24 for d in range(365)]
        want = {}
        for t in day:
            want[float(t // 5 * 5)] = want.get(float(t // 5 * 5), 0) + 1
        got = EE.get_oat_buckets(zone_id=z)
        ctx.states += 1
        ctx.check({float(k): v for k, v in got.items()} == want and sum(got.values()) == 365, "outdoor temperature buckets count the days of each 5 F band", zone=z, got=got, want=want)
        ctx.outcome(sorted(want.items()))
    for r in rows("WeatherStation_ClimateZone_Lookup.csv"):
        ctx.check(EE.get_oat_buckets(weather_station=r[0]) == EE.get_oat_buckets(zone_id=int(r[1])), "a weather station is looked up in another zone", station=r[0])
        ctx.states += 1


# ---- lookups -----------------------------------------------------------------------------------------

def registry():
    with open(os.path.join(DATA, "preformanceMaps", "maps.json")) as f:
        return json.load(f)


def sub_models(ctx):
    reg = registry()
    some = [k for i, k in enumerate(reg) if i % 9 == 0]
    for mp, res, sg, ex in product((False, True), (False, True), (False, True), (None, [], some, list(reg))):
        want = [[k, m["name"]] for k, m in reg.items() if k not in (ex or []) and (m.get("SGIP_avail", False) or not sg)
                and (res or k[-4:-3] == "C") and k.endswith("_MP") == mp]
        got = EE.get_list_of_models(multi_pass=mp, include_residential=res, exclude_models=ex, sgip_models_only=sg)
        ctx.states += 1
        ctx.check([list(x) for x in got] == want, "the model list is the registry filtered as asked", multi_pass=mp, residential=res, sgip=sg, excluded=len(ex or []))
        ctx.outcome(len(want), mp)
    ctx.check(EE.get_list_of_models() == EE.get_list_of_models(multi_pass=False, include_residential=True, exclude_models=None, sgip_models_only=True), "default model list")
    st = [(r[0], int(r[1])) for r in rows("WeatherStation_ClimateZone_Lookup.csv") if len(r) == 2]
    for ex in (None, [], [96], [1, 2, 3], list(range(1, 97)), [17, 96]):
        out = [96] if ex is None else ex
        got = EE.get_weather_stations() if ex is None else EE.get_weather_stations(ex)
        ctx.states += 1
        ctx.check([tuple(x) for x in got] == [s for s in st if s[1] not in out], "the station list leaves out exactly the excluded zones", excluded=ex)


def sub_output(ctx, part, of, q):
    for i, m in enumerate(registry()):
        if i % of != part:
            continue
        out = 120.0 if m.endswith("_MP") else 150.0
        pm = PerformanceMap.from_model_name(m)
        full = product((30.0, 55.0, 80.0), (45.0, 60.0), (1, 2, 5), (0.0, 0.15, 1.0), (True, False))
        for oat, inlet, n, df, kw in full if m == HP or not q and i % 9 == 0 else ((30.0, 45.0, 2, 0.15, True), (80.0, 60.0, 5, 0.0, False)):
            want = pm.get_capacity_kbtuh(oat, out, inlet) * n * (1 - df) / (3.412142 if kw else 1.0)
            got = EE.get_hpwh_output_capacity(m, oat, inlet, out, n, kw, df)
            ctx.states += 1
            ctx.close(got, want, "output capacity of a number of heaters with a defrost derate", rtol=2e-6, model=m, oat=oat, inlet=inlet, n=n, derate=df, kw=kw)
        ctx.transitions += 1
        ctx.outcome(m, got)


# ---- curves ------------------------------------------------------------------------------------------

def fig_ok(ctx, fig, x, y, i, **info):
    t = [d for d in fig.data]
    lines = [d for d in t if "lines" in (d.mode or "") and len(d.x) == len(x)]
    ctx.check(any([float(a) for a in d.x] == [float(a) for a in x] and [float(a) for a in d.y] == [float(a) for a in y] for d in lines), "the plotted line is the curve", **info)
    ctx.check(any(len(d.x) == 1 and d.x[0] == x[i] and d.y[0] == y[i] for d in t), "the marker is at the recommended point", **info)


def sub_curves(ctx):
    for n in range(1, 7):
        x, y = [3.0 * k + 1 for k in range(n)], [100.0 / (k + 1) for k in range(n)]
        for i, ls, er in product(range(n), (False, True), (False, True)):
            f = EE.get_sizing_curve_plot(x, y, i, load_shifting=ls, er_sized=er)
            ctx.states += 1
            ctx.transitions += 1
            fig_ok(ctx, f, x, y, i, n=n, index=i, shift=ls, er=er)
            ax = (f.layout.xaxis.title.text or "") + "|" + (f.layout.yaxis.title.text or "")
            ctx.check(("kW" in ax and "overage" in ax) if er else ("overed" in ax and "gal" in ax) if ls else ("gal" in ax.split("|")[0] and "kBTU/hr" in ax.split("|")[1]), "the axes are labelled for the kind of curve", labels=ax, shift=ls, er=er)
            d = EE.get_sizing_curve_plot(x, y, i, load_shifting=ls, er_sized=er, return_as_div=True)
            ctx.check(isinstance(d, str) and "<div" in d, "a div is returned when asked for")
            ctx.outcome(n, i, ls, er)


def sub_engine_curve(ctx, kind, form):
    for ch in [None] + [c for c in changes(kind, form) if c[0] in ("supply_temp_f", "return_flow_gpm", "magnitude", "aquastat_fract", "load_shift_percent", "shed_aquastat_fract", "load_up_hours")]:
        c = base(kind, form)
        if ch:
            c[ch[0]] = ch[1]
        if kind == "swing" and ch and ch[0] not in ("supply_temp_f", "load_shift_percent"):
            continue
        hours, modes, shift = controls(c)
        slope = 2.8 if ch is None or ch[0] != "magnitude" else 1.9
        b, s = by_hand(kind, c)
        cm = {k: Controls(*v) for k, v in modes.items()}
        if shift:
            w = s.get_ls_sizing_curve(b, hours, cm, strat_slope=slope, load_shift_percent=c.get("load_shift_percent", 0.95))
            x, y, i = [100 * p for p in w["load_shift_percent"]], w["storage_storageT_gal"], w["recommended_index"]
        else:
            w = s.get_sizing_curve(b, strat_slope=slope)
            x, y = w["storage_storageT_gal"][::-1], w["capacity_kbtuh"][::-1]
            i = len(x) - 1 - w["recommended_index"]
        e = EcosizerEngine(schematic=NAMES[kind][0], **c)
        info = dict(kind=kind, form=form, change=ch)
        fig, gx, gy, gi = e.plot_sizing_curve(return_with_x_y_points=True, strat_slope=slope)
        ctx.states += 1
        ctx.transitions += 1
        ctx.check(gi == i and len(gx) == len(x) and len(gy) == len(y), "the engine marks another point of the curve", got=gi, want=i, **info)
        for k, (p, q_) in enumerate(zip(gx, x)):
            ctx.close(p, q_, "the engine's curve (x)", rtol=1e-9, atol=1e-9, point=k, **info)
        for k, (p, q_) in enumerate(zip(gy, y)):
            ctx.close(p, q_, "the engine's curve (y)", rtol=1e-9, atol=1e-9, point=k, **info)
        d = e.plot_sizing_curve(return_as_div=True, return_with_x_y_points=True, strat_slope=slope)
        ctx.check(isinstance(d[0], str) and "<div" in d[0] and len(d) == 4, "a div is returned when asked for", **info)
        ctx.check(hasattr(e.plot_sizing_curve(strat_slope=slope), "data"), "a figure alone is returned by default", **info)
        ctx.outcome(gi, gy[0], gy[-1])


def sub_results(ctx, kind, form):
    c = base(kind, form)
    e = EcosizerEngine(schematic=NAMES[kind][0], **c)
    run = e.simulate_3day()
    ctx.states += 1
    ctx.transitions += 1
    ctx.check(e.get_simulation_summary(run) == run.get_summary(), "the engine's summary is the run's", kind=kind)
    ctx.check(hasattr(e.plot_simulation(), "data") and "<div" in e.plot_simulation(return_as_div=True), "a plot or a div as asked", kind=kind)
    ctx.outcome(kind, form)
    for temps in (False, True):
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "run.html")
            fig, want = e.plot_simulation(title="A title", filepath=f, include_temperatures=temps), run.to_plotly(title="A title", include_temperatures=temps)
            ctx.check(fig.layout.title.text == want.layout.title.text and "A title" in fig.layout.title.text, "the plot's title", kind=kind, got=str(fig.layout.title.text))
            ctx.check(os.path.exists(f) and os.path.getsize(f) > 0, "the plot is written where asked", kind=kind)
            if ctx.check([t.name for t in fig.data] == [t.name for t in want.data], "the engine's plot shows the series of the run", kind=kind, form=form, temps=temps):
                for t, w in zip(fig.data, want.data):
                    ctx.check(list(t.x) == list(w.x) and [None if v is None else float(v) for v in t.y] == [None if v is None else float(v) for v in w.y],
                              "the engine's plot shows its simulated design days", kind=kind, form=form, temps=temps, series=t.name)
    if form == "preshift":
        return
    ann = e.simulate_annual()
    ctx.check(list(e.get_annual_cost_estimate(ann)["monthly_energy_kwh"]) == list(ann.get_monthly_energy_kwh()), "the engine's monthly energy is the run's", kind=kind)
    b, s = by_hand(kind, c)
    same(ctx, record(ann), record(Simulator.simulate(s, b, "annual")), "the engine's annual run differs from the documented construction", kind=kind, form=form)
    ctx.traces += 1


LIMITS = ({}, dict(outlet_deficit_threshold_f=1.0, outlet_deficit_max_min=1), dict(outlet_deficit_threshold_f=40.0), dict(outlet_deficit_max_min=600), dict(outlet_deficit_threshold_f=-100.0, outlet_deficit_max_min=77))


def sub_again(ctx, kind, form):
    """Whatever was asked of an engine before, the next answer is the documented one."""
    c = base(kind, form)
    e = EcosizerEngine(schematic=NAMES[kind][0], **c)
    first = e.get_sizing_results()
    keep = dict(first)
    for k in list(first):
        first[k] = -1.0
    first["x"] = 1
    ctx.check(e.get_sizing_results() == keep, "changing a reported result changes the engine's", kind=kind, form=form)
    seen = []
    for a, b2 in product(range(len(LIMITS)), repeat=2):
        for i in (a, b2):
            b, s = by_hand(kind, c)
            r = e.simulate_3day(**LIMITS[i])
            ctx.states += 1
            ctx.transitions += 1
            ctx.check(all(r is not o for o in seen), "two simulations share one run", kind=kind, form=form)
            seen.append(r)
            same(ctx, record(r), record(Simulator.simulate(s, b, "3day", **LIMITS[i])), "an engine's later run differs from the first of its kind", kind=kind, form=form, limits=LIMITS[i])
            ctx.check(e.get_sizing_results() == keep, "running an engine changes its sizing results", kind=kind, form=form)
            ctx.traces += 1
        if kind == "mprtp":
            break
    other = EcosizerEngine(schematic=NAMES[kind][0], **{**c, "magnitude": c["magnitude"] * 2})
    ctx.check(e.get_sizing_results() == keep, "a second engine changes the first", kind=kind, form=form)
    ctx.check(other.get_sizing_results() != keep or form == "presized" or kind == "instant", "a second engine reports the first one's results", kind=kind, form=form)
    ctx.outcome(kind, form, tuple(keep.values()))


def sub_components(ctx):
    """A plant put together from its components is the same plant as one built part by part."""
    for V, cap, slope, hr, df, (sup, sto) in product((90.0, 400.0), (20.0, 60.0), (None, 1.1, 4.0), (None, 12.0), (None, 0.8), ((120.0, 150.0), (125.0, 140.0))):
        kw = {k: v for k, v in (("strat_slope", slope), ("max_daily_run_hr", hr), ("defrost_factor", df)) if v is not None}
        b, b2 = (Building.from_building_type("multi_family", 30, climate(c), gpdpp=22) for c in (40, 40))
        mk = lambda: [WaterHeater.from_nominal_capacity(cap, ["normal"] * 24, {"normal": Controls(0.5, sup - 2, 0.3, sup + 5, sto)})]
        x = DHWSystem.from_components(V, mk(), sup, sto, **kw)
        y = DHWSystem(mk(), StratifiedTank(V, 2.8 if slope is None else slope), sup, sto, 24.0 if hr is None else hr, 1.0 if df is None else df)
        ctx.states += 1
        ctx.transitions += 2
        info = dict(V=V, cap=cap, slope=slope, run_hours=hr, defrost=df)
        ctx.check((x.max_daily_run_hr, x.defrost_factor, x.supply_temp_f, x.storage_temp_f) == (y.max_daily_run_hr, y.defrost_factor, sup, sto), "settings of a plant built from components", **info)
        same(ctx, record(Simulator.simulate(x, b, "3day")), record(Simulator.simulate(y, b2, "3day")), "a plant from components runs differently", **info)
