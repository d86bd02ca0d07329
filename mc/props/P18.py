"""Climate lookups: every zone x every hour of the year x interval length, every zip code,
every weather station, against an independent reading of the shipped tables."""
import csv, os
from ecoengine.objects.building.ClimateZone import ClimateZone
from ecoengine.objects.building.Building import Building
from ..core import close

DATA = "/repo/src/ecoengine/data/climate_data"
BOUNDS = dict(zones="1..96 (all)", hours="all 8760 of the year plus wrap into a second year",
              intervals="1,2,3,5,6,10,12,15,20,30,60 min and 120,1440 min", zips="all rows", queries="all ordered pairs of interval lengths asked alternately about the same step of two locations", stations="all rows")
ASSUMPTIONS = ["the shipped CSV tables are the ground truth; the check decides how they are read, not their content"]
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
MONTH_OF_DAY = [m for m, n in enumerate(DAYS) for _ in range(n)]
_cache = {}


def table(name):
    if name not in _cache:
        with open(os.path.join(DATA, name), encoding="utf-8-sig", newline="") as f:
            rows = list(csv.DictReader(f))
        _cache[name] = rows
    return _cache[name]


def oat(zone):
    return [float(r[str(zone)]) for r in table("DryBulbTemperatures_ByClimateZone.csv")]


def inlet(zone):
    return [float(r[str(zone)]) for r in table("InletWaterTemperatures_ByClimateZone.csv")]


def lookup(name, key):
    out = {}
    for r in table(name):
        out.setdefault(r[key].strip(), set()).add(int(r["Building CZ"]))
    return {k: next(iter(v)) for k, v in out.items() if len(v) == 1}


def cases(tier):
    for z in range(1, 97):
        yield "zone", dict(zone=z, all_intervals=tier == "thorough" or z in (1, 12, 48, 96))
    zips = sorted(lookup("ZipCode_ClimateZone_Lookup.csv", "Zip Code"))
    n = 40
    for i in range(0, len(zips), n):
        yield "zips", dict(zips=zips[i:i + n])
    st = sorted(lookup("WeatherStation_ClimateZone_Lookup.csv", "Weather Station"))
    for i in range(0, len(st), 10):
        yield "stations", dict(stations=st[i:i + 10])
    yield "unknown", {}
    yield "design", {}
    for z in (1, 33, 65, 96):
        yield "alternate", dict(zone=z, other=(z * 7) % 96 + 1)


def same_zone(ctx, cz, zone, **d):
    """identify which zone's weather an object carries, by its observable readings only"""
    o, w = oat(zone), inlet(zone)
    ctx.states += 1
    for h in list(range(0, 8760, 97)) + [8759]:
        ctx.transitions += 1
        ctx.check(close(cz.get_oat_f(h, 60), o[h]), "wrong outdoor temperature series for location", hour=h, zone=zone, **d)
    for m, day in enumerate((0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)):
        ctx.check(close(cz.get_inlet_water_temp_f(day, 1440), w[m]), "wrong inlet water series for location", month=m, zone=zone, **d)


def sub_zone(ctx, zone, all_intervals):
    cz = ClimateZone.from_zone_id(zone)
    b = Building(cz, 100.0, [1 / 24] * 24, [1 / 24] * 24)
    o, w = oat(zone), inlet(zone)
    ctx.check(cz.zone_id == zone, "zone id not reported", got=cz.zone_id)
    ctx.close(cz.get_design_oat_f(), min(o), "design outdoor temperature is not the annual minimum")
    ctx.close(cz.get_design_inlet_water_temp_f(), min(w), "design inlet temperature is not the coldest month")
    ctx.close(b.get_design_oat_f(), min(o), "building design outdoor temperature")
    ctx.close(b.get_design_inlet_water_temp_f(), min(w), "building design inlet temperature")
    ivs = [1, 2, 3, 5, 6, 10, 12, 15, 20, 30, 60] if all_intervals else [1, 10, 60]
    for iv in ivs:
        per = 60 // iv
        for h in range(8760):
            ctx.states += 1
            eo, ew = o[h], w[MONTH_OF_DAY[h // 24]]
            for step in ((h * per, h * per + per - 1) if per > 1 else (h,)):
                ctx.transitions += 1
                go, gw = cz.get_oat_f(step, iv), cz.get_inlet_water_temp_f(step, iv)
                if not (close(go, eo) and close(gw, ew)):
                    ctx.fail("conditions at a timestep differ from the hour/month they fall in", step=step, interval_min=iv,
                             hour=h, got=[go, gw], want=[eo, ew])
            ctx.judgements += 2
            if h % 24 == 0 and not (close(b.get_oat_f(h * per, iv), eo) and close(b.get_inlet_water_temp_f(h * per, iv), ew)):
                ctx.fail("building conditions differ from its climate", hour=h, interval_min=iv)
        for h in (0, 1, 23, 24, 743, 744, 5000, 8759):         # second year wraps onto the first
            s = (8760 + h) * per
            ctx.check(close(cz.get_oat_f(s, iv), o[h]) and close(cz.get_inlet_water_temp_f(s, iv), w[MONTH_OF_DAY[h // 24]]),
                      "year does not wrap", hour=h, interval_min=iv)
    for iv in (120, 1440):
        for s in range(8760 * 60 // iv):
            h = s * iv // 60
            ctx.check(close(cz.get_oat_f(s, iv), o[h]) and close(cz.get_inlet_water_temp_f(s, iv), w[MONTH_OF_DAY[h // 24]]),
                      "coarse interval lookup", step=s, interval_min=iv)
    bk = cz.get_oat_buckets()
    ctx.check(sum(bk.values()) == 365, "buckets do not partition the year", total=sum(bk.values()))
    ref, amb = {}, set()
    for d in range(365):
        a = sum(o[24 * d:24 * d + 24]) / 24
        k = 5.0 * int(a // 5)
        ref[k] = ref.get(k, 0) + 1
        if min(a % 5, 5 - a % 5) < 1e-6:
            amb |= {k, k - 5.0, k + 5.0}
    for k in set(ref) | set(bk):
        if k not in amb:
            ctx.check(bk.get(k, 0) == ref.get(k, 0), "bucket count", bucket=k, got=bk.get(k, 0), want=ref.get(k, 0))
    ctx.outcome(min(o), min(w), sorted(bk.items()))


def sub_zips(ctx, zips):
    m = lookup("ZipCode_ClimateZone_Lookup.csv", "Zip Code")
    for i, z in enumerate(zips):
        cz = ClimateZone.from_zip_code(z if i % 3 else (int(z) if str(int(z)) == z else z))
        ctx.transitions += 1
        ctx.check(cz.zone_id == m[z], "zip code resolved to another zone", zip=z, got=cz.zone_id, want=m[z])
        same_zone(ctx, cz, m[z], zip=z)
        ctx.outcome(z, cz.zone_id)


def sub_stations(ctx, stations):
    m = lookup("WeatherStation_ClimateZone_Lookup.csv", "Weather Station")
    for s in stations:
        cz = ClimateZone.from_weather_station(s)
        ctx.transitions += 1
        ctx.check(cz.zone_id == m[s], "station resolved to another zone", station=s, got=cz.zone_id, want=m[s])
        same_zone(ctx, cz, m[s], station=s)
        ctx.outcome(s, cz.zone_id)


def rejects(ctx, f, what, **d):
    ctx.states += 1; ctx.transitions += 1
    try:
        r = f()
    except (ValueError, LookupError):
        ctx.judgements += 1
        ctx.outcome(what, str(d), "rejected")
        return
    ctx.fail(what, answered_with=getattr(r, "zone_id", None), **d)


def sub_unknown(ctx):
    zips = lookup("ZipCode_ClimateZone_Lookup.csv", "Zip Code")
    for z in ["00000", "99999", "", "9000", "900011", "98101", 0, 1, 96, 98101, "abc"]:
        if str(z) not in zips:
            rejects(ctx, lambda: ClimateZone.from_zip_code(z), "unknown zip code not rejected", zip=z)
    for s in ["", "Nowhere", "ID - Boise", "id - boise air terminal"]:
        rejects(ctx, lambda: ClimateZone.from_weather_station(s), "unknown station not rejected", station=s)
    for z in [0, -1, -5, -95, -96, 97, 98, 200]:
        rejects(ctx, lambda: ClimateZone.from_zone_id(z), "unknown zone not rejected", zone=z)


def sub_design(ctx):
    for oat_f in (None, -20.0, 0.0, 35.5, 110.0):
        for wt in (None, 0.0, 33.0, 50.0, 80.0):
            cz = ClimateZone.from_design_conditions(oat_f, wt)
            b = Building(None, 10.0, [1 / 24] * 24, [1 / 24] * 24, design_oat_f=oat_f, design_inlet_water_temp_f=wt)
            ctx.states += 1
            for x in (cz, b):
                for step, iv in ((0, 1), (59, 1), (1439, 1), (52559, 10), (8759, 60), (8760, 60), (99999, 60)):
                    if oat_f is not None:
                        ctx.transitions += 1
                        ctx.close(x.get_oat_f(step, iv), oat_f, "constant outdoor temperature")
                        ctx.close(x.get_design_oat_f(), oat_f, "design outdoor temperature")
                    if wt is not None:
                        ctx.transitions += 1
                        ctx.close(x.get_inlet_water_temp_f(step, iv), wt, "constant inlet temperature")
                        ctx.close(x.get_design_inlet_water_temp_f(), wt, "design inlet temperature")
            ctx.outcome(oat_f, wt)
            try:
                cz.get_oat_buckets()
            except ValueError:
                ctx.judgements += 1
            else:
                ctx.fail("weather distribution invented for a design-condition location")
    # a real zone must win over design conditions handed in alongside it
    cz = ClimateZone.from_zone_id(3)
    b = Building(cz, 10.0, [1 / 24] * 24, [1 / 24] * 24, design_oat_f=-100.0, design_inlet_water_temp_f=1.0)
    same_zone(ctx, b, 3)


def sub_alternate(ctx, zone, other):
    """an answer depends on the place, the step and the interval asked about, not on what was asked before"""
    a, b = ClimateZone.from_zone_id(zone), ClimateZone.from_zone_id(other)
    tab = {zone: (oat(zone), inlet(zone)), other: (oat(other), inlet(other))}
    ivs = [1, 10, 15, 60, 1440]
    for i1 in ivs:
        for i2 in ivs:
            for step in list(range(0, 365, 13)) + [743, 744, 1416, 5000, 8759]:
                for cz, z in ((a, zone), (b, other), (a, zone)):
                    o, w = tab[z]
                    for iv in (i1, i2, i1):
                        h = (step * iv // 60) % 8760
                        ctx.states += 1
                        ctx.transitions += 2
                        if not (close(cz.get_oat_f(step, iv), o[h]) and close(cz.get_inlet_water_temp_f(step, iv), w[MONTH_OF_DAY[h // 24]])):
                            ctx.fail("conditions depend on an earlier question", step=step, interval_min=iv, zone=z, pair=[i1, i2])
                    ctx.judgements += 3
            for cz, z in ((a, zone), (b, other)):
                ctx.close(cz.get_design_oat_f(), min(tab[z][0]), "design outdoor temperature after other questions", zone=z)
                ctx.close(cz.get_design_inlet_water_temp_f(), min(tab[z][1]), "design inlet temperature after other questions", zone=z)
                ctx.check(sum(cz.get_oat_buckets().values()) == 365, "buckets after other questions", zone=z)
            ctx.outcome(i1, i2)
