"""Building demand: every building type, every pair/triple blend, every interval length that
divides an hour and every step of the day/year, against an independent demand model."""
import json, os
from itertools import combinations, product
import numpy as np
from ecoengine.objects.building.Building import Building
from ..core import close

SHAPES = "/repo/src/ecoengine/data/load_shapes"
GPD = dict(mens_dorm=23.6, womens_dorm=19.6, motel=21.4, nursing_home=23.4, office_building=2.1, food_service_a=11.032,
           food_service_b=6.44, apartment=54.6, elementary_school=1.34, junior_high=3.75, senior_high=3.26)
TYPES = sorted(GPD) + ["multi_family"]
STD = dict(ashLow=20, ashMed=49, ecoMark=25)
DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
BOUNDS = dict(types="all 12, all 66 pairs, all 220 triples, blends with custom slots", intervals=DIV,
              edits="all sequences of up to 3 (thorough 4) changes of daily use, profiles and profile kind, with the loads read in between",
              steps="every step of three days for every interval; every hour of the year for the annual profile",
              shapes="one-hot, two-level, flat and shipped profiles; every single-position corruption of a valid profile")
ASSUMPTIONS = ["interval lengths divide an hour (the step lengths the simulator and sizing use)",
               "a profile is normalised within the documented 0.1 % tolerance"]
_c = {}


def data(t):
    if t not in _c:
        with open(os.path.join(SHAPES, t + ".json")) as f:
            _c[t] = json.load(f)
    return _c[t]


def shape(t, avg=False):
    ls = data(t)["loadshapes"]
    return ls["Stream_Avg"] if avg and "Stream_Avg" in ls else ls["Stream"]


def gal(t, mag, gpdpp=25):
    return (gpdpp if t == "multi_family" else GPD[t]) * mag


def cases(tier):
    for t in TYPES:
        yield "single", dict(t=t)
    prs = list(combinations(TYPES, 2))
    for i in range(0, len(prs), 6):
        yield "blend", dict(groups=[list(p) for p in prs[i:i + 6]])
    trs = list(combinations(TYPES, 3))
    for i in range(0, len(trs), 12):
        yield "blend", dict(groups=[list(p) for p in trs[i:i + 12]])
    if tier == "thorough":
        q = list(combinations(TYPES, 4))
        for i in range(0, len(q), 15):
            yield "blend", dict(groups=[list(p) for p in q[i:i + 15]])
    yield "custom", {}
    for lo in range(0, 24, 6):
        yield "invalid", dict(lo=lo)
    yield "invalid_args", {}
    yield "multifamily", {}
    yield "annual", {}
    yield "annual_custom", {}
    yield "aliases", {}
    for first in EDITS:
        yield "edits", dict(first=first, depth=3 if tier == "quick" else 4)


def judge(ctx, b, daily, peak, avg, ivs=DIV, days=3, **d):
    """b must behave as: demand(step) = daily * shape[hour] * interval/60, wrapping each day"""
    ctx.states += 1
    ctx.close(b.daily_dhw_use_supplyT_gal, daily, "daily use", rtol=1e-9, **d)
    for name, sh in (("peak", peak), ("average", avg)):
        got = list(b.avg_load_shape if name == "average" else b.peak_load_shape)
        ctx.check(len(got) == len(sh) and all(close(x, y, 1e-9, 1e-12) for x, y in zip(got, sh)), f"{name} profile", got=got, want=list(sh), **d)
    for iv in ivs:
        per = 60 // iv
        for use_avg, sh in ((False, peak), (True, avg)):
            for day in range(days):
                total = 0.0
                for s in range(24 * per):
                    step = day * 24 * per + s
                    ctx.transitions += 1
                    g = b.get_dhw_load_supplyT_gal(step, iv, use_avg=use_avg)
                    w = daily * sh[s // per] * iv / 60
                    total += g
                    if not close(g, w, 1e-9, 1e-12):
                        ctx.fail("load at a timestep", step=step, interval_min=iv, use_avg=use_avg, got=g, want=w, **d)
                ctx.close(total, daily * sum(sh), "a day's loads do not add up to the daily use", rtol=1e-9, interval_min=iv, day=day, **d)
    ctx.outcome(daily, list(peak)[:6])


def sub_single(ctx, t):
    for mag in (1, 7, 100, 333.5, 5000):
        b = Building.from_building_type(t, mag, None)
        judge(ctx, b, gal(t, mag), shape(t), shape(t, True), ivs=DIV if mag == 7 else [1, 60], days=3 if mag == 7 else 1, mag=mag)
        b = Building.from_building_type([t], [mag], None)
        judge(ctx, b, gal(t, mag), shape(t), shape(t, True), ivs=[60], days=1, mag=mag, as_list=True)
    one = [0.0] * 24; one[5] = 1.0
    two = [0.05 if h in (1, 2, 3, 4) else 0.04 for h in range(24)]
    for cp, ca in product((None, one, two), (None, one, two)):
        b = Building.from_building_type(t, 10, None, custom_peak_load_shape=cp, custom_avg_load_shape=ca)
        judge(ctx, b, gal(t, 10), cp or shape(t), ca or shape(t, True), ivs=[15], days=1, custom=[bool(cp), bool(ca)])


def sub_blend(ctx, groups):
    for g in groups:
        n = len(g)
        for mags in ([100] * n, [1 + 50 * i for i in range(n)], [700 // (i + 1) for i in range(n)]):
            gals = [gal(t, m) for t, m in zip(g, mags)]
            pk = [sum(v * shape(t)[h] for t, v in zip(g, gals)) / sum(gals) for h in range(24)]
            av = [sum(v * shape(t, True)[h] for t, v in zip(g, gals)) / sum(gals) for h in range(24)]
            b = Building.from_building_type(list(g), list(mags), None)
            judge(ctx, b, sum(gals), pk, av, ivs=[10], days=1, types=g, mags=mags)
        # a custom slot and a per-slot override
        raw = [float((7 * h) % 11) for h in range(24)]
        s = sum(raw)
        b = Building.from_building_type([g[0], None], [10, None], None, custom_peak_load_shape=[None, raw])
        g0 = gal(g[0], 10)
        pk = [(g0 * shape(g[0])[h] + raw[h]) / (g0 + s) for h in range(24)]
        av = [(g0 * shape(g[0], True)[h] + raw[h]) / (g0 + s) for h in range(24)]
        judge(ctx, b, g0 + s, pk, av, ivs=[60], days=1, types=[g[0], None])


def sub_custom(ctx):
    one = lambda h, k=1.0: [k if i == h else 0.0 for i in range(24)]
    pats = [one(h) for h in range(24)] + [[1 / 24] * 24]
    pats += [[float((3 * i * i + h) % 7) for i in range(24)] for h in range(7)]
    pats += [[0.02 if i % 2 else 0.02 + 1 / 24 for i in range(24)], one(23, 250.0), one(0, 0.125)]
    pats += [[k / 24] * 24 for k in (1.004, 0.996, 1.02, 0.98, 0.5)]
    for p in pats:
        s = sum(p)
        norm = [x / s for x in p]
        for mag in (None, 1, 250.5):
            for avg in (None, [1 / 24] * 24, one(3, 4.0)):
                b = Building.from_building_type(None, mag, None, custom_peak_load_shape=p, custom_avg_load_shape=avg)
                av = norm if avg is None else [x / sum(avg) for x in avg]
                judge(ctx, b, s if mag is None else mag, norm, av, ivs=[1, 20, 60], days=2, pattern=p, mag=mag)


def rejects(ctx, what, f, **d):
    ctx.states += 1; ctx.transitions += 1
    try:
        b = f()
    except (ValueError, TypeError):
        ctx.judgements += 1
        ctx.outcome(what, sorted(d.items(), key=str), "rejected")
        return
    ctx.fail(what, daily=b.daily_dhw_use_supplyT_gal, peak=list(b.peak_load_shape)[:24], **d)


def sub_invalid(ctx, lo):
    base = [1 / 24] * 24
    mk = Building.from_building_type
    for pos in range(lo, lo + 6):
        for kind in ("negative", "sum", "slightly off"):
            bad = list(base)
            if kind == "negative":
                bad[pos] = -0.01
                bad[(pos + 1) % 24] += 0.01 + 1 / 24      # still sums to one
            else:
                bad[pos] += 0.01 if kind == "sum" else -0.002
            for t in TYPES:
                rejects(ctx, f"{kind} peak profile accepted", lambda: mk(t, 10, None, custom_peak_load_shape=bad), t=t, pos=pos)
                rejects(ctx, f"{kind} average profile accepted", lambda: mk(t, 10, None, custom_avg_load_shape=bad), t=t, pos=pos)
            if kind == "negative":
                for mag in (None, 50):
                    for scale in (1.0, 3.0):
                        v = [x * scale for x in bad]
                        rejects(ctx, "negative custom peak profile accepted", lambda: mk(None, mag, None, custom_peak_load_shape=v), pos=pos, mag=mag, scale=scale)
                        rejects(ctx, "negative custom average profile accepted",
                                lambda: mk(None, mag, None, custom_peak_load_shape=base, custom_avg_load_shape=v), pos=pos, mag=mag, scale=scale)
    for n in range(lo, lo + 6):       # every wrong length below 24, and as many above it
        for m in (n, 25 + n):
            bad = [1 / m] * m if m else []
            for t in ("motel", "multi_family"):
                rejects(ctx, "profile of wrong length accepted", lambda: mk(t, 10, None, custom_peak_load_shape=bad), t=t, n=m)
                rejects(ctx, "profile of wrong length accepted", lambda: mk(t, 10, None, custom_avg_load_shape=bad), t=t, n=m)
            if m:
                for mag in (None, 50):
                    for k in (1.0, 5.0):
                        v = [x * k for x in bad]
                        rejects(ctx, "custom profile of wrong length accepted", lambda: mk(None, mag, None, custom_peak_load_shape=v), n=m, mag=mag, scale=k)


def sub_invalid_args(ctx):
    mk = Building.from_building_type
    for t in TYPES:
        for mag in (0, -1, -0.5, None, "ten"):
            rejects(ctx, "non-positive or missing magnitude accepted", lambda: mk(t, mag, None), t=t, mag=mag)
    for t in ("", "hotel", "Multi_Family", "apartment ", 5):
        rejects(ctx, "unknown building type accepted", lambda: mk(t, 10, None), t=t)
    for mags in ([1], 10, [1, 2, 3], [1, -2], [0, 5]):
        rejects(ctx, "bad magnitudes for multi-use accepted", lambda: mk(["motel", "apartment"], mags, None), mags=mags)
    one = [1 / 24] * 24
    for cs in (one, [one], [one, None, None]):
        rejects(ctx, "bad custom shapes for multi-use accepted", lambda: mk(["motel", "apartment"], [1, 2], None, custom_peak_load_shape=cs), n=len(cs))
    for zero in ([0.0] * 24, [1.0] + [0.0] * 22 + [-1.0]):
        for mag in (None, 10):
            rejects(ctx, "custom building without any demand accepted", lambda: mk(None, mag, None, custom_peak_load_shape=zero), mag=mag)
    for g in ("25", None, [25.0]):
        rejects(ctx, "gallons per person that are not a number accepted", lambda: mk("multi_family", 10, None, gpdpp=g), g=g)
    rejects(ctx, "custom building without a profile accepted", lambda: mk(None, 10, None))
    for k in ("", "CA", "ashlow", "high", 3):
        rejects(ctx, "unknown standard accepted", lambda: mk("multi_family", 10, None, standard_gpd=k), k=k)
    for nb in (None, [1, 2], [0] * 6, [1] * 7):
        rejects(ctx, "CA standard without bedroom counts accepted", lambda: mk("multi_family", 10, None, standard_gpd="ca", n_br=nb), n_br=nb)


def pct98(v):
    v = sorted(v)
    r = 0.98 * (len(v) - 1)
    i = int(r)
    return v[i] + (v[min(i + 1, len(v) - 1)] - v[i]) * (r - i)


def sub_multifamily(ctx):
    mk = Building.from_building_type
    for mag in (1, 48, 200, 1000.5):
        for g in (10, 25, 33.3):
            judge(ctx, mk("multi_family", mag, None, gpdpp=g), g * mag, shape("multi_family"), shape("multi_family", True), ivs=[60], days=1, g=g, mag=mag)
        for k, g in STD.items():
            judge(ctx, mk("multi_family", mag, None, standard_gpd=k, gpdpp=11), g * mag, shape("multi_family"), shape("multi_family", True), ivs=[60], days=1, std=k, mag=mag)
    br = [np.array(data("multi_family")["ca_gpdpp"][f"{i}br"], dtype=float) for i in range(6)]
    mixes = [[int(i == j) for i in range(6)] for j in range(6)] + [[a, b, c, d, 0, e] for a, b, c, d, e in product((0, 12), (0, 7), (0, 3), (1, 20), (0, 2))]
    for nb in mixes:
        tot = sum(n * x for n, x in zip(nb, br))
        per = pct98(list(tot)) / sum(nb)
        if abs((per * 10) % 1 - 0.5) < 1e-6:
            continue                 # rounding tie: either neighbour is right
        judge(ctx, mk("multi_family", 60, None, standard_gpd="ca", n_br=nb), round(per, 1) * 60, shape("multi_family"), shape("multi_family", True), ivs=[60], days=1, n_br=nb)


def sub_annual(ctx):
    ann = data("multi_family")["loadshapes"]["Annual_Normalized"]
    mk = Building.from_building_type
    for via in ("constructor", "switch"):
        b = mk("multi_family", 100, None, annual=via == "constructor")
        if via == "switch":
            ctx.check(not b.is_annual_load_shape(), "daily building claims to be annual")
            b.set_to_annual_load_shape()
        ctx.check(b.is_annual_load_shape(), "annual building does not report it")
        for iv in DIV:
            per = 60 // iv
            for h in range(8760):
                ctx.states += 1
                for s in {h * per, h * per + per - 1}:
                    ctx.transitions += 1
                    for ua in (False, True):
                        g = b.get_dhw_load_supplyT_gal(s, iv, use_avg=ua)
                        if not close(g, 2500 * ann[h] * iv / 60, 1e-9, 1e-12):
                            ctx.fail("annual load at a timestep", step=s, interval_min=iv, got=g, want=2500 * ann[h] * iv / 60)
                ctx.judgements += 1
            ctx.close(b.get_dhw_load_supplyT_gal(8760 * per + 5 * per, iv), 2500 * ann[5] * iv / 60, "year does not wrap", interval_min=iv)
        b.set_to_daily_load_shape()
        ctx.check(not b.is_annual_load_shape(), "still annual after switching back")
        judge(ctx, b, 2500, shape("multi_family"), shape("multi_family", True), ivs=[60], days=2, via=via)
    for t in sorted(GPD):
        ctx.states += 1
        for what, f in (("annual", lambda: Building.from_building_type(t, 10, None, annual=True)),
                        ("annual", lambda: Building.from_building_type(t, 10, None).set_to_annual_load_shape()),
                        ("daily", lambda: Building.from_building_type(t, 10, None).set_to_daily_load_shape())):
            ctx.transitions += 1
            try:
                f()
            except ValueError:
                ctx.judgements += 1
            else:
                ctx.fail("annual profile invented for a building type that has none", t=t)
    ctx.outcome("annual")


def sub_annual_custom(ctx):
    """all switch sequences up to length 5 on a building with its own daily profiles"""
    cp = [0.0] * 24; cp[7] = 0.75; cp[19] = 0.25
    ca = [1 / 24] * 24
    ann = data("multi_family")["loadshapes"]["Annual_Normalized"]
    for p, a in ((None, None), (cp, None), (None, ca), (cp, ca)):
        wp, wa = p or shape("multi_family"), a or shape("multi_family", True)
        for n in range(1, 6):
            for seq in product("AD", repeat=n):
                b = Building.from_building_type("multi_family", 10, None, custom_peak_load_shape=p, custom_avg_load_shape=a)
                ctx.states += 1
                for s in seq:
                    ctx.transitions += 1
                    b.set_to_annual_load_shape() if s == "A" else b.set_to_daily_load_shape()
                ann_now = seq[-1] == "A"
                ctx.check(b.is_annual_load_shape() == ann_now, "profile kind after switching", seq=seq)
                for h in range(24):
                    for ua, w in ((False, ann if ann_now else wp), (True, ann if ann_now else wa)):
                        ctx.close(b.get_dhw_load_supplyT_gal(h, 60, use_avg=ua), 250 * w[h], "load after switching profiles", rtol=1e-9,
                                  seq=seq, hour=h, custom=[bool(p), bool(a)])
                ctx.outcome(seq, bool(p), bool(a))


EDITS = ("use", "peak", "average", "hour", "annual", "daily", "another")


def sub_edits(ctx, first, depth):
    """the load read at any moment is that of the building's present use and profiles, and of this building only"""
    ann = data("multi_family")["loadshapes"]["Annual_Normalized"]
    for n in range(1, depth + 1):
        for seq in product(EDITS, repeat=n):
            if seq[0] != first:
                continue
            b = Building.from_building_type("multi_family", 10, None)
            use, pk, av, annual = 250.0, list(shape("multi_family")), list(shape("multi_family", True)), False
            for i, op in enumerate((None,) + seq):
                if op == "use":
                    use = 100.0 + 37.5 * i
                    b.daily_dhw_use_supplyT_gal = use
                elif op == "peak" and not annual:
                    pk = [0.0] * 24; pk[(5 + i) % 24] = 0.5; pk[(9 + 2 * i) % 24] += 0.5
                    b.peak_load_shape = np.array(pk)
                elif op == "average" and not annual:
                    av = [1 / 24] * 24
                    b.avg_load_shape = np.array(av)
                elif op == "hour" and not annual:
                    pk = list(pk); pk[i] += 0.01
                    b.peak_load_shape[i] += 0.01
                elif op in ("annual", "daily"):
                    annual = op == "annual"
                    b.set_to_annual_load_shape() if annual else b.set_to_daily_load_shape()
                elif op == "another":
                    o = Building.from_building_type("multi_family", 4, None)
                    judge(ctx, o, 100.0, shape("multi_family"), shape("multi_family", True), ivs=[60], days=1, history=seq[:i])
                ctx.states += 1
                ctx.transitions += 1
                for h in (0, 1, 2, 3, 5, 6, 9, 13, 19, 23):
                    for iv in (60, 10):
                        for ua in (False, True):
                            w = use * (ann if annual else av if ua else pk)[h] * iv / 60
                            ctx.close(b.get_dhw_load_supplyT_gal(h * 60 // iv, iv, use_avg=ua), w, "load after the building was changed", rtol=1e-9,
                                      history=seq[:i], hour=h, interval_min=iv, use_avg=ua)
                ctx.outcome(op, use, annual)


def sub_aliases(ctx):
    """profiles handed in are the building's own from then on: later changes to the caller's lists or arrays, or to another building, do not reach it"""
    for kind in ("list", "array"):
        for how in ("init", "named", "none", "multi"):
            for edit in ("caller", "other peak", "other average"):
                mkv = (lambda v: list(v)) if kind == "list" else (lambda v: np.array(v))
                pk, av = [0.0] * 24, [1 / 24] * 24
                pk[7], pk[19] = 0.75, 0.25
                p, a = mkv(pk), mkv(av)
                if how == "multi" and kind == "array":
                    continue
                def build():
                    if how == "init":
                        return Building(None, 100.0, p, a)
                    if how == "named":
                        return Building.from_building_type("motel", 10, None, custom_peak_load_shape=p, custom_avg_load_shape=a)
                    if how == "none":
                        return Building.from_building_type(None, 100.0, None, custom_peak_load_shape=p, custom_avg_load_shape=a)
                    return Building.from_building_type(["motel", None], [10, 100.0], None, custom_peak_load_shape=[p, p], custom_avg_load_shape=[a, a])
                x, y = build(), build()
                daily = dict(init=100.0, named=gal("motel", 10), none=100.0, multi=gal("motel", 10) + 100.0)[how]
                ctx.check(list(p) == pk and list(a) == av, "building changed the profiles it was given", kind=kind, how=how)
                if edit == "caller":
                    p[7], a[3] = 0.0, 0.5
                elif edit == "other peak":
                    y.peak_load_shape[7] = 0.0
                else:
                    y.avg_load_shape[3] = 0.5
                judge(ctx, x, daily, pk, av, ivs=[60], days=1, kind=kind, how=how, edit=edit)
                ctx.transitions += 1
    p = [float(i % 5) for i in range(24)]
    b = Building.from_building_type(None, None, None, custom_peak_load_shape=p)
    b.peak_load_shape[3] = 0.0
    ctx.check(close(float(b.avg_load_shape[3]), p[3] / sum(p), 1e-12, 1e-12), "changing the peak profile changed the average profile")
