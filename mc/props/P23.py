"""Sizing advice: sizing a plant with controls warns exactly for those controls whose off sensor is above the
on sensor, or whose deadband would be refilled in less than ten minutes by the sized heater."""
import warnings
from itertools import product
from mc.props.P01 import plant, blocks, PEAK, AVG
from mc.sysexp import *
from mc.models.sizing import RHO

BOUNDS = dict(controls="all (on, off) sensor pairs of 10 heights for one to three modes",
              plants="storage only, parallel loop and single-pass RTP x load shapes x run hours x temperatures x daily use x schedules")
ASSUMPTIONS = ["plants whose deadband time is within one part in a million of ten minutes are not judged"]
H = [0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.75, 0.9, 0.95]
FLAT = [1 / 24] * 24
NEAR = blocks([4, 3, 3, 3, 4, 4, 3, 4])
SHAPES = dict(peak=PEAK, flat=FLAT, near=NEAR)


def cases(tier):
    kinds = ["primary", "parallel", "sprtp"]
    for kind, shape, hr in product(kinds, SHAPES, (8.0, 16.0, 24.0)):
        yield "single", dict(kind=kind, shape=shape, hr=hr)
    for kind, sto in product(kinds, (120.0, 121.0, 130.0, 150.0, 175.0)):
        yield "temps", dict(kind=kind, sto=sto)
    for kind in kinds:
        for i in range(0, len(H), 2):
            yield "modes", dict(kind=kind, ons=H[i:i + 2], wide=tier == "thorough")
    yield "silent", {}
    yield "again", {}


def record(f):
    """(result, warnings by control key) of a call, whatever the warning filters are"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        real = f()
    return real, [x for x in w if issubclass(x.category, UserWarning) and not issubclass(x.category, (DeprecationWarning, RuntimeWarning))]


def expect(real, modes, sup, sto):
    """{key: 'backwards' | 'short'}; None as value = too close to call"""
    if sto <= sup:
        return {}
    cap, vol = real.get_minimum_capacity_kbtuh(), real.get_minimum_storage_storageT_gal()
    want = {}
    for k, (onf, _, offf, *_r) in modes.items():
        if offf > onf:
            want[k] = "backwards"
            continue
        gph = cap * 1000.0 / (RHO * (sto - sup))
        minutes = 60.0 * (onf - offf) * vol / gph
        if abs(minutes - 10.0) < 1e-5:
            want[k] = None
        elif minutes < 10.0:
            want[k] = "short"
    return want


def judge(ctx, got, want, modes, **info):
    ctx.states += 1
    ctx.transitions += 1
    seen = {}
    for w in got:
        text = str(w.message)
        keys = [k for k in modes if f"key {k}:" in text or f"key {k} " in text or f"'{k}'" in text]
        kind = "short" if "short cycling" in text else "backwards" if "never shut off" in text else "?"
        ctx.check(len(keys) == 1, "a sizing warning does not say which control it is about", text=text, **info)
        if keys:
            ctx.check(keys[0] not in seen, "a control is warned about twice", key=keys[0], text=text, **info)
            seen[keys[0]] = kind
    for k in modes:
        if want.get(k, 0) is None:
            continue
        ctx.check(seen.get(k) == want.get(k), "sizing warns exactly for controls that are backwards or short cycle", control=k, setting=modes[k], warned=seen.get(k), should=want.get(k), **info)
    ctx.outcome(sorted(seen.items()))


def go(ctx, modes, sup=120.0, sto=150.0, **kw):
    real, got = record(lambda: plant(modes=modes, sup=sup, sto=sto, **kw)[0])
    info = {k: v for k, v in kw.items() if k not in ("peak", "avg")}
    judge(ctx, got, expect(real, modes, sup, sto), modes, sup=sup, sto=sto, **info)


def loop(kind):
    return {} if kind == "primary" else dict(kind=kind, flow=3.0, ret=112.0)


def sub_single(ctx, kind, shape, hr):
    kw = dict(loop(kind), hr=hr, peak=SHAPES[shape], avg=SHAPES[shape])
    if kind == "parallel":
        kw["hr"] = hr
    for onf, offf, daily in product(H, H, (60.0, 3000.0)):
        go(ctx, {"normal": (onf, 118.0, offf, 140.0, 150.0)}, daily=daily, **kw)


def sub_temps(ctx, kind, sto):
    for shape, (onf, offf), inlet, defrost in product(SHAPES, [(0.5, 0.5), (0.5, 0.45), (0.6, 0.2), (0.3, 0.31), (0.9, 0.0)], (38.0, 66.0), (1.0, 0.8)):
        kw = dict(loop(kind), peak=SHAPES[shape], avg=SHAPES[shape], inlet=inlet, defrost=defrost)
        go(ctx, {"normal": (onf, 118.0, offf, sto, sto)}, sto=sto, **kw)


def sub_modes(ctx, kind, ons, wide):
    sched = ["normal"] * 14 + ["loadUp"] * 2 + ["shed"] * 4 + ["normal"] * 4
    offs = H if wide else H[::2]
    for onf, offf, lu, sh in product(ons, offs, [(0.2, 0.1), (0.5, 0.5), (0.1, 0.3)], [(0.8, 0.3), (0.8, 0.795), (0.6, 0.9)]):
        modes = {"normal": (onf, 118.0, offf, 140.0, 150.0), "loadUp": (lu[0], 118.0, lu[1], 145.0, 150.0), "shed": (sh[0], 118.0, sh[1], 135.0, 150.0)}
        for schedule in (sched, None):
            for shape in ("peak", "near"):
                go(ctx, modes, schedule=schedule, peak=SHAPES[shape], avg=SHAPES[shape], daily=400.0, **loop(kind))


def sub_silent(ctx):
    """no controls, no advice"""
    for kind, shape, hr in product(["primary", "parallel", "sprtp"], SHAPES, (8.0, 24.0)):
        real, got = record(lambda: plant(peak=SHAPES[shape], avg=SHAPES[shape], hr=hr, **loop(kind))[0])
        judge(ctx, got, {}, {}, kind=kind, shape=shape, hr=hr)
        ctx.check(not got, "advice about controls that do not exist", text=[str(w.message) for w in got])


def sub_again(ctx):
    """the same advice every time the same controls are sized: on the plant itself, on a second building, after a harmless sizing"""
    bad = {"normal": (0.5, 118.0, 0.49, 140.0, 150.0)}
    back = {"normal": (0.3, 118.0, 0.6, 140.0, 150.0)}
    good = {"normal": (0.6, 118.0, 0.2, 140.0, 150.0)}
    slope = dict(primary=2.8, parallel=2.8, sprtp=1.7)
    for kind, seq in product(["primary", "parallel", "sprtp"], product((bad, back, good), repeat=3)):
        ctl = {id(m): {k: Controls(*v) for k, v in m.items()} for m in (bad, back, good)}
        b, c = building(400.0, PEAK), building(900.0, NEAR)
        real = None
        for n, m in enumerate(seq):
            for bb in (b, c, b):
                if real is None:
                    kw = dict(control_schedule=["normal"] * 24, control_map=ctl[id(m)])
                    if kind == "primary":
                        f = lambda: DHWSystem.from_size(bb, 120.0, 150.0, **kw)
                    elif kind == "parallel":
                        f = lambda: ParallelLoopSystem.from_size(bb, 120.0, 150.0, 112.0, 3.0, tm_on_temp_f=120.0, tm_off_temp_f=128.0, **kw)
                    else:
                        f = lambda: SinglePassRTPSystem.from_size(bb, 120.0, 150.0, 112.0, 3.0, **kw)
                    real, got = record(f)
                else:
                    _, got = record(lambda: real.size(bb, control_map=ctl[id(m)], strat_slope=slope[kind]))
                judge(ctx, got, expect(real, m, 120.0, 150.0), m, kind=kind, sizing=n, daily=bb.daily_dhw_use_supplyT_gal)
