"""Tank profile sanity: every state reached by every operation sequence up to the depth bound has a
bounded, height-monotone temperature profile, and every query is consistent with that profile."""
from itertools import product
from mc.tankexp import *

BOUNDS = dict(sequences="all operation sequences up to depth 4 (quick) / 6 (thorough) over 9-11 operations per tank",
              tanks="stratified, energy-account, mixed and slug-overlay tanks x sizes x slopes x initial charges",
              heights="41 heights, 9 draw volumes, 7 supply temperatures (up to 20 F above the hottest water) per state")
ASSUMPTIONS = ["cold < supply temperature; operation sizes up to one tank volume"]
SUPPLY = [105.0, 120.0, 125.0, 140.0, 150.0, 151.0, 170.0]
COLD, HOT = 50.0, 150.0


def cases(tier):
    D = 4 if tier == "quick" else 6
    for V, slope, pu in product([40.0, 2500.0], [0.8, 1.7, 2.8], [1.0, 0.6, 0.15, 0.0]):
        yield "strat", dict(V=V, slope=slope, useable=pu, depth=D)
    for V, slope, pu in product([60.0, 800.0], [0.8, 2.8], [1.0, 0.5, 0.0]):
        yield "energy", dict(V=V, slope=slope, useable=pu, depth=D)
    for V, slope, pu, init in product([400.0, 2000.0], [0.8, 1.7], [1.0, 0.85], [0.9, 0.4]):
        yield "slug", dict(V=V, slope=slope, useable=pu, init=init, depth=D)
    for V in [80.0, 500.0]:
        yield "mixed", dict(V=V, depth=D)


def consistent(ctx, real, V, lo, hi, hist, monotone=True, n=40, supplies=SUPPLY, avg=True, cap=None):
    cap = V if cap is None else cap
    p = profile(real, n)
    ctx.check(all(lo - 1e-9 <= t <= hi + 1e-9 for t in p), "temperature outside [cold, hot]", profile=p, lo=lo, hi=hi, history=hist)
    if monotone:
        ctx.check(all(a <= b + 1e-9 for a, b in zip(p, p[1:])), "temperature falls with height", profile=p, history=hist)
    prev = None
    for s in supplies:
        u = real.get_usable_volume_supplyT_gal(s)
        ctx.check(-1e-9 <= u <= V * (1 + 1e-12), "usable volume outside [0, tank volume]", usable=u, supply=s, history=hist)
        ctx.check(prev is None or u <= prev + 1e-6 * V, "usable volume grows with a hotter requirement", usable=u, prev=prev, supply=s, history=hist)
        prev = u
        if s > hi:
            ctx.check(abs(u) <= 1e-9 * V, "usable water reported above the hottest temperature in the tank", usable=u, supply=s, hot=hi, history=hist)
        if monotone and lo < s <= hi:
            tol = 2e-3
            if u <= 1e-9 * V:
                ctx.check(p[-1] <= s + tol, "no usable water but the top is at supply temperature", top=p[-1], supply=s, history=hist)
            elif u >= cap * (1 - 1e-12):
                ctx.check(real.get_temperature_at_fraction(1 - cap / V + 1e-9) >= s - tol, "whole tank usable but the bottom is below supply temperature", bottom=p[0], supply=s, history=hist)
            else:
                x = 1 - u / V
                ctx.close(real.get_temperature_at_fraction(x), s, "temperature at the usable boundary is not supply temperature", rtol=0, atol=tol, supply=s, usable=u, history=hist)
    if avg:
        # bounds from the profile: mean of lower/upper sums over the drawn heights
        for k in (30, 1, 2, 5, 10, 20, 40, 30):        # the last question of a state is the first of the next
            gal = V * k / n
            cells = [(p[i], p[i + 1]) for i in range(n - k, n)]
            low = sum(min(c) for c in cells) / k
            up = sum(max(c) for c in cells) / k
            a = real.get_average_draw_temp_f(gal)
            ctx.check(low - 1e-3 <= a <= up + 1e-3, "average draw temperature is not the mean of the top of the profile",
                      got=a, low=low, high=up, gal=gal, history=hist)
        ctx.check(real.get_average_draw_temp_f(2 * V) >= lo - 1e-9, "average of an over-full draw below cold", history=hist)
        real.get_average_draw_temp_f(V * 30 / n)
    real.get_usable_volume_supplyT_gal(supplies[0])
    real.get_temperature_at_fraction(0.0)


def no_worse(ctx, real0, real1, op, hist, n=40):
    """A draw never warms any height; heating never cools any height (same temperature limits)."""
    if real0 is None:
        return
    a, b = profile(real0, n), profile(real1, n)
    name = op[0]
    if name in ("draw", "drawgal", "recirc"):
        ctx.check(all(y <= x + 1e-4 for x, y in zip(a, b)), "drawing water warmed part of the tank", op=op, before=a, after=b, history=hist)
    elif name in ("heat", "add"):
        ctx.check(all(y >= x - 1e-4 for x, y in zip(a, b)), "heating cooled part of the tank", op=op, before=a, after=b, history=hist)


def sub_strat(ctx, V, slope, useable, depth):
    supply = 120.0
    ops = [("draw", V * q, COLD, supply, HOT) for q in (0.004, 0.09, 0.4, 0.9)]
    ops += [("heat", V * q * 8.353535 * (HOT - COLD) / 1000.0 * 60, 1, HOT) for q in (0.003, 0.12, 0.55)]
    ops += [("recirc", V * 0.05, 110.0, 1, supply), ("drawgal", V * 0.2, COLD, supply), ("drawgal", V * 0.3, COLD)]
    real, ref = StratifiedTank(V, slope), M.RefStrat(V, slope)
    apply(real, ref, ("init", HOT, COLD, useable))

    def judge(ctx, r0, m0, r1, m1, op, hist):
        consistent(ctx, r1, V, COLD, HOT, hist)
        no_worse(ctx, r0, r1, op, hist)
    explore(ctx, real, ref, ops, depth, judge)
    # seasons: inlet and outlet temperatures move between steps; limits move with them
    real, ref = StratifiedTank(V, slope), M.RefStrat(V, slope)
    apply(real, ref, ("init", HOT, COLD, useable))
    ops2 = [("draw", V * 0.1, c, supply, h) for c in (42.0, 68.0) for h in (135.0, 150.0)] + [("heat", 200.0, 10, h) for h in (135.0, 150.0)] + [("drawgal", V * 0.1, 60.0, supply), ("draw", 0.0, 55.0, supply, 142.0),
            ("draw", 0.0, 66.0, supply, 142.0), ("draw", 0.0, 46.0, supply, 150.0), ("heat", 0.0, 10, 135.0), ("heat", 0.0, 10, 150.0)]

    def judge2(ctx, r0, m0, r1, m1, op, hist):
        consistent(ctx, r1, V, m1.cold, m1.hot, hist, supplies=[supply, 125.0, 145.0])
    explore(ctx, real, ref, ops2, depth - 1, judge2)


def sub_energy(ctx, V, slope, useable, depth):
    supply = 120.0
    E = V * 8.353535 * (HOT - COLD)
    ops = [("draw", V * q, COLD, supply, HOT) for q in (0.01, 0.15, 0.6)]
    ops += [("heat", E * q / 1000 * 60, 1, HOT) for q in (0.004, 0.2, 0.7)]
    ops += [("add", E * 0.05), ("recirc", V * 0.05, 110.0, 1, supply), ("recirc", V * 0.05, 130.0, 1), ("drawgal", V * 0.2, COLD)]
    real, ref = EnergyTank(V, COLD, HOT, slope), M.RefEnergy(V, COLD, HOT, slope)
    apply(real, ref, ("init", HOT, COLD, useable))

    def judge(ctx, r0, m0, r1, m1, op, hist):
        consistent(ctx, r1, V, COLD, HOT, hist)
        no_worse(ctx, r0, r1, op, hist)
    explore(ctx, real, ref, ops, min(depth, 4), judge)
    # seasons: the inlet temperature moves between steps, also without any draw
    real, ref = EnergyTank(V, COLD, HOT, slope), M.RefEnergy(V, COLD, HOT, slope)
    apply(real, ref, ("init", HOT, COLD, useable))
    ops2 = [("draw", V * q, c, supply, HOT) for q in (0.0, 0.1) for c in (42.0, 68.0)] + [("heat", E * 0.15 / 1000 * 60, 1, HOT), ("drawgal", V * 0.1, 60.0), ("drawgal", 0.0, 55.0), ("recirc", V * 0.05, 110.0, 1, supply)]
    explore(ctx, real, ref, ops2, depth - 1, lambda ctx, r0, m0, r1, m1, op, hist: consistent(ctx, r1, V, m1.cold, m1.hot, hist, supplies=[supply, 125.0, 145.0]))


def sub_slug(ctx, V, slope, useable, init, depth):
    supply = 120.0
    hot = 140.0
    cap = useable * V
    E = cap * 8.353535 * (hot - COLD)
    ops = [("on", supply), ("off",), ("slugheat", E * 0.05 / 1000 * 60, 1), ("slugheat", E * 0.3 / 1000 * 60, 1),
           ("drawgal_keep", cap * 0.04, COLD), ("drawgal_keep", cap * 0.3, 95.0), ("drawgal", cap * 0.1, COLD)]
    real, ref = SlugOverlayTank(V, COLD, hot, supply, useable, slope), M.RefSlug(V, COLD, hot, supply, useable, slope)
    apply(real, ref, ("init", hot, COLD, init))

    def judge(ctx, r0, m0, r1, m1, op, hist):
        active = m1.slug is not None
        consistent(ctx, r1, V, COLD, hot, hist, monotone=not active, supplies=[supply, 130.0], avg=False, cap=cap)
        u = r1.get_usable_volume_supplyT_gal(supply)
        ctx.check(u <= cap * (1 + 1e-9), "usable volume includes the dead zone below the inlet", usable=u, cap=cap, history=hist)
        # the mean over the drawable part agrees with the profile, slug or not
        n = 80
        for q in (0.05, 0.3, 0.7, 1.0):
            gal = cap * q
            xs = [1 - (i + 0.5) / n * gal / V for i in range(n)]
            # temperatures inside the slug are reported capped at storage temperature
            m = sum(r1.get_temperature_at_fraction(x) for x in xs) / n
            a = r1.get_average_draw_temp_f(gal)
            if active and m1.slug[1] > hot:
                continue
            ctx.close(a, m, "average draw temperature is not the mean of the top of the profile", rtol=0, atol=0.8, gal=gal, history=hist)
    explore(ctx, real, ref, ops, depth, judge)


def sub_mixed(ctx, V, depth):
    supply = 120.0
    ops = [("draw", V * q, COLD, supply, HOT) for q in (0.02, 0.5)]
    ops += [("drawgal", V * q, COLD) for q in (0.05, 0.7)] + [("mixin", V * 0.1, HOT), ("mixin", V * 0.1, 60.0),
            ("recirc", V * 0.05, 110.0, 1), ("heat", V * 0.3, 10, 128.0), ("lose", V * 0.2, 10)]
    real, ref = MixedStorageTank(V), M.RefMixed(V)
    apply(real, ref, ("init", 128.0, COLD, 1.0))

    def judge(ctx, r0, m0, r1, m1, op, hist):
        p = profile(r1, 10)
        ctx.check(max(p) - min(p) <= 1e-9, "a mixed tank has one temperature", profile=p, history=hist)
        for s in SUPPLY:
            u = r1.get_usable_volume_supplyT_gal(s)
            ctx.check(u in (0.0, V), "a mixed tank is usable entirely or not at all", usable=u, history=hist)
            ctx.check((u > 0) == (p[0] >= s), "usable exactly when at supply temperature", usable=u, temp=p[0], supply=s, history=hist)
        for g in (0.1, V / 2, V):
            ctx.close(r1.get_average_draw_temp_f(g), p[0], "draw temperature is the tank temperature", history=hist)
        if r0 is not None:
            t0, t1 = profile(r0, 1)[0], p[0]
            if op[0] in ("mixin", "drawgal", "recirc"):
                src = {"mixin": 2, "drawgal": 2, "recirc": 2}[op[0]]
                lo, hi = min(t0, op[src]), max(t0, op[src])
                ctx.check(lo - 1e-9 <= t1 <= hi + 1e-9, "mixing left the range of the mixed streams", before=t0, after=t1, op=op, history=hist)
            elif op[0] == "draw" and t0 >= COLD:
                ctx.check(COLD - 1e-9 <= t1 <= t0 + 1e-9, "a draw warmed the tank or cooled it below cold", before=t0, after=t1, history=hist)
            elif op[0] == "heat":
                ctx.check(t1 >= t0, "heating cooled the tank", before=t0, after=t1, history=hist)
            elif op[0] == "lose":
                ctx.check(t1 <= t0, "heat loss warmed the tank", before=t0, after=t1, history=hist)
    explore(ctx, real, ref, ops, depth, judge)
