"""Slug life cycle: all operation sequences over start/stop of heating, slug heating and draws up to
the depth bound, against a reference slug account and the conservation laws."""
from itertools import product
from mc.tankexp import *

BOUNDS = dict(sequences="all sequences of 8-9 operations (start, stop, heat x2, draw x4, re-initialise; start, stop, charge, drain) up to depth 5 (quick) / 7 (thorough)",
              tanks="volume x slope x inlet height x initial charge x temperatures")
ASSUMPTIONS = ["one operation draws at most the usable volume; temperatures cold < supply < storage"]
RC = M.RHO_CP


def cases(tier):
    D = 5 if tier == "quick" else 7
    for V, slope, pu, init, (cold, supply, hot) in product([300.0, 2400.0], [0.8, 1.7], [1.0, 0.85], [0.9, 0.35],
                                                           [(50.0, 120.0, 140.0), (42.0, 125.0, 135.0)]):
        yield "lifecycle", dict(V=V, slope=slope, useable=pu, init=init, cold=cold, supply=supply, hot=hot, depth=D)
    for pu, init in product([1.0, 0.85], [0.9, 0.35]):
        yield "lifecycle", dict(V=8.0, slope=1.7, useable=pu, init=init, cold=45.0, supply=122.0, hot=138.0, depth=D)
    for V, slope, pu in product([300.0, 1500.0], [0.8, 2.8], [1.0, 0.85, 0.7]):
        yield "laws", dict(V=V, slope=slope, useable=pu)
    for V, pu, init in product([35.0, 300.0], [1.0, 0.85], [0.7, 0.35]):
        yield "trickle", dict(V=V, useable=pu, init=init, n=250 if tier == "quick" else 1000)


def sub_lifecycle(ctx, V, slope, useable, init, cold, supply, hot, depth):
    cap = useable * V
    E = cap * RC * (hot - cold)
    ops = [("on", supply), ("off",), ("slugheat", E * 0.02 / 1000 * 60, 1), ("slugheat", E * 0.02 / 1000, 10),
           ("drawgal_keep", cap * 0.03, cold), ("drawgal_keep", cap * 0.3, 0.5 * (cold + supply)), ("drawgal", cap * 0.12, cold),
           ("drawgal_keep", cap * 0.9, cold)]
    real, ref = SlugOverlayTank(V, cold, hot, supply, useable, slope), M.RefSlug(V, cold, hot, supply, useable, slope)
    apply(real, ref, ("init", hot, cold, init))

    def judge(ctx, r0, m0, r1, m1, op, hist):
        conform(ctx, r1, m1, [supply], None, hist, tol=0.05, vtol=2e-3)
        ctx.check(r1.is_slug_active() == (m1.slug is not None), "slug active flag", history=hist)
        if m1.slug is not None:
            ctx.close(r1.slug_temp_f, m1.slug[1], "slug temperature differs from the account of heat and water put in", rtol=1e-4, atol=5e-3 + abs(m1.slug[1] - cold) * 3e-5 * V / max(m1.slug[0], 1e-5 * V), history=hist)   # a tiny slug's volume is known to a relative precision only
    explore(ctx, real, ref, ops, depth, judge)
    # re-initialising ends any cycle
    explore(ctx, copy.deepcopy(real), copy.deepcopy(ref), [("init", hot, cold, 0.5), ("init", hot, cold - 4, 0.8), ("on", supply), ("slugheat", E * 0.002 / 1000 * 10, 6), ("drawgal_keep", cap * 0.2, cold)], 4, judge)
    # the underlying heat account is charged and drained between cycles (never above a full usable zone)
    explore(ctx, copy.deepcopy(real), copy.deepcopy(ref), [("add", E * 0.3), ("heat", E * 0.05 / 1000 * 60, 1, hot), ("recirc", cap * 0.1, cold + 30.0, 1, supply), ("drawgal", cap * 0.25, cold),
                                                           ("on", supply), ("slugheat", E * 0.03 / 1000 * 60, 1), ("off",)], depth, judge)


def sub_trickle(ctx, V, useable, init, n):
    """Very small draws and heat inputs during a cycle, many of them: nothing is too small to count."""
    cold, supply, hot = 50.0, 120.0, 140.0
    cap = useable * V
    E = cap * RC * (hot - cold)
    big = [None, ("drawgal_keep", cap * 0.15, cold), ("slugheat", E * 0.03 / 1000 * 60, 1), ("slugheat", E * 0.2 / 1000 * 60, 1)]
    for before, first, op, q, stop in product((None, ("drawgal", cap * 0.1, cold)), big, (("slugheat", E / 1000 * 60, 1), ("drawgal_keep", cap, cold), ("drawgal", cap, cold), ("both",)),
                                              (2e-5, 3e-4, 1e-3), (False, True)):
        real, ref = SlugOverlayTank(V, cold, hot, supply, useable, 1.2), M.RefSlug(V, cold, hot, supply, useable, 1.2)
        apply(real, ref, ("init", hot, cold, init))
        for o in (before, ("on", supply), first):
            if o:
                apply(real, ref, o)
        k = min(n, int(0.3 / q))
        small = [(op[0], op[1] * q) + op[2:]] if op[0] != "both" else [("drawgal_keep", cap * q, cold), ("slugheat", E * q / 1000 * 60, 1)]
        for _ in range(k):
            for o in small:
                apply(real, ref, o)
        if stop:
            apply(real, ref, ("off",))
        ctx.states += 1
        ctx.transitions += k * len(small)
        ctx.traces += 1
        hist = (before, "on", first, tuple(small), "x%d" % k, "off" if stop else "")
        conform(ctx, real, ref, [supply], None, hist, tol=0.05, vtol=2e-3)
        if ref.slug is not None:
            ctx.close(real.slug_temp_f, ref.slug[1], "slug temperature differs from the account of heat and water put in", rtol=1e-4, atol=5e-3 + abs(ref.slug[1] - cold) * 3e-5 * V / max(ref.slug[0], 1e-5 * V), history=hist)


def sub_laws(ctx, V, slope, useable):
    cold, supply, hot = 50.0, 120.0, 140.0
    cap = useable * V
    E = cap * RC * (hot - cold)
    n = 1500

    def fresh(init):
        t = SlugOverlayTank(V, cold, hot, supply, useable, slope)
        t.initialize(hot, cold, init)
        return t

    tol = 2e-3 * E
    for init in (0.05, 0.2, 0.35, 0.5, 0.65):
        base = fresh(init)
        e0 = heat_content(base, V, cold, n)
        u0 = base.get_usable_volume_supplyT_gal(supply)
        ctx.close(u0, min(init, useable) * V, "initial charge leaves that fraction at supply temperature", rtol=1e-4, atol=1e-4 * V)
        for heat in (0.0, 0.02, 0.1, 0.2):
            for draws in ((), (0.02,), (0.05, 0.1), (0.1, 0.1, 0.1), (0.02,) * 8):
                for order in ("heat_first", "draw_first"):
                    t = fresh(init)
                    t.activate_slug(supply)
                    t.activate_slug(supply)      # idempotent while active
                    ctx.transitions += 2
                    ctx.close(t.get_usable_volume_supplyT_gal(supply), u0, "starting a cycle changed the usable volume", rtol=1e-4, atol=1e-4 * V)
                    out = 0.0
                    drawn = 0.0
                    slug0 = cap - u0
                    if order == "heat_first" and heat and slug0 > 0:
                        t.heat_slug(E * heat / 1000 * 6, 10)
                    for d in draws:
                        gal = d * cap
                        # heat in the top `gal` gallons of the profile
                        k = 200
                        top = sum(t.get_temperature_at_fraction(1 - (i + 0.5) / k * gal / V) for i in range(k)) / k
                        clipped = t.slug_temp_f > hot
                        out += gal * RC * (top - cold)
                        t.draw_physical_gal(gal, cold, update_internal_cold_temp=False)
                        drawn += gal
                        ctx.transitions += 1
                    if order == "draw_first" and heat and (slug0 > 0 or drawn > 0):
                        t.heat_slug(E * heat / 1000 * 6, 10)
                    hot_slug = t.slug_temp_f > hot
                    t.deactivate_slug()
                    ctx.transitions += 2
                    ctx.states += 1
                    ctx.check(not t.is_slug_active(), "stopping leaves the slug active")
                    e1 = heat_content(t, V, cold, n)
                    put = E * heat if (order == "draw_first" and (slug0 > 0 or drawn > 0)) or slug0 > 0 else 0.0
                    if e0 + put - out > E or hot_slug:
                        ctx.check(e1 <= E + tol, "tank holds more than a full charge", e1=e1, full=E)
                        continue
                    ctx.outcome(e1)
                    ctx.close(e1, e0 + put - out, "heat after the cycle is not heat before plus heat added minus heat drawn", rtol=0, atol=tol,
                              init=init, heat=heat, draws=draws, order=order, full=E)
