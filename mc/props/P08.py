"""Tank energy accounting: all operation sequences up to the depth bound, real tank and reference
model side by side; heat content before/after every operation is compared with the heat moved."""
from itertools import product
from mc.tankexp import *

BOUNDS = dict(sequences="all operation sequences up to depth 4 (quick) / 6 (thorough)",
              tanks="stratified, energy-account and mixed tanks x volume x slope x initial charge x inlet/outlet temperatures",
              trickles="every operation at one part in 20 000 to 200 of a tankful, repeated 250 (1000) times, from every state two large operations away from the start",
              splits="every heat/draw/loss operation also in 2 and 5 equal parts from every reached state")
ASSUMPTIONS = ["cold < supply <= storage temperature; operation sizes up to 1.4 tank volumes",
               "the ramp model holds heat exactly only while its cold end is inside the tank; outside it the account is an inequality"]
RC = M.RHO_CP


def cases(tier):
    D = 4 if tier == "quick" else 6
    for V, slope, pu, (cold, hot) in product([35.0, 1800.0], [0.8, 1.7, 2.8], [0.95, 0.5, 0.2], [(40.0, 150.0), (65.0, 135.0)]):
        yield "strat", dict(V=V, slope=slope, useable=pu, cold=cold, hot=hot, depth=D)
    for V, slope, pu in product([60.0, 800.0], [0.8, 2.8], [0.95, 0.4, 0.0]):
        yield "energy", dict(V=V, slope=slope, useable=pu, depth=D)
    for V, T in product([80.0, 500.0], [128.0, 119.0, 60.0]):
        yield "mixed", dict(V=V, start=T, depth=D)
    for V, slope in product([40.0, 900.0], [0.8, 1.7, 2.8]):
        yield "seasons", dict(V=V, slope=slope, depth=D)
    for V, slope in product([60.0, 800.0], [0.8, 2.8]):
        yield "energyseasons", dict(V=V, slope=slope, depth=D)
    for tank, V in product(("strat", "energy", "mixed"), (35.0, 800.0)):
        yield "trickle", dict(tank=tank, V=V, n=250 if tier == "quick" else 1000)


def content(real, V, cold):
    return RC * V * (real.get_average_draw_temp_f(V) - cold)


def moved(op, r0, cold, hot):
    """(heat put in, heat asked out) by the operation, BTU."""
    n = op[0]
    if n == "draw":
        return 0.0, op[1] * RC * (op[3] - op[2])
    if n == "heat":
        return op[1] * 1000.0 * op[2] / 60.0, 0.0
    if n == "add":
        return op[1], 0.0
    if n == "recirc":
        return 0.0, op[1] * op[3] * RC * ((op[4] if len(op) > 4 else hot) - op[2])
    if n == "drawgal":
        return 0.0, op[1] * RC * (r0.get_average_draw_temp_f(op[1]) - op[2])
    raise KeyError(n)


def split(op, k):
    n = op[0]
    if n == "draw":
        return (n, op[1] / k) + op[2:]
    if n == "heat":
        return (n, op[1], op[2] / k, op[3])
    if n == "recirc":
        return (n, op[1], op[2], op[3] / k) + op[4:]
    if n == "drawgal":
        return (n, op[1] / k) + op[2:]
    if n == "add":
        return (n, op[1] / k)


def sub_strat(ctx, V, slope, useable, cold, hot, depth):
    supply = 120.0
    full = V * RC * (hot - cold)
    ops = [("draw", V * q, cold, supply, hot) for q in (0.003, 0.08, 0.33)]
    ops += [("heat", full * q / 1000.0 * 60, 1, hot) for q in (0.002, 0.15, 0.6)]
    ops += [("heat", full * 0.05 / 1000.0 * 6, 10, hot), ("recirc", V * 0.05, 110.0, 1, supply), ("recirc", V * 0.01, 110.0, 4),
            ("drawgal", V * 0.1, cold, supply), ("drawgal", V * 0.3, cold)]
    real, ref = StratifiedTank(V, slope), M.RefStrat(V, slope)
    apply(real, ref, ("init", hot, cold, useable))
    tol = 1e-6 * full + RC * 2e-4 * V / 100 * (hot - cold)

    def judge(ctx, r0, m0, r1, m1, op, hist):
        conform(ctx, r1, m1, [supply, 125.0], [V * 0.01, V * 0.25, V], hist)
        if r0 is None:
            return
        put, out = moved(op, r0, cold, hot)
        e0, e1 = content(r0, V, cold), content(r1, V, cold)
        ctx.check(e1 - e0 <= put + tol, "tank gained more heat than was put in", before=e0, after=e1, put=put, history=hist)
        ctx.check(e0 - e1 <= out + tol, "tank lost more heat than was delivered", before=e0, after=e1, out=out, history=hist)
        # exact account while the bottom water is cold and no floor/cap is in play
        coldbottom = m0.line(0.0) <= cold + 1e-9
        if put and coldbottom and m1.line(0.0) <= cold + 1e-9 and m0.line(V) >= hot - 1e-9:
            ctx.close(e1 - e0, put, "heat input not fully stored although the bottom is cold", rtol=0, atol=tol, before=e0, after=e1, history=hist)
        floor = {"draw": supply, "drawgal": op[3] if len(op) > 3 else cold}.get(op[0], -1e9)
        if out and coldbottom and m1.line(V) > floor + 1e-6:
            if op[0] == "recirc" and m1.line(V) < hot - 1e-9:
                return
            ctx.close(e0 - e1, out, "heat delivered differs from heat removed", rtol=0, atol=tol, before=e0, after=e1, history=hist)
        if op[0] != "drawgal" and (coldbottom and m1.line(V) > floor + 1e-6 and m1.line(0.0) <= cold + 1e-9):
            for k in (2, 5):
                rs, ms = copy.deepcopy(r0), copy.deepcopy(m0)
                for _ in range(k):
                    apply(rs, ms, split(op, k)); ctx.transitions += 1
                ctx.close(content(rs, V, cold), e1, "result depends on how the operation is divided into steps", rtol=0, atol=2 * tol, k=k, history=hist)
    explore(ctx, real, ref, ops, depth, judge)


def sub_energy(ctx, V, slope, useable, depth):
    cold, hot, supply = 50.0, 150.0, 120.0
    full = V * RC * (hot - cold)
    ops = [("draw", V * q, cold, supply, hot) for q in (0.01, 0.15, 0.6)]
    ops += [("heat", full * q / 1000 * 60, 1, hot) for q in (0.004, 0.2, 0.7)] + [("heat", full * 0.02 / 1000, 30, hot)]
    ops += [("add", full * 0.05), ("recirc", V * 0.05, 110.0, 1, supply), ("recirc", V * 0.02, 130.0, 3), ("drawgal", V * 0.2, cold), ("drawgal", V * 0.03, cold)]
    real, ref = EnergyTank(V, cold, hot, slope), M.RefEnergy(V, cold, hot, slope)
    apply(real, ref, ("init", hot, cold, useable))
    tol = 3e-6 * full

    def judge(ctx, r0, m0, r1, m1, op, hist):
        conform(ctx, r1, m1, [supply, 125.0], [V * 0.01, V * 0.25, V], hist, tol=0.05, vtol=1e-3)
        if r0 is None:
            return
        put, out = moved(op, r0, cold, hot)
        e0, e1 = content(r0, V, cold), content(r1, V, cold)
        want = min(max(e0 + put - out, 0.0), full)
        ctx.close(e1, want, "stored heat is not the running account clamped to [empty, full]", rtol=0, atol=tol, before=e0, put=put, out=out, history=hist)
        if op[0] != "drawgal":
            for k in (2, 5):
                rs, ms = copy.deepcopy(r0), copy.deepcopy(m0)
                for _ in range(k):
                    apply(rs, ms, split(op, k)); ctx.transitions += 1
                ctx.close(content(rs, V, cold), e1, "result depends on how the operation is divided into steps", rtol=0, atol=2 * tol, k=k, history=hist)
    explore(ctx, real, ref, ops, depth, judge)


def sub_mixed(ctx, V, start, depth):
    cold, supply = 50.0, 120.0
    ops = [("draw", V * q, cold, supply, 128.0) for q in (0.01, 0.3)] + [("draw", V * 0.01, 62.0, supply, 128.0)]
    ops += [("drawgal", V * q, cold) for q in (0.05, 0.7)] + [("mixin", V * 0.1, 150.0), ("mixin", V * 0.02, 60.0), ("mixin", V, 130.0), ("mixin", V * 1.4, 125.0), ("drawgal", V * 1.2, 50.0),
            ("recirc", V * 0.01, 110.0, 1), ("recirc", V * 0.002, 115.0, 10), ("heat", V * 0.3, 10, 128.0), ("heat", V * 0.3, 1, 128.0),
            ("lose", V * 0.2, 10), ("lose", V * 0.2, 1)]
    real, ref = MixedStorageTank(V), M.RefMixed(V)
    apply(real, ref, ("init", start, cold, 1.0))

    def judge(ctx, r0, m0, r1, m1, op, hist):
        conform(ctx, r1, m1, [supply], [V * 0.5], hist, tol=1e-7)
        if r0 is None:
            return
        t0, t1 = r0.get_temperature_at_fraction(0.5), r1.get_temperature_at_fraction(0.5)
        de = (t1 - t0) * V * RC
        n = op[0]
        if n == "heat":
            want = op[1] * 1000 * op[2] / 60
        elif n == "lose":
            want = -op[1] * 1000 * op[2] / 60
        elif n == "recirc":
            want = op[1] * op[3] * RC * (op[2] - t0)
        elif n in ("mixin", "drawgal"):
            want = min(op[1], V) * RC * (op[2] - t0)      # at most the whole tank is replaced
        else:
            if t0 <= op[2]:
                want = 0.0
            else:
                want = -min(op[1] * RC * (op[3] - op[2]), V * RC * (t0 - op[2]))
        ctx.close(de, want, "tank heat change differs from the heat moved", rtol=1e-9, atol=1e-6 * V, op=op, before=t0, after=t1, history=hist)
    explore(ctx, real, ref, ops, depth, judge)


def sub_seasons(ctx, V, slope, depth):
    """Inlet and outlet temperatures changing between steps: the thermocline is carried over unchanged."""
    supply = 120.0
    ops = [("draw", V * q, c, supply, h) for q in (0.03, 0.25) for c in (42.0, 68.0) for h in (135.0, 150.0)]
    ops += [("heat", V * 0.1, 15, h) for h in (135.0, 150.0)] + [("drawgal", V * 0.1, c, supply) for c in (45.0, 70.0)]
    ops += [("draw", 0.0, 58.0, supply, 145.0), ("drawgal", 0.0, 47.0, supply), ("heat", 0.0, 10, 140.0), ("recirc", V * 0.03, 112.0, 1, supply)]
    for hot, cold, pu in ((150.0, 50.0, 0.9), (135.0, 42.0, 0.5)):
        real, ref = StratifiedTank(V, slope), M.RefStrat(V, slope)
        apply(real, ref, ("init", hot, cold, pu))

        def judge(ctx, r0, m0, r1, m1, op, hist):
            conform(ctx, r1, m1, [supply, 125.0], [V * 0.02, V * 0.4], hist)
        explore(ctx, real, ref, ops, depth - 1, judge)
    # initialise restarts the tank whatever happened before
    real, ref = StratifiedTank(V, slope), M.RefStrat(V, slope)
    apply(real, ref, ("init", 150.0, 50.0, 0.9))
    ops3 = [("init", h, c, p) for h in (140.0, 155.0) for c in (45.0, 60.0) for p in (0.2, 1.0)] + ops[:3]
    explore(ctx, real, ref, ops3, 3, lambda ctx, r0, m0, r1, m1, op, hist: conform(ctx, r1, m1, [supply], [V * 0.1], hist))


def sub_energyseasons(ctx, V, slope, depth):
    """Inlet temperature changing between steps: stored heat is carried over unchanged and is read against
    the new inlet; a draw of nothing still takes the new inlet temperature."""
    hot, supply = 150.0, 120.0
    full = V * RC * 100.0
    ops = [("draw", V * q, c, supply, hot) for q in (0.0, 0.03, 0.3) for c in (42.0, 68.0)]
    ops += [("heat", full * 0.1 / 1000 * 60, 1, hot), ("heat", full * 0.6 / 1000 * 60, 1, hot), ("drawgal", V * 0.1, 60.0), ("drawgal", 0.0, 45.0), ("add", full * 0.04),
            ("recirc", V * 0.04, 108.0, 1, supply), ("init", 140.0, 55.0, 0.4),
            ("drawgal_keep", V * 0.4, 118.0), ("drawgal", V * 1.3, 50.0)]
    for cold, pu in ((50.0, 0.9), (65.0, 0.3)):
        real, ref = EnergyTank(V, cold, hot, slope), M.RefEnergy(V, cold, hot, slope)
        apply(real, ref, ("init", hot, cold, pu))

        def judge(ctx, r0, m0, r1, m1, op, hist):
            conform(ctx, r1, m1, [supply, 125.0], [V * 0.01, V * 0.25, V], hist, tol=0.05, vtol=1e-3)
        explore(ctx, real, ref, ops, depth - 1, judge)


def sub_trickle(ctx, tank, V, n):
    """Very small operations, many of them: nothing is too small to count."""
    cold, hot, supply = 50.0, 150.0, 120.0
    full = V * RC * (hot - cold)
    if tank == "strat":
        real, ref = StratifiedTank(V, 1.7), M.RefStrat(V, 1.7)
    elif tank == "energy":
        real, ref = EnergyTank(V, cold, hot, 1.7), M.RefEnergy(V, cold, hot, 1.7)
    else:
        real, ref = MixedStorageTank(V), M.RefMixed(V)
    apply(real, ref, ("init", hot if tank != "mixed" else 126.0, cold, 0.6))
    big = [None, ("draw", V * 0.2, cold, supply, hot), ("heat", full * 0.2 / 1000 * 60, 1, hot), ("drawgal", V * 0.4, cold)]
    tiny = [("draw", V, cold, supply, hot), ("heat", full / 1000 * 60, 1, hot), ("recirc", V, 110.0, 1, supply) if tank != "mixed" else ("recirc", V, 110.0, 1), ("drawgal", V, cold),
            ("heat", full * 4 / 1000 * 60, 0.25, hot)]
    if tank == "energy":
        tiny.append(("add", full))
    if tank == "mixed":
        tiny += [("mixin", V, 140.0), ("lose", V * 0.5, 1)]
    for first, second, op, q in product(big, big, tiny, (5e-5, 5e-4, 5e-3)):
        r, m = copy.deepcopy(real), copy.deepcopy(ref)
        for o in (first, second):
            if o:
                apply(r, m, o)
        small = (op[0], op[1] * q) + op[2:]
        k = min(n, int(1.0 / q)) if op[0] in ("draw", "drawgal") else min(n, int((1.3 if op[0] == "heat" and tank != "mixed" else 0.5) / q))
        for _ in range(k):
            apply(r, m, small)
        ctx.states += 1
        ctx.transitions += k
        ctx.traces += 1
        hist = tuple(o for o in (first, second) if o) + (small, "x%d" % k)
        for last in (None, big[1], big[2]):
            if last:
                apply(r, m, last)
                hist += (last,)
            if tank == "mixed":
                conform(ctx, r, m, [supply], [V * 0.5], hist, tol=1e-6)
            elif tank == "energy":
                conform(ctx, r, m, [supply, 125.0], [V * 0.25, V], hist, tol=0.05, vtol=1e-3)
            else:
                conform(ctx, r, m, [supply, 125.0], [V * 0.25, V], hist)
