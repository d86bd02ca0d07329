"""Mixing valve: exhaustive lattice of loads x return flows x temperatures (including the
critical-flow boundary of every cell) against the two conservation laws."""
from itertools import product
from ecoengine.objects.dhwsystems.utils import mixing_valve_behavior

BOUNDS = dict(lattice="load x return flow x cold x return x supply x storage temperatures, plus the exact "
                      "critical-flow boundary of every flow/temperature cell and its two neighbours")
ASSUMPTIONS = ["cold < return <= supply, non-negative flows; with storage below supply only heat balance and absence of errors are judged"]

COLD = [33.0, 40.0, 50.0, 62.5, 75.0]
SUPPLY = [110.0, 120.0, 125.0, 130.0]
DROP = [0.0, 0.5, 3.0, 5.0, 10.0, 25.0]
STORE = [0.25, 2.0, 10.0, 20.0, 30.0, 60.0]      # above supply
LOADS = [0.0, 1e-6, 0.01, 0.1, 0.5, 1.0, 2.0, 3.3333, 7.0, 20.0, 100.0, 600.0, 5000.0]
FLOWS = [0.0, 1e-6, 0.05, 0.5, 1.0, 2.5, 6.0, 15.0, 45.0, 150.0, 900.0]


def cases(tier):
    for c in COLD:
        for s in SUPPLY:
            yield "balance", dict(cold=c, supply=s, fine=tier == "thorough")
        yield "depleted", dict(cold=c)
    yield "no_flow", {}


def dense(xs, n):
    out = []
    for a, b in zip(xs, xs[1:]):
        out += [a + (b - a) * k / n for k in range(n)]
    return out + [xs[-1]]


def sub_balance(ctx, cold, supply, fine):
    loads = dense(LOADS, 4) if fine else dense(LOADS, 2)
    flows = dense(FLOWS, 4) if fine else FLOWS
    for drop, up in product(DROP, STORE):
        ret, hot = supply - drop, supply + up
        for flow in flows:
            crit = flow * (supply - ret) / (hot - supply)
            pts = loads + [crit, crit * (1 - 1e-9), crit * (1 + 1e-9), crit * 0.5, crit * 2]
            ctx.states += 1
            for load in pts:
                if load == 0 and flow * drop == 0:
                    continue            # nothing moves: judged separately
                ctx.transitions += 1
                r = mixing_valve_behavior(load, flow, cold, supply, ret, hot)
                d, tin = r["storage_draw_gal"], r["inlet_temp_f"]
                case = dict(load=load, flow=flow, ret=ret, hot=hot)
                heat = load * (supply - cold) + flow * (supply - ret)
                ctx.check(0 <= d <= (load + flow) * (1 + 1e-9) + 1e-12, "draw outside [0, delivered flow]", d=d, **case)
                ctx.check(cold - 1e-6 <= tin <= max(ret, cold) + 1e-6, "water returned to storage outside [cold, return]", tin=tin, **case)
                # energy leaving storage equals energy delivered plus loop loss
                ctx.close(d * (hot - tin), heat, "energy balance across storage", rtol=1e-7, atol=1e-9 + 1e-7 * (load + flow), **case)
                # valve outlet: d gallons hot + remainder must be exactly (load+flow) at supply temperature.
                # remainder is return water below the critical load and cold+return above it
                if load > crit * (1 + 1e-8):
                    ctx.close(tin, cold, "above critical load all make-up must reach storage cold", atol=1e-6, **case)
                    ctx.check(d <= load * (1 + 1e-9) + 1e-12, "above critical load draw exceeds make-up", d=d, **case)
                else:
                    mix = d * hot + (load + flow - d) * ret
                    ctx.close(mix, (load + flow) * supply, "valve outlet not at supply temperature", rtol=1e-7, **case)
                    ctx.check(d >= load * (1 - 1e-7) - 1e-12, "below critical load storage must take all make-up", d=d, **case)
            a = mixing_valve_behavior(crit * (1 - 1e-9) + 1e-12, flow, cold, supply, ret, hot) if flow * drop > 0 else None
            if a is not None:
                b = mixing_valve_behavior(crit * (1 + 1e-9) + 1e-12, flow, cold, supply, ret, hot)
                ctx.close(a["storage_draw_gal"], b["storage_draw_gal"], "draw discontinuous at critical load", rtol=1e-6, flow=flow)
                ctx.outcome(a["storage_draw_gal"])


def sub_no_flow(ctx):
    for cold, supply, up in product(COLD, SUPPLY, STORE):
        for flow, drop in ((0.0, 5.0), (0.0, 0.0), (3.0, 0.0)):
            ctx.states += 1; ctx.transitions += 1
            r = mixing_valve_behavior(0.0, flow, cold, supply, supply - drop, supply + up)
            ctx.close(r["storage_draw_gal"], 0.0, "no load and no loop loss must draw nothing", flow=flow, drop=drop, supply=supply, cold=cold)
            ctx.outcome(r["storage_draw_gal"])


def sub_depleted(ctx, cold):
    """Storage at or below supply temperature: heat still balances while storage is warmer than the make-up; never an error."""
    for supply, drop, load, flow in product(SUPPLY, DROP, LOADS, FLOWS):
        ret = supply - drop
        for hot in (supply, supply - 1e-9, supply - 3.0, ret, (cold + supply) / 2, cold + 1e-3, cold, cold - 4.0):
            ctx.states += 1; ctx.transitions += 1
            r = mixing_valve_behavior(load, flow, cold, supply, ret, hot)
            d, tin = r["storage_draw_gal"], r["inlet_temp_f"]
            case = dict(load=load, flow=flow, cold=cold, supply=supply, ret=ret, hot=hot)
            ctx.check(d >= 0 and d < 1e12 and cold - 1e-6 <= tin <= max(ret, cold) + 1e-6, "depleted storage: draw or returned temperature impossible", d=d, tin=tin, **case)
            if load == 0 and flow * drop == 0:
                ctx.close(d, 0.0, "no load and no loop loss must draw nothing", **case)
            elif hot > cold + 1e-6:
                heat = load * (supply - cold) + flow * (supply - ret)
                ctx.close(d * (hot - tin), heat, "energy balance across storage", rtol=1e-6, atol=1e-9 + 1e-6 * (load + flow), **case)
            else:
                ctx.check(d <= load + flow + 1e-9, "depleted storage: draw exceeds the delivered flow", d=d, **case)
            if hot == supply and flow * drop > 0:        # the valve can only be fully open: everything delivered comes out of storage
                ctx.close(d, load + flow, "storage exactly at supply temperature delivers the whole flow", rtol=1e-7, atol=1e-9, **case)
                ctx.close(tin, (load * cold + flow * ret) / (load + flow), "storage exactly at supply temperature takes all make-up and all return", rtol=1e-7, **case)
            ctx.outcome(d)
