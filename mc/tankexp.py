"""Depth-bounded exhaustive exploration of tank operation sequences: the real tank and the
reference model take every sequence of operations of the alphabet side by side."""
import copy
from .models import tanks as M
from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
from ecoengine.objects.components.storage.EnergyTank import EnergyTank
from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank

FR = [0.5, 0.0, 0.1, 0.2, 0.25, 0.4, 0.6, 0.75, 0.8, 0.9, 1.0]


def apply(real, ref, op):
    name, *a = op
    if name == "draw":            # v, cold, supply, outlet
        real.draw(*a); ref.draw(*a)
    elif name == "heat":
        real.heat(*a); ref.heat(*a)
    elif name == "recirc":        # gpm, return, minutes[, supply]
        real.add_recirc_return(*a); ref.recirc(*a)
    elif name == "drawgal":       # gal, inlet[, supply]
        real.draw_physical_gal(*a); ref.draw_gal(*a)
    elif name == "drawgal_keep":  # gal, inlet (warm return: cold baseline kept)
        real.draw_physical_gal(a[0], a[1], update_internal_cold_temp=False); ref.draw_gal(a[0], a[1], update=False)
    elif name == "add":
        real.add_energy_btu(*a); ref.add(*a)
    elif name == "mixin":
        real.mix_primary_inflow(*a); ref.mix_in(*a)
    elif name == "lose":
        real.apply_fixed_heat_loss_kbtuh(*a); ref.lose(*a)
    elif name == "init":          # storage, cold, useable
        real.initialize(*a); ref.initialize(*a)
    elif name == "on":
        real.activate_slug(*a); ref.activate(*a)
    elif name == "off":
        real.deactivate_slug(); ref.deactivate()
    elif name == "slugheat":
        real.heat_slug(*a); ref.heat_slug(*a)
    else:
        raise KeyError(name)


def explore(ctx, real, ref, ops, depth, judge, dedupe=True, history=()):
    """Every operation sequence up to `depth`; states already reached (reference state) at the
    same or smaller depth are not expanded again."""
    seen = {}
    frontier = [(real, ref, tuple(history))]
    seen[ref.key()] = 0
    judge(ctx, None, None, real, ref, None, tuple(history))
    ctx.states += 1
    for d in range(depth):
        nxt = []
        for real0, ref0, hist in frontier:
            for op in ops:
                r1, m1 = copy.deepcopy(real0), copy.deepcopy(ref0)
                apply(r1, m1, op)
                ctx.transitions += 1
                h = hist + (op,)
                judge(ctx, real0, ref0, r1, m1, op, h)
                ctx.traces += 1
                k = m1.key()
                if dedupe and k in seen:
                    continue
                seen[k] = d + 1
                ctx.states += 1
                ctx.outcome(k)
                nxt.append((r1, m1, h))
        frontier = nxt


def conform(ctx, real, ref, supplies, draws, hist, tol=2e-4, vtol=None):
    vtol = tol if vtol is None else vtol
    if hasattr(ref, 'emax') and not 1e-3 <= ref.E / ref.emax() <= 1 - 1e-3:
        tol = max(tol, 0.6)      # the profile is a square-root function of heat near empty and full
    slug = getattr(ref, 'slug', None)
    for f in FR:
        if slug is not None and abs(f * ref.V - ref.slug_top()) < 1e-5 * ref.V:
            continue            # the step at the top of the slug
        ctx.close(real.get_temperature_at_fraction(f), ref.temp(f), "temperature differs from the tank model", rtol=0, atol=tol, height=f, history=hist)
    for s in supplies:
        ctx.close(real.get_usable_volume_supplyT_gal(s), ref.usable(s), "usable volume differs from the tank model", rtol=0, atol=vtol * ref.V / 100 + 1e-9, supply=s, history=hist)
    if draws:
        for d in draws:
            ctx.close(real.get_average_draw_temp_f(d), ref.avg(d), "average draw temperature differs from the tank model", rtol=0, atol=tol, draw=d, history=hist)
    # the last question asked of a state is the first asked of the next
    real.get_temperature_at_fraction(FR[0])
    if supplies:
        real.get_usable_volume_supplyT_gal(supplies[0])
    if draws:
        real.get_average_draw_temp_f(draws[0])


def profile(real, n):
    return [real.get_temperature_at_fraction(i / n) for i in range(n + 1)]


def heat_content(real, V, cold, n=400):
    """Heat above `cold` measured from the public temperature profile (midpoint rule)."""
    return M.RHO_CP * V * sum(real.get_temperature_at_fraction((i + 0.5) / n) - cold for i in range(n)) / n
