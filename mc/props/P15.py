"""Utility tariff calendar: every hour of the year must fall in exactly one period with the rates
of its season, for every peak window, discount window and season split; CSV export/import keeps it."""
import io, os, tempfile
from itertools import product, combinations
from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker as U
from ..core import close

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
MONTH_OF_HOUR = [m for m, n in enumerate(DAYS) for _ in range(24 * n)]
BOUNDS = dict(peak_windows="all 0<=start<=end<=24 (start<=23)", discount_windows="every start/end incl. wrap past midnight, in a cover of peak windows",
              seasons="every partition of the year into 1 or 2 blocks, 3-block partitions, the 12-block one",
              steps="first and last step of every hour of the year at 1..60-minute steps")
ASSUMPTIONS = ["non-leap year; step lengths divide an hour"]
IVS = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


def spec_of(seasons, discount):
    """seasons: list of (start_month, end_month, pk_start, pk_end, dc_start, dc_end)"""
    kw = dict(monthly_base_charge=100.0 + len(seasons), pk_start_hour=[s[2] for s in seasons], pk_end_hour=[s[3] for s in seasons],
              pk_demand_charge=[30.0 + i for i in range(len(seasons))], pk_energy_charge=[0.30 + i / 100 for i in range(len(seasons))],
              off_pk_demand_charge=[10.0 + i for i in range(len(seasons))], off_pk_energy_charge=[0.10 + i / 100 for i in range(len(seasons))],
              start_month=[s[0] for s in seasons], end_month=[s[1] for s in seasons])
    if discount:
        kw.update(include_discount=True, dscnt_start_hour=[s[4] for s in seasons], dscnt_end_hour=[s[5] for s in seasons],
                  discnt_demand_charge=[3.0 + i for i in range(len(seasons))], discnt_energy_charge=[0.03 + i / 100 for i in range(len(seasons))])
    return kw


def kind_at(s, hod, discount):
    if s[2] <= hod < s[3]:
        return 1
    if discount and None not in s[4:6] and (s[4] <= hod < s[5] if s[4] <= s[5] else (hod >= s[4] or hod < s[5])):
        return 2
    return 0


def expected(seasons, discount):
    """for every hour: (month, kind, energy, demand)"""
    out = []
    for h in range(8760):
        m = MONTH_OF_HOUR[h]
        i = next(i for i, s in enumerate(seasons) if s[0] <= m < s[1])
        k = kind_at(seasons[i], h % 24, discount)
        out.append((m, k, (0.10, 0.30, 0.03)[k] + i / 100, (10.0, 30.0, 3.0)[k] + i))
    return out


def judge(ctx, u, exp, ivs, **d):
    ctx.states += 1
    key = {}
    for h in range(8760):
        m, k, e, dm = exp[h]
        p = u.get_demand_period_at_step(h, 60)
        key.setdefault((m, k), p)
        if key[(m, k)] != p:
            ctx.fail("hours of one month and period type carry different period keys", hour=h, **d)
        if not close(u.get_energy_charge_at_step(h, 60), e, 1e-12, 1e-12):
            ctx.fail("energy rate at an hour", hour=h, month=m, kind=k, got=u.get_energy_charge_at_step(h, 60), want=e, **d)
        if not close(u.get_demand_charge_for_period(p, 2.5), 2.5 * dm, 1e-12, 1e-12):
            ctx.fail("demand rate at an hour", hour=h, got=u.get_demand_charge_for_period(p, 2.5), want=2.5 * dm, **d)
        if bool(u.is_peak_map[p]) != (k == 1) or bool(u.is_discount_map[p]) != (k == 2):
            ctx.fail("period label at an hour", hour=h, kind=k, **d)
        for iv in ivs:
            per = 60 // iv
            for s in (h * per, h * per + per - 1):
                ctx.transitions += 1
                if u.get_demand_period_at_step(s, iv) != p or not close(u.get_energy_charge_at_step(s, iv), e, 1e-12, 1e-12):
                    ctx.fail("rate at a step differs from its hour", step=s, interval_min=iv, hour=h, **d)
        ctx.transitions += 1
    ctx.judgements += 8760 * (3 + len(ivs))
    ctx.check(len(set(key.values())) == len(key), "different month/period types share one period key", keys=sorted(key.items()), **d)
    ctx.check(set(key.values()) <= set(u.get_all_demand_period_keys()), "a used period is not listed", **d)
    ctx.close(u.get_yearly_base_charge(), 12 * u.monthly_base_charge, "yearly base charge", **d)
    ctx.outcome(sorted((k, p) for k, p in key.items())[:20])


def cases(tier):
    for a in range(24):
        yield "peak_window", dict(a=a)
    for a in range(0, 25, 1 if tier == "thorough" else 2):
        yield "discount_window", dict(a=a)
    for cut in range(1, 12):
        yield "season2", dict(cut=cut)
    for cuts in combinations(range(1, 12), 2):
        if tier == "thorough" or (cuts[0] + 2 * cuts[1]) % 3 == 0:
            yield "season_n", dict(cuts=list(cuts))
    yield "season_n", dict(cuts=list(range(1, 12)))
    yield "season_n", dict(cuts=[1, 2, 11])
    for i in range(6):
        yield "csv", dict(i=i)
    for i in range(4):
        yield "csv_hourly", dict(i=i)
    yield "steps", {}
    yield "scalars", {}
    yield "reuse", {}
    yield "invalid", {}
    yield "invalid_csv", {}


def sub_peak_window(ctx, a):
    for b in range(a, 25):
        s = [(0, 12, a, b, None, None)]
        u = U.from_params(**spec_of(s, False))
        judge(ctx, u, expected(s, False), [1] if b == a + 3 else [], a=a, b=b)


def sub_discount_window(ctx, a):
    for c, d in ((16, 21), (0, 24), (9, 9), (20, 24), (0, 6)):
        for b in range(0, 25, 3 if a % 3 else 1):
            if a == b or a > 23:
                continue
            s = [(0, 12, c, d, a, b)]
            u = U.from_params(**spec_of(s, True))
            judge(ctx, u, expected(s, True), [], peak=[c, d], disc=[a, b])


def sub_season2(ctx, cut):
    for w1, w2 in (((22, 5), (None, None)), ((None, None), (22, 5)), ((None, 5), (22, None)), ((None, None), (None, None)), ((6, 6), (0, 24))):
        s = [(0, cut, 16, 21, *w1), (cut, 12, 7, 10, *w2)]     # a season may have no discount hours
        judge(ctx, U.from_params(**spec_of(s, True)), expected(s, True), [], cut=cut, disc=[w1, w2])
    for disc in (False, True):
        for w1, w2 in (((16, 21), (7, 10)), ((0, 24), (12, 12)), ((23, 24), (0, 1))):
            s = [(0, cut, *w1, 22, 5), (cut, 12, *w2, 0, 6)]
            u = U.from_params(**spec_of(s, disc))
            judge(ctx, u, expected(s, disc), [10], cut=cut, disc=disc, w=[w1, w2])


def sub_season_n(ctx, cuts):
    e = [0] + cuts + [12]
    s = [(x, y, (5 * i) % 20, (5 * i) % 20 + 3 + i % 3, (21 + i) % 24, (3 + i) % 24) for i, (x, y) in enumerate(zip(e, e[1:]))]
    for disc in (False, True):
        u = U.from_params(**spec_of(s, disc))
        judge(ctx, u, expected(s, disc), [], cuts=cuts, disc=disc)


def sub_steps(ctx):
    s = [(0, 5, 16, 21, 0, 6), (5, 12, 9, 13, 22, 4)]
    for disc in (False, True):
        u = U.from_params(**spec_of(s, disc))
        judge(ctx, u, expected(s, disc), IVS, disc=disc)


def sub_scalars(ctx):
    for disc in (False, True):
        s = [(0, 12, 16, 21, 0, 6)]
        kw = {k: (v[0] if isinstance(v, list) else v) for k, v in spec_of(s, disc).items()}
        judge(ctx, U.from_params(**kw), expected(s, disc), [], scalars=True)
        for k in ("start_month", "end_month"):
            kw.pop(k)
        judge(ctx, U.from_params(**kw), expected(s, disc), [], defaults=True)
    s = [(0, 4, 16, 21, 1, 6), (4, 12, 10, 14, 1, 6)]     # scalar discount applies to every season
    kw = spec_of(s, True)
    kw.update(dscnt_start_hour=1, dscnt_end_hour=6, discnt_demand_charge=3.0, discnt_energy_charge=0.03)
    exp = [(m, k, 0.03, 3.0) if k == 2 else (m, k, e, d) for m, k, e, d in expected(s, True)]
    judge(ctx, U.from_params(**kw), exp, [], scalar_discount=True)


def csv_trip(u):
    fd, p = tempfile.mkstemp(suffix=".csv", dir=os.environ.get("MC_SCRATCH"))
    os.close(fd)
    try:
        u.to_csv(p)
        text = open(p).read()
        v = U.from_csv(csv_path=p)
        with open(p, newline="") as f:
            w = U.from_csv(csv_file=f)
        return text, v, w
    finally:
        os.unlink(p)


def same(ctx, a, b, **d):
    for h in range(8760):
        ctx.transitions += 1
        pa, pb = a.get_demand_period_at_step(h, 60), b.get_demand_period_at_step(h, 60)
        if pa != pb:
            ctx.fail("export/import changed the period of an hour", hour=h, **d)
        if not close(a.get_energy_charge_at_step(h, 60), b.get_energy_charge_at_step(h, 60), 1e-12, 1e-12):
            ctx.fail("export/import changed the energy rate of an hour", hour=h, got=b.get_energy_charge_at_step(h, 60), want=a.get_energy_charge_at_step(h, 60), **d)
        if not close(a.get_demand_charge_for_period(pa, 1.5), b.get_demand_charge_for_period(pb, 1.5), 1e-12, 1e-12):
            ctx.fail("export/import changed the demand rate of an hour", hour=h, **d)
    ctx.judgements += 8760
    ctx.close(a.get_yearly_base_charge(), b.get_yearly_base_charge(), "export/import changed the base charge", **d)


def sub_csv(ctx, i):
    s = [[(0, 12, 16, 21, 0, 6)], [(0, 12, 0, 24, 0, 6)], [(0, 12, 5, 5, 22, 4)], [(0, 3, 7, 9, 22, 4), (3, 12, 16, 21, 0, 5)],
         [(0, 5, 0, 1, 1, 2), (5, 9, 23, 24, 20, 23), (9, 12, 12, 18, 22, 6)], [(m, m + 1, m, m + 4, 20, 2) for m in range(12)]][i]
    for disc in (False, True):
        u = U.from_params(**spec_of(s, disc))
        text, v, w = csv_trip(u)
        ctx.states += 1
        ctx.check(text.count("\n") == 8761, "export does not have one row per hour", rows=text.count("\n"))
        same(ctx, u, v, i=i, disc=disc)
        same(ctx, u, w, i=i, disc=disc, via="file")
        if not disc:
            judge(ctx, v, expected(s, False), [10], i=i, imported=True)
        text2, v2, _ = csv_trip(v)
        same(ctx, v, v2, i=i, disc=disc, again=True)
        lines = text.splitlines()[1:]
        months = "January February March April May June July August September October November December".split()
        h = 0
        for m, n in enumerate(DAYS):
            for dd in range(1, n + 1):
                for hh in range(24):
                    if months[m] not in lines[h] or f"{dd}, {hh:02d}:00" not in lines[h]:
                        ctx.fail("exported row carries the wrong date", hour=h, row=lines[h])
                    h += 1


def sub_csv_hourly(ctx, i):
    """a tariff whose energy price varies hour by hour inside one demand period"""
    hdr = "Date,Demand Period,Energy Rate ($/kWh),Demand Rate ($/kW),Monthly Base Charge"
    rows, rate = [hdr], []
    seen = set()
    for h in range(8760):
        m, hod = MONTH_OF_HOUR[h], h % 24
        p = 2 * m + (1 if 16 <= hod < 21 else 0)
        e = 0.05 + (hod * (i + 1) % 7) / 100 + (h % 3) / 1000
        if i % 2:
            e = {2: 0.0, 3: -0.01}.get(h % 5, e)       # free and negative-price hours
        blank = i == 1 and p in seen and h % 2
        rows.append(f"x,{p},{'' if blank else e},{5.0 + p if (p not in seen or i == 2) else ''},{42.0 if h == 0 else ''}")
        rate.append([e, blank, p])
        seen.add(p)
    first = {}
    for e, bl, p in rate:
        first.setdefault(p, e)
    fd, path = tempfile.mkstemp(suffix=".csv", dir=os.environ.get("MC_SCRATCH"))
    os.close(fd)
    try:
        with open(path, "w") as f:
            f.write("\n".join(rows) + "\n")
        u = U.from_csv(csv_path=path)
    finally:
        os.unlink(path)
    ctx.states += 1
    for h, (e, bl, p) in enumerate(rate):
        w = first[p] if bl else e
        for iv in (60, 10):
            s = (h + 1) * (60 // iv) - 1
            ctx.transitions += 1
            if not close(u.get_energy_charge_at_step(s, iv), w, 1e-12, 1e-12) or u.get_demand_period_at_step(s, iv) != p:
                ctx.fail("imported rate at an hour", hour=h, got=u.get_energy_charge_at_step(s, iv), want=w)
        if not close(u.get_demand_charge_for_period(p, 3.0), 3 * (5.0 + p)):
            ctx.fail("imported demand rate", hour=h)
    ctx.judgements += 3 * 8760
    ctx.close(u.get_yearly_base_charge(), 12 * 42.0, "imported base charge")
    ctx.outcome(i, rate[:30])
    _, v, _ = csv_trip(u)
    same(ctx, u, v, hourly=i)


def sub_invalid(ctx):
    base = spec_of([(0, 12, 16, 21, None, None)], False)
    two = spec_of([(0, 4, 16, 21, None, None), (4, 12, 10, 14, None, None)], False)

    def bad(kw, **ch):
        ctx.states += 1; ctx.transitions += 1
        k = dict(kw); k.update(ch)
        try:
            U.from_params(**k)
        except ValueError:
            ctx.judgements += 1
            ctx.outcome(sorted(ch.items(), key=str))
            return
        ctx.fail("unusable tariff accepted", changed=ch)

    for v in (-1, 24, 25, None, "16"):
        bad(base, pk_start_hour=[v])
    for a in range(0, 24):
        for b in range(0, 26):
            if b < a or b > 24:
                bad(base, pk_start_hour=[a], pk_end_hour=[b])
    for k in ("pk_demand_charge", "pk_energy_charge", "off_pk_demand_charge", "off_pk_energy_charge"):
        for v in (None, "1", [1.0]):
            bad(base, **{k: [v]})
        bad(base, **{k: [1.0, 2.0]})
        bad(two, **{k: [1.0]})
        for pos in (0, 1):
            bad(two, **{k: [None if i == pos else 1.0 for i in range(2)]})
    bad(base, monthly_base_charge=None)
    bad(base, monthly_base_charge="5")
    for a, b, c, d in product(range(0, 5), range(0, 14), range(0, 14), (11, 12, 13)):
        ok = a == 0 and b == c and a < b < d and d == 12
        if not ok:
            bad(two, start_month=[a, c], end_month=[b, d])
    for v in ("0", 0.5, None):
        bad(base, start_month=[v]); bad(base, end_month=[v])
    done, dtwo = spec_of([(0, 12, 16, 21, 0, 6)], True), spec_of([(0, 4, 16, 21, 0, 6), (4, 12, 10, 14, 22, 5)], True)
    for k in ("discnt_demand_charge", "discnt_energy_charge"):
        for v in (None, "1", [1.0]):
            bad(done, **{k: [v]})
            for pos in (0, 1):
                bad(dtwo, **{k: [v if i == pos else 1.0 for i in range(2)]})
        bad(done, **{k: None})
        bad(dtwo, **{k: None})
        bad(dtwo, **{k: [1.0]})
        bad(done, **{k: [1.0, 2.0]})
    for k in ("dscnt_start_hour", "dscnt_end_hour"):
        for v in (-1, 25, 48, "6"):
            bad(done, **{k: [v]})
            for pos in (0, 1):
                bad(dtwo, **{k: [v if i == pos else 3 for i in range(2)]})
        bad(dtwo, **{k: [3]})
        bad(done, **{k: [3, 4]})


def sub_invalid_csv(ctx):
    """every way one cell, one column or one row can be wrong, at the rows where it could be overlooked"""
    cols = ["Date", "Demand Period", "Energy Rate ($/kWh)", "Demand Rate ($/kW)", "Monthly Base Charge"]
    good, seen, firsts = [], set(), []
    for h in range(8760):
        m, hod = MONTH_OF_HOUR[h], h % 24
        p = 2 * m + (1 if 16 <= hod < 21 else 0)
        if p not in seen:
            firsts.append(h)
        good.append(["x", str(p), "0.1" if p not in seen else "", "5.5" if p not in seen else "", "42" if h == 0 else ""])
        seen.add(p)

    def load(rows, header=cols):
        ctx.states += 1; ctx.transitions += 1
        return U.from_csv(csv_file=io.StringIO("\n".join(",".join(r) for r in [header] + rows) + "\n"))

    def bad(what, rows, header=cols, **d):
        try:
            load(rows, header)
        except ValueError:
            ctx.judgements += 1
            ctx.outcome(what, sorted(d.items()))
            return
        ctx.fail("unusable tariff file accepted", what=what, **d)

    def cell(h, c, v):
        rows = list(good)
        rows[h] = list(rows[h]); rows[h][c] = v
        return rows

    u = load(good)
    ctx.close(u.get_yearly_base_charge(), 504.0, "imported base charge")
    for k in range(-1, 26):
        ctx.transitions += 1
        if 0 <= k < 24:
            ctx.close(u.get_demand_charge_for_period(k, 2.0), 11.0, "imported demand rate", period=k)
        else:
            try:
                u.get_demand_charge_for_period(k, 2.0)
            except ValueError:
                ctx.judgements += 1
            else:
                ctx.fail("a demand period the tariff does not have was priced", period=k)
    try:
        U.from_csv()
    except ValueError:
        ctx.judgements += 1
    else:
        ctx.fail("a tariff was read from nothing")
    for n in (0, 1, 24, 8759):
        bad("too few rows", good[:n], n=n)
    for n in (1, 24):
        bad("too many rows", good + [list(good[-1]) for _ in range(n)], n=n)
    for c in cols[1:]:
        i = cols.index(c)
        bad("column missing", [r[:i] + r[i + 1:] for r in good], cols[:i] + cols[i + 1:], column=c)
        bad("column misnamed", good, [x + "?" if x == c else x for x in cols], column=c)
        order = [i] + [j for j in range(5) if j != i]         # columns may come in any order
        v = load([[r[j] for j in order] for r in good], [cols[j] for j in order])
        for h in range(8760):
            ctx.transitions += 1
            if v.get_demand_period_at_step(h, 60) != int(good[h][1]) or not close(v.get_energy_charge_at_step(h, 60), 0.1):
                ctx.fail("tariff read from the wrong column", hour=h, first=c)
        ctx.judgements += 8760
    for v in ("", "x", "$5"):
        bad("base charge unreadable", cell(0, 4, v), value=v)
    bad("base charge unreadable", [good[0][:4]] + good[1:], value="short row")
    later = [1, 23, 743, 744, 4379, 8015, 8016, 8758, 8759]
    for h in sorted(set(firsts) | set(later) | {0}):
        for v in ("", "x", "1.5x", "peak"):
            bad("period unreadable", cell(h, 1, v), row=h, value=v)
        bad("period unreadable", good[:h] + [good[h][:1]] + good[h + 1:], row=h, value="short row")
        bad("energy rate unreadable", cell(h, 2, "x"), row=h)
    for h in firsts:
        for v in ("", "x"):
            bad("first rate of a period missing", cell(h, 2, v), row=h, value=v)
            bad("first demand rate of a period missing", cell(h, 3, v), row=h, value=v)
        bad("first row of a period too short", good[:h] + [good[h][:2]] + good[h + 1:], row=h)


def sub_reuse(ctx):
    """The lists a tariff is made from can be used again: they are left alone, and changing them later changes nothing."""
    import copy
    years = ([(0, 4, 16, 21, 9, 14), (4, 9, 7, 10, 23, 5), (9, 12, 0, 6, 6, 24)], [(0, 12, 16, 21, 9, 14)],
             [(0, 1, 0, 24, 0, 0), (1, 11, 5, 6, 22, 24), (11, 12, 12, 12, 1, 23)])
    for disc in (False, True):
        for blocks in years:
            kw = spec_of(blocks, disc)
            keep = copy.deepcopy(kw)
            exp = expected(blocks, disc)
            us = []
            for n in range(2):
                us.append(U.from_params(**kw))
                ctx.check(kw == keep, "building a tariff changed the lists it was given", blocks=blocks, disc=disc)
            for v in kw.values():
                if isinstance(v, list):
                    v.reverse()
                    v[0] = 3
            for u in us:
                judge(ctx, u, exp, [], blocks=blocks, disc=disc)
