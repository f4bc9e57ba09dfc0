"""Generated numeric tables stored as dataframes, time tables and relative permeability tables are read back from the stored dataset and compared with what was given; text written for relative permeability tables is parsed again; interpolated values are compared with an independent piecewise linear evaluation.

Values are compared exactly as doubles (tables are documented as stored as floats; the row index is not kept). Text is required to read back to nine significant digits."""
import os

import numpy as np
import pandas as pd

import resqpy.model as rq
import resqpy.olio.dataframe as rdf
import resqpy.olio.relperm as rrp
import resqpy.olio.uuid as bu
import resqpy.property as rqp
import resqpy.time_series as rts

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import zoo as Z

NAMES = ['MD', 'Oil rate', 'a', 'b', 'A & <b>', 'Krw', 'é', 'x y z', '0', '1.5', "it's", 'none', 'm', 'Euc']
UOM = ['m', 'm', 'Euc', 'm3/d', 'kPa', '%', 'odd unit', 'a', 'b']
TABLE = st.fixed_dictionaries(dict(rows = st.sampled_from([1, 2, 3, 3, 5, 12]), cols = st.lists(st.integers(0, len(NAMES) - 1), min_size = 1, max_size = 6, unique = True), wide = st.sampled_from([0, 0, 0, 0, 60]), uoms = opt(st.lists(st.integers(0, len(UOM) - 1), min_size = 6, max_size = 6)), title = Z.TITLES, seed = seeds, kind = st.sampled_from(['float', 'float', 'float32', 'int', 'bool', 'mixed']),
                                   nan = st.sampled_from([0.0, 0.0, 0.3]), real = st.sampled_from([None, None, 0, 1, 5]), more = st.lists(st.integers(0, 8), max_size = 3, unique = True), ts = st.booleans(), lookups = st.sampled_from(['no', 'no', 'col', 'both', 'uom']), lookup_title = st.sampled_from(['dataframe columns', 'my names']),
                                   extra = st.dictionaries(Z.PLAIN, Z.TITLES, max_size = 2), same_uom = st.booleans(), index = st.booleans()))


def frame(t, i = 0):
    names = [NAMES[c] for c in t['cols']]
    names += [f'extra {k}' for k in range(t['wide'])]
    rng = np.random.default_rng([t['seed'], i])
    n = t['rows']
    cols = {}
    for j, c in enumerate(names):
        k = t['kind'] if t['kind'] != 'mixed' else ['float', 'int', 'bool', 'float32'][j % 4]
        if k == 'int':
            v = rng.integers(-1000, 1000000, size = n)
        elif k == 'bool':
            v = rng.random(n) < 0.5
        else:
            v = (rng.random(n) - 0.3) * 10.0**rng.integers(-9, 12)
            v[rng.random(n) < t['nan']] = np.nan
            v = v.astype(np.float32 if k == 'float32' else float)
        cols[c] = v
    df = pd.DataFrame(cols, columns = names)
    if t['index']:
        df.index = np.arange(10, 10 + n) * 2
    return df


def same_frame(got, want, what):
    eq(list(got.columns), list(want.columns), f'{what}: columns')
    a, b = np.asarray(got, dtype = float), np.asarray(want, dtype = float)
    ok(a.shape == b.shape and np.array_equal(a, b, equal_nan = True), f'{what}: values {a.reshape(-1)[:4]} of shape {a.shape}, expected {b.reshape(-1)[:4]} of shape {b.shape}')


def series(m, n, seed):
    ts = rts.TimeSeries(m, first_timestamp = '1998-04-01Z', title = 'steps')
    rng = np.random.default_rng(seed)
    for _ in range(n - 1):
        ts.extend_by_days(int(rng.integers(1, 400)))
    ts.create_xml()
    return ts


@st.composite
def tables(draw):
    return draw(st.lists(TABLE, min_size = 1, max_size = 3))


@check('table', tables(), quick = 260, thorough = 10000, shards = 3, rule = 'a table of two or more rows and columns with units, a realization, a time series or shared lookups')
def table(spec, ctx):
    m = ctx.new_model()
    made, used = [], set()
    for i, t in enumerate(spec):
        df = frame(t)
        names = list(df.columns)
        title = t['title'].strip() or 'untitled'
        if title in used:
            title = f'{title} {i}'
        used.add(title)
        uoms = None
        if t['uoms'] is not None:
            uoms = list(names) if t['same_uom'] else [UOM[t['uoms'][j % 6]] for j in range(len(names))]
        kw = {}
        if t['lookups'] in ('col', 'both'):
            s = rqp.StringLookup(m, int_to_str_dict = dict(enumerate(names)), title = t['lookup_title'])
            s.create_xml()
            kw['column_lookup_uuid'] = s.uuid
        if t['lookups'] in ('uom', 'both') and uoms is not None:
            s = rqp.StringLookup(m, int_to_str_dict = dict(enumerate(uoms)), title = t['lookup_title'].replace('columns', 'units'))
            s.create_xml()
            kw['uom_lookup_uuid'] = s.uuid
        ts = series(m, t['rows'], t['seed']) if t['ts'] else None
        before = df.copy()
        if ts is not None:
            x = rdf.TimeTable(m, df = df, uom_list = uoms, realization = t['real'], time_series = ts, title = title, **kw)
        else:
            x = rdf.DataFrame(m, df = df, uom_list = uoms, realization = t['real'], title = title, extra_metadata = t['extra'] or None, **kw)
        same_frame(x.dataframe(), df, 'as given')
        x.write_hdf5_and_create_xml()
        ok(df.equals(before), 'dataframe given was altered')
        u = x.mesh.uuid
        reals = {t['real']: df}
        for k, r in enumerate(t['more']):
            if r in reals or t['real'] is None:
                continue
            d2 = frame(t, k + 1)
            y = rdf.DataFrame(m, uuid = u, df = d2, realization = r)
            same_frame(y.dataframe(), d2, 'further realization as given')
            y.write_hdf5_and_create_xml()
            reals[r] = d2
        made.append((t, u, title, uoms, ts, reals))
        if len(df) > 1 and len(names) > 1 and (uoms or t['real'] is not None or ts is not None or kw):
            ctx.nontrivial()
    for when in ('before storing', 'after reopening'):
        if when == 'after reopening':
            m.store_epc(quiet = True)
            m = ctx.reopen(m)
        parts = lambda l: sorted(m.part_for_uuid(u) for u in l)
        eq(sorted(rdf.dataframe_parts_in_model(m)), parts([x[1] for x in made]), f'{when}: parts of dataframes')
        eq(sorted(rdf.timetable_parts_in_model(m)), parts([x[1] for x in made if x[4] is not None]), f'{when}: parts of time tables')
        eq(sorted(rdf.dataframe_parts_in_model(m, timetables = False)), parts([x[1] for x in made if x[4] is None]), f'{when}: parts of plain dataframes')
        for t, u, title, uoms, ts, reals in made:
            eq(rdf.dataframe_parts_in_model(m, title = title), parts([u]), f'{when}: parts with title')
            for r, df in reals.items():
                what = f'{when}: realization {r}'
                ways = [rdf.DataFrame(m, uuid = u, realization = r), rdf.dataframe_for_title(m, title, realization = r)]
                if len(reals) == 1:
                    ways.append(rdf.DataFrame(m, uuid = u))
                if ts is not None:
                    ways += [rdf.TimeTable(m, uuid = u, realization = r), rdf.timetable_for_title(m, title, realization = r)]
                for x in ways:
                    same_frame(x.dataframe(), df, what)
                    eq((x.n_rows, x.n_cols), df.shape, f'{what}: rows and columns')
                    eq(x.title, title, f'{what}: title')
                    eq(x.uom_list, uoms, f'{what}: units')
                    for j in range(df.shape[1]):
                        eq(x.column_uom(j), 'Euc' if uoms is None else uoms[j], f'{what}: unit of column {j}')
                    if isinstance(x, rdf.TimeTable):
                        y = x.time_series()
                        eq([y.timestamp(k) for k in range(y.number_of_timestamps())], [ts.timestamp(k) for k in range(t['rows'])], f'{what}: time series')
                    elif ts is None:
                        em = dict(x.extra_metadata)
                        eq(em.pop('dataframe'), 'true', f'{what}: marked as dataframe')
                        eq(em, {k.strip(): v.strip() for k, v in t['extra'].items()}, f'{what}: extra metadata')
            if len(reals) == 1 and None not in reals:
                ok(raises(lambda: rdf.DataFrame(m, uuid = u, realization = 77)), 'absent realization accepted')


# ----------------------------------------------------------------------------------------------------------------------

COMBOS = {'water-oil': ('Krw', 'Kro', ['Sw', 'So']), 'gas-oil': ('Krg', 'Kro', ['Sg', 'So']), 'gas-water': ('Krg', 'Krw', ['Sg', 'Sw'])}
RP = st.fixed_dictionaries(dict(combo = st.sampled_from(sorted(COMBOS)), other_sat = st.booleans(), given = st.sampled_from(['as is', 'swapped', 'none', 'spaced']), rows = st.sampled_from([2, 3, 5, 9, 30]), seed = seeds, pc = st.sampled_from(['no', 'full', 'full', 'gaps', 'ends', 'all missing']), pc_down = st.booleans(), reverse = st.booleans(), case = st.sampled_from(['as is', 'upper', 'lower']),
                                digits = st.sampled_from([2, 4, 8, 16]), low_sal = st.booleans(), index = st.sampled_from([None, 1, 2, 7]), swap = st.booleans(), uoms = st.booleans(), real = st.sampled_from([None, None, 0, 3]), tiny = st.booleans(), flat = st.booleans()))


def rp_frame(t):
    """An admissible table; columns, values and the saturation column."""
    a, b, sats = COMBOS[t['combo']]
    sat = sats[int(t['other_sat'])]
    n = t['rows']
    rng = np.random.default_rng(t['seed'])
    s = np.unique(np.round(rng.random(n * 3), max(3, t['digits'])))
    s = np.sort(rng.choice(s, size = min(n, len(s)), replace = False))
    n = len(s)
    up, down = np.sort(np.round(rng.random(n), t['digits'])), np.sort(np.round(rng.random(n), t['digits']))[::-1]
    if t['tiny']:
        up[0], down[-1] = 1.23456e-7, 3.1e-12
        up, down = np.sort(up), np.sort(down)[::-1]
    if t['flat']:
        up[0], down[-1] = 0.0, 0.0
        up[-1], down[0] = 1.0, 1.0
        up, down = np.sort(up), np.sort(down)[::-1]
    mine, opp = ('Kr' + sat[-1], a if b == 'Kr' + sat[-1] else b)
    cols = {sat: s, mine: up, opp: down}
    order = [sat, opp, mine] if t['swap'] else [sat, mine, opp]
    if t['pc'] != 'no':
        p = np.sort(np.round((rng.random(n) - 0.3) * 100.0**rng.integers(-3, 3), t['digits']))
        if t['pc_down']:
            p = p[::-1]
        p = p.copy()
        if t['pc'] == 'gaps':
            p[rng.random(n) < 0.5] = np.nan
        elif t['pc'] == 'ends':
            p[1:-1] = np.nan
        elif t['pc'] == 'all missing':
            p[:] = np.nan
        cols['Pc'] = p
        order.append('Pc')
    df = pd.DataFrame(cols)[order]
    if t['reverse']:
        df = df.iloc[::-1].reset_index(drop = True)
    return df, sat


@check('relperm', st.fixed_dictionaries(dict(tables = st.lists(RP, min_size = 1, max_size = 3), at = st.lists(st.floats(0.0, 1.0, allow_nan = False), max_size = 6))), quick = 260, thorough = 10000, shards = 3, rule = 'a table of three or more rows with a capillary pressure column')
def relperm(spec, ctx):
    m = ctx.new_model()
    made = []
    for i, t in enumerate(spec['tables']):
        df, sat = rp_frame(t)
        given = df.copy()
        given.columns = [c if t['case'] == 'as is' else c.upper() if t['case'] == 'upper' else c.lower() for c in df.columns]
        combo = {'as is': t['combo'], 'swapped': '-'.join(t['combo'].split('-')[::-1]), 'none': None, 'spaced': ' - '.join(t['combo'].split('-'))}[t['given']]
        low = t['low_sal'] and t['combo'] == 'water-oil'
        uoms = ['m3/m3', 'Euc', 'Euc', 'kPa'][:len(df.columns)] if t['uoms'] else None
        x = rrp.RelPerm(m, df = given, uom_list = uoms, realization = t['real'], phase_combo = combo, low_sal = low, table_index = t['index'], title = f'table {i}')
        x.write_hdf5_and_create_xml()
        made.append((t, x.mesh.uuid, df, combo, low, uoms, sat))
        if len(df) > 2 and t['pc'] != 'no':
            ctx.nontrivial()
        ctx.label(t['combo'])
        ctx.label('pc ' + t['pc'])
    for when in ('before storing', 'after reopening'):
        if when == 'after reopening':
            m.store_epc(quiet = True)
            m = ctx.reopen(m)
        eq(sorted(rrp.relperm_parts_in_model(m)), sorted(m.part_for_uuid(x[1]) for x in made), f'{when}: parts')
        for flag in (True, False):
            eq(sorted(rrp.relperm_parts_in_model(m, low_sal = flag)), sorted(m.part_for_uuid(x[1]) for x in made if x[4] == flag), f'{when}: parts with low salinity {flag}')
        for i, x in enumerate(made):
            eq(rrp.relperm_parts_in_model(m, title = f'table {i}'), [m.part_for_uuid(x[1])], f'{when}: parts with title')
            eq(sorted(rrp.relperm_parts_in_model(m, related_uuid = x[1])), sorted(p for p in rrp.relperm_parts_in_model(m) if p in m.parts(related_uuid = x[1])), f'{when}: parts related to a table')
        for k in (1, 2, 7):
            eq(sorted(rrp.relperm_parts_in_model(m, table_index = k)), sorted(m.part_for_uuid(x[1]) for x in made if x[0]['index'] == k), f'{when}: parts with table index')
        path = ctx.tmp
        name = f'tables_{when[:3]}'
        for i, (t, u, df, combo, low, uoms, sat) in enumerate(made):
            x = rrp.RelPerm(m, uuid = u, realization = t['real'])
            what = f'{when}: {t["combo"]}'
            same_frame(x.dataframe(), df, what)
            eq(x.title, f'table {i}', f'{what}: title')
            eq(x.uom_list, uoms, f'{what}: units')
            eq(x.phase_combo, t['combo'] if combo is None else combo, f'{what}: phases')
            eq(str(x.low_sal).lower(), str(low).lower(), f'{what}: low salinity')
            eq(str(x.table_index), str(t['index']), f'{what}: table index')
            # interpolation
            s = np.asarray(df[sat], dtype = float)
            for c in df.columns[1:]:
                good = ~np.isnan(np.asarray(df[c]))
                xs, ys = s[good], np.asarray(df[c], dtype = float)[good]
                o = np.argsort(xs)
                xs, ys = xs[o], ys[o]
                if len(xs) == 0:
                    continue
                for cc in (c, c.lower(), c.upper()):
                    for a, b in zip(xs, ys):
                        eq(tuple(map(float, x.interpolate_point(a, cc))), (a, b), f'{what}: {cc} at a node')
                for f in spec['at']:
                    v = xs[0] + f * (xs[-1] - xs[0])
                    v = min(max(v, xs[0]), xs[-1])
                    k = min(max(int(np.searchsorted(xs, v, side = 'right')) - 1, 0), len(xs) - 2) if len(xs) > 1 else 0
                    e = ys[0] if len(xs) == 1 else ys[k] + (v - xs[k]) / (xs[k + 1] - xs[k]) * (ys[k + 1] - ys[k])
                    g = x.interpolate_point(v, c)
                    eq(float(g[0]), float(v), f'{what}: saturation returned')
                    scale = np.abs(ys).max() + 1e-300
                    ok(abs(g[1] - e) <= 1e-9 * scale, f'{what}: {c} at {v}: {g[1]}, expected {e}')
                ok(raises(lambda: x.interpolate_point(xs[0] - 0.1, c), ValueError), f'{what}: interpolation accepted')
                ok(raises(lambda: x.interpolate_point(xs[-1] + 0.1, c), ValueError), f'{what}: interpolation accepted')
            ok(raises(lambda: x.interpolate_point(0.5, sat), ValueError), f'{what}: interpolation accepted')
            x.df_to_text(path, name)
            d = rrp.text_to_relperm_dict(os.path.join(path, name + '.dat'))
            eq(len(d), i + 1, f'{what}: tables in text')
            with open(os.path.join(path, name + '.dat')) as f:
                text = f.read()
            eq(text.count('LOW_SAL'), sum(y[4] for y in made[:i + 1]), f'{what}: low salinity tables in text')
            d2 = rrp.text_to_relperm_dict(text, is_file = False)
            for dd in (d, d2):
                for j, y in enumerate(made[:i + 1]):
                    e = dd[f'relperm_table{j + 1}']
                    eq(e['phase_combo'], y[0]['combo'], f'{what}: phases from text')
                    got, want = e['df'], y[2]
                    eq(list(got.columns), list(want.columns), f'{what}: columns from text')
                    a, b = np.asarray(got, dtype = float), np.asarray(want, dtype = float)
                    ok(a.shape == b.shape and np.allclose(a, b, rtol = 1e-9, atol = 0.0, equal_nan = True), f'{what}: text read back as {a.tolist()[:3]}, expected {b.tolist()[:3]}')


FLAWS = ['sat high', 'sat low', 'kr high', 'kr low', 'opp high', 'sat order', 'kr order', 'opp order', 'pc order', 'missing sat', 'missing kr', 'missing opp', 'pc place', 'column', 'two sats', 'phases', 'index', 'text']


@check('relperm refusal', st.fixed_dictionaries(dict(t = RP, flaw = st.sampled_from(FLAWS), at = st.integers(0, 100))), quick = 220, thorough = 6000, shards = 2, rule = 'a table of three or more rows with one flaw, all else admissible')
def relperm_refusal(spec, ctx):
    """A table with exactly one flaw is refused; the same table without it is accepted."""
    t = dict(spec['t'], rows = max(3, spec['t']['rows']), tiny = False, flat = False)
    df, sat = rp_frame(t)
    n = len(df)
    if n < 3:
        return
    mine = 'Kr' + sat[-1]
    opp = [c for c in df.columns if c.startswith('Kr') and c != mine][0]
    combo, index = t['combo'], t['index']
    m = ctx.new_model()
    rrp.RelPerm(m, df = df.copy(), phase_combo = combo, table_index = index, title = 'good')
    top, bottom = (0, n - 1) if t['reverse'] else (n - 1, 0)  # rows of greatest and least saturation
    bad, flaw = df.copy(), spec['flaw']
    col = lambda c: bad.columns.get_loc(c)
    k = spec['at'] % n
    if flaw == 'sat high':
        bad.iloc[top, col(sat)] = 1.0 + 0.001
    elif flaw == 'sat low':
        bad.iloc[bottom, col(sat)] = -0.001
    elif flaw == 'kr high':
        bad.iloc[top, col(mine)] = 1.001
    elif flaw == 'kr low':
        bad.iloc[bottom, col(mine)] = -0.001
    elif flaw == 'opp high':
        bad.iloc[bottom, col(opp)] = 1.5
    elif flaw in ('sat order', 'kr order', 'opp order', 'pc order'):
        c = {'sat order': sat, 'kr order': mine, 'opp order': opp, 'pc order': 'Pc'}[flaw]
        if c == 'Pc' and 'Pc' not in bad.columns:
            return
        # one interior row outside the range of its neighbours
        v = np.asarray(bad[c], dtype = float)
        good = np.flatnonzero(~np.isnan(v))
        if len(good) < 3:
            return
        j = 1 + spec['at'] % (len(good) - 2)
        a, b = v[good[j - 1]], v[good[j + 1]]
        lo, hi = min(a, b), max(a, b)
        if c == 'Pc':
            new = hi + 1.0
        else:
            new = (hi + 1.0) / 2 if hi < 0.999 else lo / 2
        if len(set(v[good])) < 3 or not (new > hi + 1e-6 or new < lo - 1e-6):
            return
        bad.iloc[good[j], col(c)] = new
    elif flaw in ('missing sat', 'missing kr', 'missing opp'):
        bad.iloc[k, col({'missing sat': sat, 'missing kr': mine, 'missing opp': opp}[flaw])] = np.nan
    elif flaw == 'pc place':
        if 'Pc' not in bad.columns:
            return
        bad = bad[[c for c in ([sat, 'Pc'] + list(bad.columns)) if c][:2] + [c for c in bad.columns if c not in (sat, 'Pc')]]
    elif flaw == 'column':
        bad = bad.rename(columns = {opp: [c for c in ('Krw', 'Krg', 'Kro') if c not in bad.columns][0]})
    elif flaw == 'two sats':
        other = [s for s in COMBOS[combo][2] if s != sat][0]
        bad.insert(1, other, 1.0 - np.asarray(bad[sat]))
    elif flaw == 'phases':
        combo = ['water-oil-gas', 'oil-oil', 'water', 'brine-oil', ''][spec['at'] % 5]
    elif flaw == 'index':
        index = -(spec['at'] % 3)
    elif flaw == 'text':
        bad = bad.astype(object)
        bad.iloc[k, col([sat, mine, opp][spec['at'] % 3])] = 'None'
    if flaw == 'column' and combo is None:
        return
    ctx.nontrivial()
    ctx.label(flaw)
    before = sorted(map(str, m.uuids()))
    try:
        rrp.RelPerm(m, df = bad.copy(), phase_combo = combo, table_index = index, title = 'bad')
    except Exception:
        pass
    else:
        fail(f'{flaw}: inadmissible table accepted')
    eq(sorted(map(str, m.uuids())), before, f'{flaw}: parts after the refusal')
