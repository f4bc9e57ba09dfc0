"""Random ensembles of small case models with shared, equivalent and differing parts, gathered with every combination of options, each case then compared part by part and array by array with the stored composite.

The oracle reads the case models and the composite independently: each part of a case must be in the composite with equal xml (references redirected only to parts of equal content, or to the grid of equal extent and time series of equal title where sharing is asked for) and equal arrays, each property with the realization of its case; no property is lost, merged or repeated."""
import os

import numpy as np

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.time_series as rts
import resqpy.property as rqp
import resqpy.derived_model as rqdm

from pbt.core import *
from pbt.lib import zoo as Z
from pbt.lib.hist import *
from pbt.lib.gen import *
from pbt.lib.copying import *

EXTENTS = [[1, 1, 2], [2, 1, 2], [1, 3, 2], [2, 2, 2]]
GRID = st.fixed_dictionaries(dict(ext = st.integers(0, 3), title = st.sampled_from(['main', 'A', 'b']), k = st.integers(0, 2)))
PROP = st.fixed_dictionaries(dict(grid = st.integers(0, 2), kind = st.sampled_from(['cont', 'cont', 'disc', 'cat', 'local', 'ts', 'ts', 'tscat', 'points']), title = st.sampled_from(['p', 'q', 'r s', 'é<']), seed = seeds, pre = st.sampled_from([None, None, 0, 5]), ts = st.integers(0, 1), ti = st.integers(0, 1), const = st.booleans()))
CASE = st.fixed_dictionaries(dict(props = st.lists(PROP, max_size = 4), geom = st.integers(0, 2), flip = st.booleans(), crs = st.integers(0, 2), odd = st.sampled_from([None, None, None, None, None, None, 'grid']), extra = st.lists(st.fixed_dictionaries(dict(kind = st.sampled_from(Z.CHEAP + ['surface', 'trajectory', 'gcs', 'polyline', 'kind_prop']), k = st.integers(0, 3))), max_size = 2)))
SPEC = st.fixed_dictionaries(dict(grids = st.lists(GRID, min_size = 1, max_size = 3, unique_by = lambda g: (g['ext'], g['title'])), series = st.lists(st.integers(0, 2), min_size = 1, max_size = 2), ts_differ = st.booleans(), base = st.booleans(), cases = st.one_of(st.lists(CASE, min_size = 2, max_size = 4), st.lists(CASE, min_size = 1, max_size = 2)),
                                  cons = st.sampled_from([True, True, False]), grids_shared = st.booleans(), ts_shared = st.booleans(), lookup = st.booleans()))
STAMPS = [['2001-01-01', '2002-02-02'], ['2001-01-01', '2003-03-03'], ['2005-05-05', '2006-06-06']]


def add_common(m, spec, case, r):
    crs = rqc.Crs(m, z_inc_down = True, xy_units = 'm', z_units = ['m', 'ft', 'm'][case['crs']], title = 'crs')
    crs.create_xml()
    for g in spec['grids']:
        k = (g['k'] + case['geom']) % 3
        grid = grr.RegularGrid(m, extent_kji = EXTENTS[g['ext']], dxyz = (10.0 + k, 10.0, 1.0), origin = (0.0, 0.0, 100.0 * k), crs_uuid = crs.uuid, title = g['title'], set_points_cached = bool(k))
        if k:
            grid.grid_representation = 'IjkGrid'
            grid.write_hdf5(expand_const_arrays = True)
        grid.create_xml(write_geometry = bool(k), add_cell_length_properties = False)
    for i, s in enumerate(spec['series']):
        stamps = STAMPS[(s + (r if spec['ts_differ'] else 0)) % 3]
        t = rts.TimeSeries(m, first_timestamp = stamps[0], title = f'ts {i}')
        t.add_timestamp(stamps[1])
        t.create_xml(reuse = False)


def add_case(m, spec, case, r):
    grids = [m.uuid(obj_type = 'IjkGridRepresentation', title = g['title'], title_case_sensitive = True, multiple_handling = 'none') for g in spec['grids']]
    grids = [u for u in m.uuids(obj_type = 'IjkGridRepresentation', sort_by = 'title')]
    series = m.uuids(obj_type = 'TimeSeries', sort_by = 'title')
    for p in (reversed(case['props']) if case['flip'] else case['props']):
        g = grr.any_grid(m, uuid = grids[p['grid'] % len(grids)], find_properties = False)
        rng = np.random.default_rng(p['seed'])
        shape = tuple(g.extent_kji)
        kind = p['kind']
        kw = dict(keyword = p['title'], support_uuid = g.uuid, realization = p['pre'], indexable_element = 'cells', source_info = 'generated')
        if kind in ('ts', 'tscat'):
            kw.update(time_series_uuid = series[p['ts'] % len(series)], time_index = p['ti'])
        if kind in ('cat', 'tscat'):
            lookup = rqp.StringLookup(m, int_to_str_dict = {0: 'a', 1: 'b', 2: f'case {r}' if p['const'] else 'c'}, title = 'names')
            lookup.create_xml()
            kw.update(string_lookup_uuid = lookup.uuid, discrete = True, property_kind = 'categorical')
            a = rng.integers(0, 3, size = shape)
        elif kind == 'disc':
            kw.update(discrete = True, property_kind = 'discrete', null_value = -1)
            a = rng.integers(-1, 50, size = shape)
        elif kind == 'points':
            kw.update(points = True, property_kind = 'length', uom = 'm')
            a = rng.integers(-900, 900, size = shape + (3,)) / 8.0
        elif kind == 'local':
            pk = rqp.PropertyKind(m, title = 'my kind' if p['const'] else f'kind {r}', parent_property_kind = 'length', example_uom = 'm')
            pk.create_xml()
            kw.update(property_kind = pk.title, local_property_kind_uuid = pk.uuid, uom = 'm')
            a = rng.integers(-900, 900, size = shape) / 8.0
        else:
            kw.update(property_kind = 'porosity', uom = 'm3/m3')
            a = rng.integers(0, 900, size = shape) / 1024.0
        if p['const'] and kind == 'cont':
            prop = rqp.Property.from_array(m, None, const_value = float(a.flat[0]), **kw)
        else:
            prop = rqp.Property.from_array(m, a, **kw)
    z = Z.Zoo(m)
    for o in case['extra']:
        z.add(o['kind'], o['k'])


@check('gather', SPEC, quick = 360, thorough = 12000, shards = 6, rule = 'at least two cases, and at least two properties in all')
def gather(spec, ctx):
    base = None
    if spec['base']:
        base = ctx.new_model('base.epc')
        add_common(base, spec, spec['cases'][0], 0)
        base.store_epc(quiet = True)
        base.h5_release()
    shared_mode = spec['cons'] and spec['grids_shared']
    paths, states, arrays, raw, odd = [], [], [], [], False
    for r, case in enumerate(spec['cases']):
        path = ctx.path(f'case_{r}.epc')
        if base is not None:
            m = ctx.track(rq.Model(epc_file = path, copy_from = base.epc_file, quiet = True))
        else:
            m = ctx.new_model(f'case_{r}.epc')
            add_common(m, spec, case, r)
        if case['odd'] and shared_mode and r:
            odd = True
            grr.RegularGrid(m, extent_kji = (5, 1, 1), crs_uuid = m.uuid(obj_type = 'LocalDepth3dCrs'), title = 'odd').create_xml(add_cell_length_properties = False)
        add_case(m, spec, case, r)
        m.store_epc(quiet = True)
        m.h5_release()
        states.append(Z.mem_state(m))
        arrays.append(h5_arrays(m))
        paths.append(path)
        raw.append(open(path, 'rb').read())
    n_grids = [sum(d['type'] == 'obj_IjkGridRepresentation' for d in s.values()) for s in states]
    out = ctx.path('ensemble.epc')

    def act():
        rqdm.gather_ensemble(paths, out, consolidate = spec['cons'], shared_grids = spec['grids_shared'], shared_time_series = spec['ts_shared'], create_epc_lookup = spec['lookup'])

    def grid_of(state, n):
        d = state[n]
        def num(x, tag):
            for k in x[3]:
                if Z.local(k[0]) == tag:
                    return k[2]
            return None
        return tuple(int(num(d['xml'], t)) for t in ('Nk', 'Nj', 'Ni')), d['title']

    if shared_mode:  # grids added by extra parts may not match those of the first case
        host = [grid_of(states[0], n) for n, d in states[0].items() if d['type'] == 'obj_IjkGridRepresentation']
        distinct = len({h[0] for h in host}) == len(host)
        key = (lambda g: g[0]) if distinct else (lambda g: g)
        for s in states[1:]:
            for n, d in s.items():
                if d['type'] == 'obj_IjkGridRepresentation' and key(grid_of(s, n)) not in {key(h) for h in host}:
                    odd = True
    if spec['cons'] and spec['ts_shared']:
        t0 = {d['title'] for d in states[0].values() if d['type'] == 'obj_TimeSeries'}
        if any(d['type'] == 'obj_TimeSeries' and d['title'] not in t0 for s in states[1:] for d in s.values()):
            ctx.label('unmatched time series')
            return  # sharing of time series asked for where there is none to share
    if odd:
        ctx.label('grids not matched')
        ok(raises(act, AssertionError), 'gathering with shared grids should fail when a grid is not matched')
        return
    act()
    for p, b in zip(paths, raw):
        ok(open(p, 'rb').read() == b, 'case epc changed', os.path.basename(p))
    comp = ctx.open_model('ensemble.epc')
    state, comp_rel, comp_h5 = Z.mem_state(comp), relations(comp), h5_arrays(comp)
    t_by = {d['uuid']: n for n, d in state.items()}
    for n, d in objects_only(state).items():
        for u in d['refs']:
            ok(u in t_by, 'reference to a missing part', n, u)
        eq(comp_rel[d['uuid']][0], d['refs'] - {d['uuid']}, f'uuids referenced by {n}')
    n_props = 0
    shared_ts = spec['cons'] and spec['ts_shared']
    expected_uuids = set()

    def forced(r):
        def f(tp, sp):
            ty = states[r][sp]['type']
            if shared_mode and ty == 'obj_IjkGridRepresentation':
                a, b = grid_of(state, tp), grid_of(states[r], sp)
                eq(key(a), key(b), 'grid to which a reference has been redirected')
                ok(tp in states[0], 'reference to a grid redirected to one which is not of the first case')
                return True
            if shared_ts and ty == 'obj_TimeSeries':
                if state[tp]['title'] != states[r][sp]['title']:  # may be an equivalent of the time series with this title
                    host = [n for n, d in states[0].items() if d['type'] == ty and d['title'] == states[r][sp]['title']]
                    ok(any(content(states[0], n, title = False) == content(state, tp, title = False) for n in host), 'time series to which a reference has been redirected')
                return True
            return False
        return f

    def skip_type(ty):
        return ty.endswith('PropertyKind') or ty == 'obj_PropertyKind'

    for r, s in enumerate(states):
        for n, d in objects_only(s).items():
            what = f'case {r}: {n}'
            is_prop = d['type'].endswith('Property')
            if r and shared_mode:
                by = {e['uuid']: e for e in s.values()}
                if not is_prop or not any(by[u]['type'] == 'obj_IjkGridRepresentation' for u in d['refs'] if u in by):
                    continue
            if n in state:
                compare_copy(state[n], d, what, spec['cons'], state, s, r if is_prop else None, forced(r))
                expected_uuids.add(d['uuid'])
            else:
                ok(spec['cons'] and d['type'][4:] in CONS, what + ': part not in ensemble')
                title = d['type'] not in UNTITLED
                cw = content(s, n, title = title)
                ok(any(e['type'] == d['type'] and content(state, n2, title = title) == cw for n2, e in state.items()) or (d['type'] == 'obj_TimeSeries' and shared_ts), what + ': neither in ensemble nor has an equivalent there')
            if is_prop:
                n_props += 1
                eq(realization_of(state[n]), str(r), what + ': realization')
                for p in paths_in(d['xml']):
                    ok(p in comp_h5, what + ': array not in ensemble', p)
                    eq(comp_h5[p], arrays[r][p], what + ': array')
            elif n in state:
                for p in paths_in(state[n]['xml']):
                    eq(comp_h5.get(p), arrays[r].get(p), what + ': array')
    props = [d for d in state.values() if d['type'].endswith('Property')]
    eq(len(props), n_props, 'number of properties in ensemble')
    if shared_mode:
        eq(sum(d['type'] == 'obj_IjkGridRepresentation' for d in state.values()), n_grids[0], 'number of grids with shared grids')
    lookups = [n for n, d in state.items() if d['type'] == 'obj_StringTableLookup' and d['title'] == 'ensemble epc table']
    eq(len(lookups), 1 if spec['lookup'] else 0, 'number of case lookup tables')
    if spec['lookup']:
        eq(rqp.StringLookup(comp, uuid = state[lookups[0]]['uuid']).str_dict, dict(enumerate(paths)), 'case lookup table')
    for d in props[:3]:
        p = rqp.Property(comp, uuid = Z._uuid(d['uuid']))
        r = p.realization()
        n = t_by[d['uuid']]
        ok(n in states[r], 'property found in its case')
        mc = ctx.open_model(f'case_{r}.epc')
        arr_eq(p.array_ref(), rqp.Property(mc, uuid = Z._uuid(d['uuid'])).array_ref(), 'property array')
    ctx.label(f'{len(states)} cases', 'shared grids' if shared_mode else 'consolidated' if spec['cons'] else 'plain')
    ctx.nontrivial(len(states) >= 2 and n_props >= 2)
