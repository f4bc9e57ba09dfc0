"""Grids of every kind are generated (corner point grids with splits, gaps, undefined and inactive cells; regular blocks in lattice, property only and explicit form; parent windows, stratigraphy, time index, extra metadata) or produced by other operations of the library, stored, and reopened; everything about the recreated grid is compared with the generated description and with the grid as it was before storage, over one or more store and reopen or copy cycles.

Points of cells without geometry are only required to be preserved as points."""
import numpy as np

import resqpy.model as rq
import resqpy.grid as grr
import resqpy.crs as rqc
import resqpy.property as rqp
import resqpy.time_series as rts
import resqpy.organize as rqo
import resqpy.strata as strata
import resqpy.derived_model as rqdm
import resqpy.olio.fine_coarse as fc

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as G

EXTRA = st.dictionaries(st.sampled_from(['a', 'note', 'grid kind']), st.sampled_from(['x', '12', 'two words', 'a<b']), max_size = 2)
SPEC = st.fixed_dictionaries(dict(
    g = G.grid_specs(),
    crs = st.sampled_from(['plain', 'offset', 'up', 'ft']),
    lines = st.booleans(), up = st.booleans(), flag = st.booleans(), shape = st.sampled_from([None, 'curved', 'straight', 'vertical']),
    strat = opt(st.lists(st.integers(-1, 1), min_size = 9, max_size = 9)),
    time = opt(st.integers(0, 2)),
    interp = st.booleans(), title = st.sampled_from([None, 'main grid', 'x & y']), extra = EXTRA,
    caches = st.sampled_from(['none', 'corners', 'all', 'split']),
    cycles = st.lists(st.sampled_from(['reopen', 'reopen', 'copy', 'rewrite']), min_size = 1, max_size = 3)))
CRS = {'plain': {}, 'offset': dict(x_offset = 1000.0, y_offset = -2000.0, z_offset = 50.0), 'ft': dict(z_units = 'ft'), 'up': dict(z_inc_down = False)}


def column_rank(m):
    of = rqo.OrganizationFeature(m, feature_name = 'org', organization_kind = 'earth model')
    of.create_xml()
    uuids = []
    for n in ('u', 'v'):
        f = strata.StratigraphicUnitFeature(m, title = n)
        f.create_xml()
        x = strata.StratigraphicUnitInterpretation(m, title = n, stratigraphic_unit_feature = f)
        x.create_xml()
        uuids.append(x.uuid)
    rank = strata.StratigraphicColumnRank(m, earth_model_feature_uuid = of.uuid, strata_uuid_list = uuids, title = 'rank')
    rank.create_xml()
    return rank


def dress(g, m, spec):
    """Set the optional attributes of a grid."""
    want = {}
    if spec['up']:
        g.k_direction_is_down = False
    if spec['flag']:
        g.grid_is_right_handed = not g.grid_is_right_handed
    if spec['shape']:
        g.pillar_shape = spec['shape']
    if spec['strat']:
        g.stratigraphic_column_rank_uuid = column_rank(m).uuid
        nh = int(g.nk) + int(g.k_gaps or 0)
        g.stratigraphic_units = np.array(spec['strat'][:nh], dtype = int)
        want['units'] = spec['strat'][:nh]
    if spec['time'] is not None:
        ts = rts.TimeSeries(m, first_timestamp = '2001-01-01', yearly = 3)
        ts.create_xml()
        g.time_index, g.time_series_uuid = spec['time'], ts.uuid
    if spec['interp']:
        of = rqo.OrganizationFeature(m, feature_name = 'em', organization_kind = 'earth model')
        of.create_xml()
        ei = rqo.EarthModelInterpretation(m, title = 'em', organization_feature = of)
        ei.create_xml()
        g.represented_interpretation_uuid = ei.uuid
    return want


def cycle(ctx, m, uu, how, n):
    """Returns the model and the grid after one more trip through storage."""
    if how == 'reopen':
        m = ctx.reopen(m)
        return m, grr.any_grid(m, uuid = uu)
    if how == 'copy':
        m.store_epc(quiet = True)
        m2 = ctx.new_model(f'copy{n}.epc')
        m2.copy_all_parts_from_other_model(m)
        m2 = ctx.reopen(m2)
        return m2, grr.any_grid(m2, uuid = uu)
    # arrays and xml of the loaded grid are written again, as a new object
    m = ctx.reopen(m)
    return m, grr.any_grid(m, uuid = uu)


@check('stored', SPEC, quick = 320, thorough = 20000, shards = 8, rule = 'the grid has a fault, a layer gap, undefined geometry, or optional attributes')
def stored(spec, ctx):
    s = spec['g']
    cp, active, defined, gap_after = G.corner_model(s)
    m = ctx.new_model()
    crs = G.make_crs(m, CRS[spec['crs']])
    g = G.build(m, s, crs.uuid)
    g.extra_metadata = dict(spec['extra'])
    want = dress(g, m, spec)
    lines = spec['lines'] and bool(defined.all()) and not np.any(np.abs(cp[0, :, :, 0, :, :, 2] - cp[-1, :, :, 1, :, :, 2]) < 0.01)
    if spec['caches'] == 'none':
        if hasattr(g, 'array_corner_points'):
            del g.array_corner_points
    elif spec['caches'] == 'split':
        g.create_column_pillar_mapping()
        g.points_ref()
    elif spec['caches'] == 'all':
        g.cache_all_geometry_arrays()
        g.corner_points(cache_cp_array = True)
        g.thickness()
    G.store(g, title = spec['title'], lines = lines, extra_metadata = dict(spec['extra'])) if False else G.store(g, title = spec['title'], lines = lines)
    uu = g.uuid
    before = G.grid_state(g)
    if lines:
        before['shape'] = 'straight'
    ctx.nontrivial(bool(before['split']) or bool(gap_after) or not defined.all() or bool(spec['strat']) or spec['time'] is not None or bool(spec['extra']))
    ctx.label('split' if before['split'] else 'unsplit', 'lines' if lines else 'points')
    before['title'] = spec['title'] or 'ROOT'
    for n, how in enumerate(spec['cycles']):
        m, g = cycle(ctx, m, uu, how, n)
        ok(isinstance(g, grr.Grid) and not isinstance(g, grr.RegularGrid), 'class of the grid')
        got = G.grid_state(g)
        # against the description
        G.same_state(got, dict(extent = tuple(s['n']), inactive = ~active, defined = defined, k_gaps = len(gap_after), corners = np.where(defined[..., None, None, None, None], cp, np.nan), **want), f'{how} {n}, against the description', tol = 1e-4 if lines else 1e-6)
        if gap_after:
            ok([int(k) for k in np.nonzero(got['gap_after'])[0]] == gap_after, 'layers with gaps after')
        eq(got['right'], (G.handedness(s, crs.z_inc_down) == 'right') != spec['flag'], 'handedness')
        eq(got['down'], not spec['up'], 'direction of k')
        eq(got['crs'], str(crs.uuid), 'crs')
        eq(got['time'], spec['time'], 'time index')
        eq(got['extra'], spec['extra'], 'extra metadata')
        # against the grid before
        G.same_state(got, before, f'{how} {n}', skip = ('points',) if lines else (), tol = 1e-6)
        ok(g.crs is not None and g.crs == crs, 'crs object')
        if how == 'rewrite':
            h = rqdm.copy_grid(g)
            h.write_hdf5()
            h.create_xml(title = f'rewritten {n}')
            m = ctx.reopen(m)
            again = G.grid_state(grr.any_grid(m, uuid = h.uuid))
            G.same_state(again, got, 'copied grid', skip = ('title', 'extra', 'parent', 'strat', 'units', 'interp', 'active', 'time', 'series', 'shape'))


WIN = st.fixed_dictionaries(dict(w = G.window_specs(), regular = st.booleans(), active = st.booleans(), seed = seeds, via = st.sampled_from(['reopen', 'copy'])))


@check('windows', WIN, quick = 200, thorough = 8000, shards = 4, rule = 'the local grid refines or coarsens the parent grid in some axis')
def windows(spec, ctx):
    w = spec['w']
    m = ctx.new_model()
    crs = G.make_crs(m)
    pe, le = G.window_parent_extent(w)
    parent = grr.RegularGrid(m, extent_kji = pe, dxyz = (10.0, 20.0, 5.0), crs_uuid = crs.uuid, as_irregular_grid = not spec['regular'], title = 'parent')
    parent.write_hdf5() if not spec['regular'] else None
    parent.create_xml(add_cell_length_properties = False)
    g = grr.RegularGrid(m, extent_kji = le, dxyz = (3.0, 4.0, 5.0), crs_uuid = crs.uuid, as_irregular_grid = True, title = 'local')
    f = G.make_window(w)
    g.set_parent(parent.uuid, w['kind'] != 'coarsen', f)
    if spec['active']:
        g.inactive = np.random.default_rng(spec['seed']).random(tuple(le)) < 0.4
    g.write_hdf5()
    g.create_xml(add_cell_length_properties = False)
    ratios = [G.window_ratios(a) for a in w['axes']]
    ctx.nontrivial(any(r != 1 for a in ratios for r in a))
    ctx.label(w['kind'], *sorted(set('vector' if 'v' in a else 'constant' for a in w['axes'])))
    uu, pu = g.uuid, parent.uuid
    if spec['via'] == 'copy':
        m.store_epc(quiet = True)
        m2 = ctx.new_model('copy.epc')
        m2.copy_all_parts_from_other_model(m)
        m = m2
    m = ctx.reopen(m)
    g = grr.any_grid(m, uuid = uu)
    eq(str(g.parent_grid_uuid), str(pu), 'parent grid')
    same = all(r == 1 for a in ratios for r in a)
    if not same:
        eq(bool(g.is_refinement), w['kind'] == 'refine', 'refinement')
    got = G.window_state(g.parent_window, g.is_refinement)
    refining = w['kind'] != 'coarsen' or same
    fine, coarse = [sum(a) for a in ratios], [len(a) for a in ratios]
    other = coarse if refining else fine
    lo = [0 if w['nobox'] else a['lo'] for a in w['axes']]
    want = dict(fine = fine, coarse = coarse, box = [lo, [x + n - 1 for x, n in zip(lo, other)]], ratios = ratios)
    for k, v in want.items():
        eq(got[k], v, f'parent window {k}')
    for x, a in enumerate(w['axes']):
        for c, v in enumerate(G.window_proportions(a)):
            ok(np.allclose(g.parent_window.proportion(x, c), v, atol = 1e-7), f'proportions of coarse cell {c} in axis {x}: {g.parent_window.proportion(x, c)}, expected {v}')
    parent = grr.any_grid(m, uuid = pu)
    eq([str(u) for u in parent.extract_children()], [str(uu)], 'local grids of the parent')
    eq(g.extract_children(), [], 'local grids of the local grid')
    ok(np.array_equal(np.asarray(g.inactive, dtype = bool), np.random.default_rng(spec['seed']).random(tuple(le)) < 0.4 if spec['active'] else np.zeros(le, dtype = bool)), 'inactive mask of local grid')


REG = st.fixed_dictionaries(dict(n = st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)), d = st.tuples(*[st.sampled_from([1.0, 12.5, -10.0, 100.0])] * 3), o = opt(st.tuples(*[st.sampled_from([0.0, 100.0, -33.25])] * 3)), form = st.sampled_from(['lattice', 'lattice', 'explicit', 'bare', 'irregular']),
    crs = st.sampled_from(['plain', 'offset', 'up', 'ft']), active = st.booleans(), seed = seeds, title = st.sampled_from([None, 'block']), extra = EXTRA, lengths = st.booleans(), cycles = st.lists(st.sampled_from(['reopen', 'copy']), min_size = 1, max_size = 2), interp = st.booleans()))


@check('regular', REG, quick = 200, thorough = 8000, shards = 4, rule = 'more than one cell, and an origin or inactive cells')
def regular(spec, ctx):
    m = ctx.new_model()
    crs = G.make_crs(m, CRS[spec['crs']])
    n, d, o = tuple(spec['n']), spec['d'], spec['o'] or (0.0, 0.0, 0.0)
    form = spec['form']
    if form == 'bare':
        d = tuple(abs(x) for x in d)  # only the lengths are stored
    g = grr.RegularGrid(m, extent_kji = n, dxyz = d, origin = o, crs_uuid = crs.uuid, as_irregular_grid = form == 'irregular', set_points_cached = form == 'explicit', title = spec['title'], extra_metadata = dict(spec['extra']))
    inactive = np.random.default_rng(spec['seed']).random(n) < 0.4 if spec['active'] else np.zeros(n, dtype = bool)
    ctx.nontrivial(int(np.prod(n)) > 1 and (any(o) or spec['active']))
    ctx.label(form)
    if spec['interp']:
        of = rqo.OrganizationFeature(m, feature_name = 'em', organization_kind = 'earth model')
        of.create_xml()
        ei = rqo.EarthModelInterpretation(m, title = 'em', organization_feature = of)
        ei.create_xml()
        g.represented_interpretation_uuid = ei.uuid
    if spec['active']:
        g.inactive = inactive.copy()
    if form == 'irregular':
        g.write_hdf5()
    elif spec['active']:
        g.write_hdf5_from_caches(geometry = False, write_active = True)
    if form == 'bare':
        g.create_xml(write_geometry = False, use_lattice = False, add_cell_length_properties = True, title = spec['title'])
    elif form == 'explicit':
        g.write_hdf5() if not spec['active'] else g.write_hdf5_from_caches(geometry = True, write_active = False)
        g.create_xml(write_geometry = True, use_lattice = False, add_cell_length_properties = spec['lengths'], title = spec['title'])
    else:
        g.create_xml(add_cell_length_properties = spec['lengths'], title = spec['title'])
    uu = g.uuid
    before = np.array(g.corner_points(), dtype = float)
    if spec.get('_known'):  # global position of the grid in memory, elsewhere only its local points are looked at
        before += np.array([g.crs.x_offset, g.crs.y_offset, g.crs.z_offset]) - np.array([crs.x_offset, crs.y_offset, crs.z_offset])
    corners = np.empty(n + (2, 2, 2, 3))
    idx = np.indices(n)
    for a, b, c in np.ndindex(2, 2, 2):
        corners[:, :, :, a, b, c] = np.stack(((idx[2] + c) * d[0] + o[0], (idx[1] + b) * d[1] + o[1], (idx[0] + a) * d[2] + o[2]), axis = -1)
    ok(np.allclose(before, corners, atol = 1e-6), f'in memory: corner points differ by up to {np.abs(before - corners).max()}')
    for k, how in enumerate(spec['cycles']):
        m, g = cycle(ctx, m, uu, how, k)
        ok(isinstance(g, grr.RegularGrid) == (form in ('lattice', 'bare')), f'class of grid stored as {form}: {type(g).__name__}')
        eq(tuple(int(x) for x in g.extent_kji), n, 'extent')
        eq((int(g.nk), int(g.nj), int(g.ni)), n, 'extent as integers')
        eq(g.title, spec['title'] or 'ROOT', 'title')
        for key, v in spec['extra'].items():
            eq(g.extra_metadata.get(key), v, f'extra metadata {key}')
        mask = g.extract_inactive_mask()
        ok(np.array_equal(np.asarray(mask, dtype = bool), inactive), 'inactive cells')
        gc = rqc.Crs(m, uuid = g.crs_uuid)
        got = np.array(g.corner_points(), dtype = float)
        # the origin may be held in the crs
        shift = np.array([gc.x_offset, gc.y_offset, gc.z_offset]) - np.array([crs.x_offset, crs.y_offset, crs.z_offset])
        ok(np.allclose(got + shift, corners, atol = 1e-6), f'{how} {k}: corner points differ by up to {np.abs(got + shift - corners).max()}')
        if not any(o):
            eq(str(g.crs_uuid), str(crs.uuid), 'crs')
        for at in ('xy_units', 'z_units', 'z_inc_down'):
            eq(getattr(gc, at), getattr(crs, at), f'crs {at}')
        eq(bool(g.has_split_coordinate_lines), False, 'split')
        eq(int(g.k_gaps or 0), 0, 'gaps')
        eq(bool(g.geometry_defined_for_all_cells()), True, 'geometry defined')
        eq(g.represented_interpretation_uuid is not None, spec['interp'], 'represented interpretation')
        if form != 'bare':
            if (d[2] > 0.0) == bool(gc.z_inc_down):
                eq(bool(g.k_direction_is_down), True, 'direction')
            # with x east, y north: right handed axes if z increases upwards
            eq(bool(g.grid_is_right_handed), (d[0] * d[1] * d[2] > 0.0) != bool(gc.z_inc_down), 'handedness')


PROD = st.fixed_dictionaries(dict(g = G.grid_specs(max_k = 3, max_ji = 3), crs = st.sampled_from(['plain', 'offset', 'up']), op = st.sampled_from(['refine', 'coarsen', 'box', 'copy', 'unsplit', 'tilt', 'interpolate', 'zonal', 'coarse refine', 'single']), a = st.integers(0, 255), b = st.integers(0, 255), new = st.booleans(), window = st.booleans(), seed = seeds))


@check('produced', PROD, quick = 240, thorough = 10000, shards = 8, rule = 'the source grid has a fault, a layer gap, undefined geometry or inactive cells')
def produced(spec, ctx):
    """Grids returned by operations are as they were when reloaded."""
    s = spec['g']
    cp, active, defined, gap_after = G.corner_model(s)
    m = ctx.new_model()
    crs = G.make_crs(m, CRS[spec['crs']])
    g = G.build(m, s, crs.uuid)
    G.store(g, title = 'source')
    m = ctx.reopen(m)
    src = grr.any_grid(m, uuid = g.uuid)
    op, a, b = spec['op'], spec['a'], spec['b']
    nk, nj, ni = s['n']
    new = ctx.path('new.epc') if spec['new'] else None
    kw = dict(new_epc_file = new, new_grid_title = 'made')
    pw = True if spec['window'] and not spec['new'] else False
    if gap_after and op in ('refine', 'coarsen', 'unsplit', 'interpolate', 'zonal', 'coarse refine') or not defined.all() and op in ('refine', 'coarsen', 'interpolate', 'zonal', 'coarse refine', 'unsplit'):
        op = ['box', 'copy', 'tilt'][a % 3]
    ctx.nontrivial('faults' in s or bool(gap_after) or not active.all())
    ctx.label(op)
    if op in ('refine', 'coarse refine'):
        r = [1 + a % 3, 1 + a // 3 % 2, 1 + b % 3]
        f = fc.FineCoarse([n * x for n, x in zip((nk, nj, ni), r)], (nk, nj, ni))
        f.set_all_ratios_constant()
        made = rqdm.refined_grid(m.epc_file, src, f, set_parent_window = pw, **kw)
    elif op == 'coarsen':
        if src.has_split_coordinate_lines or (nk, nj, ni) == (a % nk + 1, a // 4 % nj + 1, b % ni + 1):
            return
        r = [a % nk + 1, a // 4 % nj + 1, b % ni + 1]
        f = fc.FineCoarse((nk, nj, ni), r)
        for x, (nf, nc) in enumerate(zip((nk, nj, ni), r)):
            f.set_ratio_vector(x, np.array([nf // nc + (1 if q < nf % nc else 0) for q in range(nc)], dtype = int)) if nf % nc else f.set_constant_ratio(x)
        made = rqdm.coarsened_grid(m.epc_file, src, f, set_parent_window = pw, **kw)
    elif op == 'box':
        box = np.array([[a % nk, a // 4 % nj, a // 16 % ni]] * 2)
        for x, n in enumerate((nk, nj, ni)):
            box[1, x] = box[0, x] + (b >> (2 * x)) % (n - box[0, x])
        if not defined[tuple(slice(box[0, x], box[1, x] + 1) for x in range(3))].any():
            return
        made = rqdm.extract_box(m.epc_file, src, box, set_parent_window = pw, **kw)
    elif op == 'copy':
        made = rqdm.copy_grid(src)
        made.write_hdf5()
        made.create_xml(title = 'made')
        m.store_epc(quiet = True)
        new = None
    elif op == 'unsplit':
        if not src.has_split_coordinate_lines:
            return
        made = rqdm.unsplit_grid(m.epc_file, src, **kw)
    elif op == 'tilt':
        made = rqdm.tilted_grid(m.epc_file, src, pivot_xyz = (0.0, 0.0, 2000.0), azimuth = float(a), dip = float(b % 30), **kw)
    elif op == 'zonal':
        made = rqdm.zonal_grid(m.epc_file, src, zone_layer_range_list = [(0, a % nk, 1)] + ([(a % nk + 1, nk - 1, 2)] if a % nk + 1 < nk else []), **kw)
    elif op == 'single':
        made = rqdm.single_layer_grid(m.epc_file, src, **kw) if defined.all() and not gap_after else None
        if made is None:
            return
    else:
        g2 = rqdm.tilted_grid(m.epc_file, src, pivot_xyz = (0.0, 0.0, 2000.0), azimuth = float(a), dip = float(b % 10), new_grid_title = 'other')
        m = rq.Model(m.epc_file)
        ctx.track(m)
        src, g2 = grr.any_grid(m, uuid = src.uuid), grr.any_grid(m, uuid = g2.uuid)
        made = rqdm.interpolated_grid(m.epc_file, src, g2, 0.25, **kw)
    want = G.grid_state(made)
    m.h5_release()
    made.model.h5_release()
    m2 = ctx.open_model(new if new else m.epc_file)
    got = G.grid_state(grr.any_grid(m2, uuid = made.uuid))
    G.same_state(got, want, f'grid from {op} reloaded', skip = ('shape', 'active', 'crs', 'title'))
    c1, c2 = rqc.Crs(made.model, uuid = made.crs_uuid), rqc.Crs(m2, uuid = got['crs'])
    ok(c1 == c2, 'crs of the grid')
    eq(got['title'], 'made', 'title')
