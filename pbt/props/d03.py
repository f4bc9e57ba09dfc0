"""property-based testing: zonal and single layer grids against the tops and bases of their source layers

Source grids (faults, layer gaps, inactive and undefined cells, regular) are converted with zones given as layer ranges, as
a cell property (by title or uuid, with variation in inactive cells or dominant zones), or as a single layer for a range of
layers; corners and activity of the result, in memory and reopened, are worked out from the corners of the source.  Layer
ranges from zone arrays (masked or not) are compared with a scan written here, as are zone by layer properties.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.derived_model as rqdm

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl

CRS = [{}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'm', 'x_offset': 100.0}]
regular = st.fixed_dictionaries(dict(regular = st.tuples(st.integers(1, 5), st.integers(1, 3), st.integers(1, 3)), explicit = st.booleans()))
source = st.one_of(gl.grid_specs(max_k = 5, max_ji = 3), gl.grid_specs(max_k = 5, max_ji = 3, undefined = False), gl.grid_specs(max_k = 6, max_ji = 2, gaps = False, undefined = False), regular)
cuts = st.lists(st.sampled_from([True, False]), min_size = 6, max_size = 6)


def zones_of(cut, k0, k1, names):
    """List of (min k0, max k0, zone) for the layers k0 to k1."""
    out = []
    a = k0
    for k in range(k0, k1 + 1):
        if k == k1 or cut[k]:
            out.append((a, k, names[len(out)]))
            a = k + 1
    return out


def runs(zone_of, seen, k0, k1):
    """Runs of layers with the same zone, a layer without (active) cells in a zone going with those around it or the zone below."""
    out = []
    for k in range(k0, k1 + 1):
        if not seen[k]:
            continue
        z = int(zone_of[k])
        if out and out[-1][2] == z:
            out[-1][1] = k
        else:
            out.append([out[-1][1] + 1 if out else k, k, z])
    return [tuple(x) for x in out]


def load(s, crs, ctx, zone_array = None, mask_null = False):
    epc = ctx.path('source')
    m = ctx.track(rq.new_model(epc))
    c = gl.make_crs(m, crs)
    if 'regular' in s:
        g = grr.RegularGrid(m, extent_kji = tuple(s['regular']), dxyz = (10.0, 20.0, 5.0), crs_uuid = c.uuid, title = 'ROOT', as_irregular_grid = s['explicit'])
        if s['explicit']:
            g.write_hdf5()
        g.create_xml(add_cell_length_properties = False)
        ctx.label('regular')
    else:
        g = gl.build(m, s, c.uuid)
        gl.store(g, title = 'ROOT')
        for k in ('faults', 'gaps', 'undefined', 'inactive', 'pinch'):
            if k in s:
                ctx.label(k)
    zu = None
    if zone_array is not None:
        zu = rqp.Property.from_array(m, cached_array = zone_array, source_info = 'generated', keyword = 'ZONES', support_uuid = g.uuid, property_kind = 'discrete', discrete = True, null_value = -1).uuid
        rqp.Property.from_array(m, cached_array = np.zeros(zone_array.shape, dtype = int), source_info = 'generated', keyword = 'OTHER', support_uuid = g.uuid, property_kind = 'discrete', discrete = True)
    m.store_epc()
    og = ctx.open_model(epc).grid(uuid = g.uuid)
    if isinstance(og, grr.RegularGrid):
        og.make_regular_points_cached()
    return epc, g.uuid, gl.grid_state(og), zu, rqc.Crs(og.model, uuid = og.crs_uuid)


def expected(w, ranges, lax):
    """Corners of the zonal grid, active cells, cells for which the geometry is prescribed."""
    nk, nj, ni = w['extent']
    nz = len(ranges)
    cp = np.zeros((nz, nj, ni, 2, 2, 2, 3))
    act = np.zeros((nz, nj, ni), dtype = bool)
    plain = np.zeros((nz, nj, ni), dtype = bool)
    full = np.zeros((nz, nj, ni), dtype = bool)
    for z, (a, b, _) in enumerate(ranges):
        cp[z, :, :, 0] = w['corners'][a, :, :, 0]
        cp[z, :, :, 1] = w['corners'][b, :, :, 1]
        act[z] = (~w['inactive'][a:b + 1]).any(axis = 0) if lax else (~w['inactive'][a:b + 1]).all(axis = 0)
        ends = w['defined'][a] & w['defined'][b]
        full[z] = ends
        plain[z] = ends | ~w['defined'][a:b + 1].any(axis = 0)
    near = np.ones((nz, nj, ni), dtype = bool)
    for z in range(nz):
        for j in range(nj):
            for i in range(ni):
                near[z, j, i] = plain[max(z - 1, 0):z + 2, max(j - 1, 0):j + 2, max(i - 1, 0):i + 2].all()
    return cp, act, full & near


mode = st.fixed_dictionaries(dict(given = st.sampled_from(['epc', 'grid', 'grid epc']), new = st.booleans()))


@check('zonal', st.fixed_dictionaries(dict(grid = source, crs = st.sampled_from(CRS), cut = cuts, how = st.sampled_from(['ranges', 'uuid', 'one range', 'single', 'none', 'ranges', 'title']), span = st.tuples(st.floats(0, 0.999), st.floats(0, 0.999), st.booleans()),
       names = st.permutations(list(range(1, 8))), lax = st.booleans(), vary = st.sampled_from([None, None, 'inactive', 'dominant']), mode = mode, hole = st.booleans(), seed = seeds, titled = st.booleans())), quick = 160, thorough = 1800, shards = 4, rule = 'more than one source layer in a zone')
def zonal(s, ctx):
    n = tuple(s['grid'].get('regular') or s['grid']['n'])
    nk = n[0]
    how = s['how']
    k0, k1 = (0, nk - 1) if not s['span'][2] else sorted((int(s['span'][0] * nk), int(s['span'][1] * nk)))
    rng = np.random.default_rng(s['seed'])
    zone_array = None
    dominant = False
    if how in ('title', 'uuid'):
        everywhere = zones_of(s['cut'], 0, nk - 1, s['names'])
        zone_array = np.zeros(n, dtype = int)
        for a, b, z in everywhere:
            zone_array[a:b + 1] = z
        some = np.ones(nk, dtype = bool) if 'regular' in s['grid'] else gl.corner_model(s['grid'])[1].any(axis = (1, 2))
        ranges = runs(zone_array[:, 0, 0], some, k0, k1)
        if not ranges:
            return
        if s['vary'] == 'inactive' and 'regular' not in s['grid']:
            _, active, _, _ = gl.corner_model(s['grid'])
            zone_array = np.where(active, zone_array, rng.integers(1, 20, n))
            ctx.label('varying inactive')
        elif s['vary'] == 'dominant' and n[1] * n[2] > 2:
            if 'regular' not in s['grid'] and s['grid'].get('inactive'):
                return
            zone_array[:, 0, 0] = rng.integers(1, 8, nk)
            dominant = True
            ctx.label('dominant')
    elif how == 'ranges':
        ranges = zones_of(s['cut'], k0, k1, s['names'])
        if len(ranges) > 2 and s['hole']:
            del ranges[1]
            ctx.label('hole')
    elif how == 'one range':
        ranges = [(k0, k1, 3)]
    else:
        ranges = [(k0, k1, 0)]
    ctx.label(how)
    if any(b > a for a, b, _ in ranges):
        ctx.nontrivial()
    epc, uu, w, zu, crs = load(s['grid'], s['crs'], ctx, zone_array)
    new = ctx.path('zonal') if s['mode']['new'] else None
    kw = dict(epc_file = epc if s['mode']['given'] != 'grid' or new is None else None, new_epc_file = new, inactive_laissez_faire = s['lax'], source_grid = None)
    if s['titled']:
        kw['new_grid_title'] = 'zoned'
    sm = None
    if s['mode']['given'] != 'epc':
        sm = ctx.open_model(epc)
        kw['source_grid'] = sm.grid(uuid = uu)
    if how not in ('ranges', 'one range'):
        if k0 != 0 or s['span'][2]:
            kw['k0_min'] = k0
        if k1 != nk - 1 or s['span'][2]:
            kw['k0_max'] = k1
    if how == 'title':
        kw['zone_title'] = 'ZONES'
    elif how == 'uuid':
        kw['zone_uuid'] = str(zu) if s['lax'] else zu
    elif how in ('ranges', 'one range'):
        kw['zone_layer_range_list'] = list(ranges)
    if dominant:
        kw['use_dominant_zone'] = True
    g = (rqdm.single_layer_grid if how == 'single' else rqdm.zonal_grid)(**kw)
    cp, act, judged = expected(w, ranges, s['lax'])
    nz = len(ranges)
    gap_at = [z for z, (_, b, _) in enumerate(ranges[:-1]) if ranges[z + 1][0] > b + 1 or w['gap_after'] is not None and w['gap_after'][b]]

    def fn(h, what):
        eq(tuple(int(x) for x in h.extent_kji), (nz, n[1], n[2]), f'{what}: extent')
        if s['titled']:
            eq(h.title, 'zoned', f'{what}: title')
        if isinstance(h, grr.RegularGrid):
            h.make_regular_points_cached()
        st_ = gl.grid_state(h)
        eq((st_['right'], st_['down']), (w['right'], w['down']), f'{what}: handedness and k direction')
        ok(rqc.Crs(h.model, uuid = h.crs_uuid).is_equivalent(crs), f'{what}: crs differs from that of the source grid')
        arr_eq(st_['inactive'], ~act, f'{what}: inactive cells')
        ok(st_['defined'][judged].all(), f'{what}: geometry not defined where source cells are defined')
        j = judged[..., None, None, None, None]
        for key in ('corners', 'corners again'):
            gl.same_state({key: np.where(j, st_[key], np.nan)}, {key: np.where(j, cp, np.nan)}, what, tol = 1e-5)
        eq([] if st_['gap_after'] is None else [int(z) for z in np.where(st_['gap_after'])[0]], gap_at, f'{what}: zones with gap below')

    fn(g, 'grid returned')
    m = ctx.open_model(new or epc)
    ok(m.root(uuid = g.uuid) is not None, 'new grid is not in the epc file')
    fn(m.grid(uuid = g.uuid), 'grid in file')
    og = ctx.open_model(epc).grid(uuid = uu)
    if isinstance(og, grr.RegularGrid):
        og.make_regular_points_cached()
    gl.same_state(gl.grid_state(og), w, 'source grid in file afterwards', skip = ('points',))


@st.composite
def zone_arrays(draw):
    nk = draw(st.integers(1, 7))
    n = (nk, draw(st.integers(1, 4)), draw(st.integers(1, 4)))
    names = draw(st.permutations(list(range(0, 9))))
    return dict(n = n, zones = zones_of(draw(st.lists(st.booleans(), min_size = nk, max_size = nk)), 0, nk - 1, names), masked = draw(st.sampled_from([None, None, 0.3, 0.7])), mess = draw(st.sampled_from([None, None, 'masked', 'minor'])),
                span = draw(st.one_of(st.none(), st.tuples(st.integers(0, nk - 1), st.integers(0, nk - 1)).map(sorted))), break_ = draw(st.integers(0, 7)) == 0, seed = draw(seeds), gone = draw(st.booleans()))


def filled(s):
    """The zone array for a specification, with the mask (True where there is no zone)."""
    rng = np.random.default_rng(s['seed'])
    n = tuple(s['n'])
    a = np.zeros(n, dtype = int)
    for lo, hi, z in s['zones']:
        a[lo:hi + 1] = z
    mask = None
    if s['masked'] is not None:
        mask = rng.random(n) < s['masked']
        if not s['gone']:
            for k in range(n[0]):
                mask[k, 0, 0] = False
        elif mask.all():
            mask[0, 0, 0] = False
    return a, mask, rng


@check('ranges', zone_arrays(), quick = 500, thorough = 6000, shards = 2, rule = 'more than one zone')
def ranges_(s, ctx):
    a, mask, rng = filled(s)
    n = a.shape
    k0, k1 = s['span'] or (0, n[0] - 1)
    kw = {} if s['span'] is None else dict(min_k0 = k0, max_k0 = k1)
    dominant = False
    if s['mess'] == 'masked' and mask is not None:
        a = np.where(mask, rng.integers(0, 30, n), a)
        ctx.label('mess under the mask')
    elif s['mess'] == 'minor' and n[1] * n[2] >= 3:
        dominant = True
        for k in range(n[0]):
            v = a[k].flatten()
            free = np.arange(v.size) if mask is None else np.where(~mask[k].flatten())[0]
            count = max(free.size - 1, 0) // 2
            v[rng.permutation(free)[:count]] = rng.integers(0, 9, count)
            a[k] = v.reshape(n[1:])
        ctx.label('dominant')
    seen = np.ones(n[0], dtype = bool) if mask is None else (~mask).any(axis = (1, 2))
    zone_of = np.full(n[0], -99)
    for lo, hi, z in s['zones']:
        zone_of[lo:hi + 1] = z
    if len({int(z) for z in zone_of[k0:k1 + 1]}) > 1:
        ctx.nontrivial()
    za = a.copy() if mask is None else np.ma.masked_array(a.copy(), mask = mask)
    if s['break_'] and not dominant and n[0] > 0:
        # variation within a layer is refused
        free = np.argwhere(np.ones(n, dtype = bool) if mask is None else ~mask)
        free = [c for c in free if k0 <= c[0] <= k1]
        if not free:
            return
        c = tuple(free[int(rng.integers(0, len(free)))])
        layer = (np.ones(n[1:], dtype = bool) if mask is None else ~mask[c[0]]).sum()
        if layer < 2:
            return
        za[c] = int(zone_of[c[0]]) + 1
        if n[0] > 1 or layer > 1:
            with refuses('zone variation within a layer', AssertionError):
                rqdm.zone_layer_ranges_from_array(za, use_dominant_zone = False, **kw)
        return
    if not seen[k0:k1 + 1].any():
        with refuses('layer range without any zones', AssertionError):
            rqdm.zone_layer_ranges_from_array(za, use_dominant_zone = dominant, **kw)
        return
    got = rqdm.zone_layer_ranges_from_array(za, use_dominant_zone = dominant, **kw)
    out = runs(zone_of, seen, k0, k1)
    eq([tuple(int(v) for v in x) for x in got], out, 'zone layer ranges')
    if dominant:
        for lo, hi, z in out:
            ok(np.all(np.asarray(za[[k for k in range(lo, hi + 1) if seen[k]]]) == z) if mask is None else True, 'array not made consistent for dominant zones')


@check('by layer', st.fixed_dictionaries(dict(z = zone_arrays(), how = st.sampled_from(['vector', 'cells', 'cells']), local = st.booleans(), title = st.sampled_from(['ZONE', 'my zones']), realization = st.sampled_from([None, 2]), null = st.sampled_from([-1, -9]), named = st.booleans(),
       extra = st.sampled_from([{}, {'from': 'test'}]))), quick = 60, thorough = 700, shards = 2, rule = 'more than one zone')
def by_layer(s, ctx):
    z = s['z']
    z = dict(z, masked = None)
    a, _, rng = filled(z)
    n = a.shape
    zone_of = a[:, 0, 0].copy()
    dominant = False
    if z['mess'] == 'minor' and n[1] * n[2] >= 3:
        dominant = True
        for k in range(n[0]):
            v = a[k].flatten()
            v[rng.permutation(v.size)[:(v.size - 1) // 2]] = 8
            a[k] = v.reshape(n[1:])
    if len(set(zone_of.tolist())) > 1:
        ctx.nontrivial()
    epc = ctx.path('zones')
    m = ctx.track(rq.new_model(epc))
    c = gl.make_crs(m)
    g = grr.RegularGrid(m, extent_kji = n, dxyz = (10.0, 20.0, 5.0), crs_uuid = c.uuid, title = 'ROOT')
    g.create_xml(add_cell_length_properties = False)
    zu = rqp.Property.from_array(m, cached_array = a, source_info = 'generated', keyword = 'ZC', support_uuid = g.uuid, property_kind = 'discrete', discrete = True).uuid
    m.store_epc()
    kw = dict(title = s['title'], use_local_property_kind = s['local'], null_value = s['null'], realization = s['realization'], extra_metadata = dict(s['extra']))
    if s['named']:
        kw['grid_uuid'] = g.uuid
    if s['how'] == 'vector':
        given = zone_of.copy() if s['local'] else zone_of.tolist()
        vec, pu = rqdm.add_zone_by_layer_property(epc, zone_by_layer_vector = given, **kw)
    else:
        vec, pu = rqdm.add_zone_by_layer_property(epc, zone_by_cell_property_uuid = zu, use_dominant_zone = dominant, **kw)
    arr_eq(np.array(vec), zone_of, 'zone by layer returned')
    m = ctx.open_model(epc)
    p = rqp.Property(m, uuid = pu)
    arr_eq(p.array_ref(), zone_of, 'zone by layer property in file')
    eq(p.indexable_element(), 'layers', 'indexable element')
    eq(p.title, s['title'], 'title')
    eq(p.realization(), s['realization'], 'realization')
    eq(p.null_value(), s['null'], 'null value')
    ok(not p.is_continuous(), 'zone property is continuous')
    # discrete is an abstract kind, for which a local property kind named after the title may stand in
    ok(p.property_kind() in (('zone',) if s['local'] else ('discrete', s['title'])), 'property kind')
    if s['local']:
        ok(p.local_property_kind_uuid() is not None and m.root(uuid = p.local_property_kind_uuid()) is not None, 'local property kind is not in the model')
    for k, v in s['extra'].items():
        eq(p.extra_metadata.get(k), v, 'extra metadata')
    eq(str(p.collection.support_uuid), str(g.uuid), 'supporting representation')
    arr_eq(rqp.Property(m, uuid = zu).array_ref(), a, 'zone by cell property afterwards')


@check('single cell', st.fixed_dictionaries(dict(n = st.integers(2, 12), seed = seeds, nans = st.booleans(), shape = st.booleans(), z_inc_down = st.booleans(), units = st.sampled_from([('m', 'm'), ('ft', 'ft'), ('m', 'ft')]))), quick = 40, thorough = 400, rule = 'any')
def single_cell(s, ctx):
    rng = np.random.default_rng(s['seed'])
    p = np.round(rng.uniform(-1000.0, 1000.0, (s['n'] * 2, 3)), 2)
    if s['nans']:
        p[0, rng.integers(0, 3)] = np.nan
    ctx.nontrivial()
    epc = ctx.path('cell') + ('' if ctx.path('cell').endswith('.epc') else '.epc')
    q = p.reshape((s['n'], 2, 3)) if s['shape'] else p
    g = rqdm.add_single_cell_grid(q.copy(), new_grid_title = 'box', new_epc_file = epc, xy_units = s['units'][0], z_units = s['units'][1], z_inc_down = s['z_inc_down'])
    m = ctx.open_model(epc)
    for h, what in ((g, 'grid returned'), (m.grid(), 'grid in file')):
        ctx.track(h.model)
        eq(tuple(h.extent_kji), (1, 1, 1), f'{what}: extent')
        cp = np.array(h.corner_points()).reshape(-1, 3)
        lo, hi = np.nanmin(p, axis = 0), np.nanmax(p, axis = 0)
        arr_close(cp.min(axis = 0), lo, 1e-6, f'{what}: minimum of cell')
        arr_close(cp.max(axis = 0), hi, 1e-6, f'{what}: maximum of cell')
        eq(len({tuple(np.round(c, 6)) for c in cp}), 8, f'{what}: number of distinct corners')
        eq(h.title, 'box', f'{what}: title')
        c = rqc.Crs(h.model, uuid = h.crs_uuid)
        eq((c.xy_units, c.z_units, bool(c.z_inc_down)), tuple(s['units']) + (s['z_inc_down'],), f'{what}: crs')
