"""property-based testing: tilted, depth adjusted, throw scaled, interpolated, draped and faulted grids against corners moved here

Corner point grids (faults, layer gaps, pinched and inactive cells, several coordinate reference systems) are displaced by each
of the functions; every corner of every cell of the result, in memory and reopened, is compared with the corner of the source
moved by the amount that the arguments prescribe (relations between the columns around a pillar for throws), stored displacements
with differences in cell centres, and the source grid, surface and lines with what they were.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.fault as rqf
import resqpy.surface as rqs
import resqpy.property as rqp
import resqpy.grid as grr
import resqpy.derived_model as rqdm

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl

CRS = [{}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'ft', 'x_offset': 100.0, 'y_offset': -20.0, 'z_offset': 5.0}, {'x_offset': 50.0, 'rotation': 0.3}, {'rotation': -0.5, 'y_offset': 10.0}]
mode = st.fixed_dictionaries(dict(given = st.sampled_from(['grid epc', 'epc', 'grid']), new = st.booleans(), titled = st.booleans(), inherit = st.booleans()))


class Source:

    def __init__(self, s, ctx, name = 'source', m = None, crs = None, extra = None):
        self.ctx = ctx
        self.epc = ctx.path(name) if m is None else None
        new = m is None
        m = ctx.track(rq.new_model(self.epc)) if new else m
        crs = gl.make_crs(m, s['crs']) if crs is None else crs
        g = gl.build(m, s['grid'], crs.uuid)
        gl.store(g, title = 'ROOT')
        for k in ('faults', 'gaps', 'inactive', 'pinch', 'undefined'):
            if k in s['grid']:
                ctx.label(k)
        self.n = tuple(int(x) for x in g.extent_kji)
        self.value = np.arange(int(np.prod(self.n)), dtype = float).reshape(self.n)
        rqp.Property.from_array(m, cached_array = self.value, source_info = 'test', keyword = 'VALUE', support_uuid = g.uuid, property_kind = 'length', uom = 'm')
        if extra is not None:
            extra(m, g)
        self.model = m
        self.uuid = g.uuid
        if new:
            m.store_epc()
            self.load()

    def load(self):
        self.m = self.ctx.open_model(self.epc)
        self.g = self.m.grid(uuid = self.uuid)
        og = self.ctx.open_model(self.epc).grid(uuid = self.uuid)
        self.crs = rqc.Crs(og.model, uuid = og.crs_uuid)
        self.w = gl.grid_state(og)
        self.cp = self.w['corners']
        # the points at which pillars are held: [interface, j, i, jp, ip]
        rows = []
        gaps = self.w['gap_after']
        for k in range(self.n[0]):
            rows.append(self.cp[k, :, :, 0])
            if k == self.n[0] - 1 or gaps is not None and gaps[k]:
                rows.append(self.cp[k, :, :, 1])
        self.rows = np.array(rows)

    def args(self, mo):
        new = self.ctx.path('moved') if mo['new'] else None
        kw = dict(epc_file = self.epc if mo['given'] != 'grid' or new is None else None, source_grid = None, new_epc_file = new)
        if mo['given'] != 'epc':
            kw['source_grid'] = self.g
        if mo['titled']:
            kw['new_grid_title'] = 'moved'
        if mo['inherit']:
            kw['inherit_properties'] = True
        return kw

    def around(self, j, i):
        """The columns around a pillar, with the corner of each that is at the pillar: (col j, col i, jp, ip)."""
        return [(j - jp, i - ip, jp, ip) for jp in (0, 1) for ip in (0, 1) if 0 <= j - jp < self.n[1] and 0 <= i - ip < self.n[2]]

    def top_of(self, k0, base = False):
        """Interface of a layer: corner values [j, i, jp, ip, xyz]."""
        return self.cp[k0, :, :, 1 if base else 0]

    def judge(self, g, kw, mo, cp, shifts = None, uom = True, judge = None, tol = 1e-5):
        """Compares the grid returned, and that in file, with corners cp; shifts is True if displacement properties are wanted."""
        epc = kw['new_epc_file'] or self.epc
        m = self.ctx.open_model(epc)
        ok(m.root(uuid = g.uuid) is not None, 'new grid is not in the epc file')
        for h, what in ((g, 'grid returned'), (m.grid(uuid = g.uuid), 'grid in file')):
            st_ = gl.grid_state(h)
            eq(st_['extent'], self.w['extent'], f'{what}: extent')
            eq((st_['right'], st_['down']), (self.w['right'], self.w['down']), f'{what}: handedness and k direction')
            ok(rqc.Crs(h.model, uuid = h.crs_uuid).is_equivalent(self.crs), f'{what}: crs')
            arr_eq(st_['inactive'], self.w['inactive'], f'{what}: inactive cells')
            arr_eq(st_['defined'], self.w['defined'], f'{what}: cells with defined geometry')
            eq([] if st_['gap_after'] is None else st_['gap_after'].tolist(), [] if self.w['gap_after'] is None else self.w['gap_after'].tolist(), f'{what}: layers with gap below')
            if callable(cp):
                cp(st_['corners'], what)
            else:
                for key in ('corners', 'corners again'):
                    a, b = st_[key], cp
                    d = self.w['defined'][..., None, None, None, None]
                    gl.same_state({key: np.where(d, a, np.nan)}, {key: np.where(d, b, np.nan)}, what, tol = tol)
            if mo['titled']:
                eq(h.title, 'moved', f'{what}: title')
        h = m.grid(uuid = g.uuid)
        pc = h.extract_property_collection()
        titles = [] if pc is None else [t for t in pc.titles() if t != 'ACTIVE' and t != 'active']
        if mo['inherit']:
            ok('VALUE' in titles, 'property not inherited')
            arr_close(pc.single_array_ref(citation_title = 'VALUE'), self.value, 1e-5, 'inherited property')
        else:
            ok('VALUE' not in titles, 'property inherited though not asked for')
        want = ['DX_DISPLACEMENT', 'DY_DISPLACEMENT', 'DZ_DISPLACEMENT'] if shifts else []
        eq(sorted(t for t in titles if 'DISPLACEMENT' in t), want, 'displacement properties')
        if shifts:
            d = gl.grid_state(h)['corners'].mean(axis = (3, 4, 5)) - self.cp.mean(axis = (3, 4, 5))
            for axis, t in enumerate(want):
                part = pc.singleton(citation_title = t)
                got = pc.cached_part_array_ref(part)
                j = self.w['defined']
                arr_close(np.where(j, got, 0.0), np.where(j, d[..., axis], 0.0), 1e-3, f'stored {t}', rel = 1e-5)
                eq(pc.uom_for_part(part), self.crs.z_units if axis == 2 else self.crs.xy_units, f'uom of {t}')
        self.unchanged()

    def unchanged(self):
        h = self.ctx.open_model(self.epc).grid(uuid = self.uuid)
        gl.same_state(gl.grid_state(h), self.w, 'source grid in file afterwards', skip = ('points',))
        gl.same_state(gl.grid_state(self.g), self.w, 'source grid afterwards', skip = ('points', 'extra'))


def source(**kw):
    return st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 4, max_ji = 4, **kw), crs = st.sampled_from(CRS)))


@check('tilt', st.fixed_dictionaries(dict(s = source(), mode = mode, pivot = st.tuples(st.sampled_from([0.0, 30.0]), st.sampled_from([0.0, -15.0]), st.sampled_from([0.0, 2000.0])), azimuth = st.sampled_from([0.0, 30.0, 90.0, 135.0, 200.0, 270.0, 359.0]), dip = st.sampled_from([5.0, 0.0, -10.0, 30.0]), store = st.booleans())), quick = 70, thorough = 900, shards = 2, rule = 'dip')
def tilt(s, ctx):
    src = Source(s['s'], ctx)
    if s['dip']:
        ctx.nontrivial()
    kw = src.args(s['mode'])
    pivot = list(s['pivot']) if s['store'] else np.array(s['pivot'])
    g = rqdm.tilted_grid(**kw, pivot_xyz = pivot, azimuth = s['azimuth'], dip = s['dip'], store_displacement = s['store'])
    a = np.radians(s['azimuth'])
    along = np.array([np.sin(a), np.cos(a), 0.0])

    def turned(dip):
        p = src.cp - np.array(s['pivot'])
        h = p @ along
        c, sn = np.cos(np.radians(dip)), np.sin(np.radians(dip))
        q = p - h[..., None] * along  # what is left is along the axis, and vertical
        z = q[..., 2].copy()
        q = q + (h * c - z * sn)[..., None] * along
        q[..., 2] = z * c + h * sn
        return q + np.array(s['pivot'])

    want = turned(s['dip'])
    if not src.crs.z_inc_down:
        # which way is down is not promised where z increases upwards
        got = gl.grid_state(g)['corners']
        d = src.w['defined']
        if d.any() and np.nanmax(np.abs(got[d] - want[d])) > 1e-3:
            want = turned(-s['dip'])
    src.judge(g, kw, s['mode'], want, s['store'])


@check('depth', st.fixed_dictionaries(dict(s = source(), mode = mode, centre = st.tuples(st.floats(-0.3, 1.3), st.floats(-0.3, 1.3)), radius = st.sampled_from([30.0, 10.0, 80.0, 500.0]), shift = st.sampled_from([3.0, -1.5, 40.0]), local = st.booleans(), shape = st.sampled_from(['quadratic', 'linear', None]), ref = st.floats(0, 0.999), store = st.booleans())), quick = 70, thorough = 900, shards = 2, rule = 'some pillars within the radius and some not')
def depth(s, ctx):
    src = Source(s['s'], ctx)
    if not src.w['defined'].all():
        return
    crs = src.crs
    k0 = int(s['ref'] * src.n[0])
    if s['ref'] == 0:
        k0 = 0
    lo, hi = src.cp.reshape(-1, 3).min(axis = 0), src.cp.reshape(-1, 3).max(axis = 0)
    c = np.round(lo[:2] + np.array(s['centre']) * (hi - lo)[:2], 2)
    ref = src.top_of(k0)
    dist = np.hypot(ref[..., 0] - c[0], ref[..., 1] - c[1]) / s['radius']
    if np.any(np.abs(dist - 1.0) < 1e-4):
        return
    shift = s['shift'] if crs.z_inc_down else -s['shift']
    if s['shape'] == 'linear':
        f = np.where(dist > 1.0, 0.0, 1.0 - dist)
    else:
        f = np.where(dist > 1.0, 0.0, np.where(dist > 0.5, 2.0 * (1.0 - dist)**2, 1.0 - 2.0 * dist**2))
    centre = c
    if not s['local']:
        centre = np.array(crs.local_to_global((c[0], c[1], 0.0)))[:2] if crs.rotated else c + np.array([crs.x_offset, crs.y_offset])
    kw = src.args(s['mode'])
    if s['shape'] is not None:
        kw['decay_shape'] = s['shape']
    if k0:
        kw['ref_k0'] = k0
    g = rqdm.local_depth_adjustment(**kw, centre_x = float(centre[0]), centre_y = float(centre[1]), radius = s['radius'], centre_shift = s['shift'], use_local_coords = s['local'], store_displacement = s['store'])
    if np.all(dist > 1.0):
        ok(g is None or np.allclose(gl.grid_state(g)['corners'], src.cp), 'grid adjusted though no pillar is within the radius')
        src.unchanged()
        return
    if g is None:
        ok(crs.rotated and not s['local'], 'no grid returned')  # stated not to be supported
        src.unchanged()
        return
    if np.any(dist > 1.0):
        ctx.nontrivial()
    want = src.cp.copy()
    want[..., 2] += (shift * f)[None, :, :, None, :, :]
    src.judge(g, kw, s['mode'], want, s['store'])


faulted = st.one_of(gl.grid_specs(max_k = 4, max_ji = 4, min_ji = 2, undefined = False), gl.grid_specs(max_k = 3, max_ji = 5, min_ji = 3, undefined = False, gaps = False)).filter(lambda g: 'faults' in g)


@check('throws', st.fixed_dictionaries(dict(s = st.fixed_dictionaries(dict(grid = faulted, crs = st.sampled_from(CRS))), mode = mode, factor = st.sampled_from([2.0, 0.0, 1.0, 0.5, -1.0, None]), ref = st.floats(0, 0.999), base = st.booleans(), smooth = st.sampled_from([0, 0, 1, 2]), named = st.sampled_from([False, True, True]), scales = st.permutations([3.0, 0.0, 1.0, 0.5]), whole = st.booleans(), store = st.booleans(), gcs = st.booleans())), quick = 90, thorough = 1200, shards = 3, rule = 'a factor other than one')
def throws(s, ctx):
    grid = s['s']['grid']
    nk, nj, ni = grid['n']
    named = s['named'] or s['factor'] is None
    names = ['first', 'second', 'third']
    # the columns whose edges are part of each fault
    edges = []
    for ax, at, t, lo, hi, *_ in grid['faults']:
        edges.append({('j', at, x) for x in range(lo, hi)} if ax == 'j' else {('i', x, at) for x in range(lo, hi)})
    gcs_uuid = []

    def extra(m, g):
        for f, es in enumerate(edges):
            jf = np.zeros((nk, nj - 1, ni), dtype = bool)
            jf_i = np.zeros((nk, nj, ni - 1), dtype = bool)
            for ax, j, i in es:
                if ax == 'j':
                    jf[:, j - 1, i] = True
                else:
                    jf_i[:, j, i - 1] = True
            one = rqf.GridConnectionSet(m, grid = g, j_faces = jf, i_faces = jf_i, k_faces = np.zeros((nk - 1, nj, ni), dtype = bool), feature_name = names[f], create_organizing_objects_where_needed = True, title = 'set')
            if f == 0:
                gcs = one
            else:
                gcs.append(one)
        gcs.write_hdf5()
        gcs.create_xml(title = 'set')
        gcs_uuid.append(gcs.uuid)

    src = Source(s['s'], ctx, extra = extra)
    if not src.g.has_split_coordinate_lines:
        return  # throws cancel
    kw = src.args(s['mode'])
    k0 = int(s['ref'] * nk)
    if k0:
        kw['ref_k0'] = k0
    if s['base']:
        kw['ref_k_faces'] = 'base'
    if s['smooth']:
        kw['cell_range'] = s['smooth']
        ctx.label('smooth')
    factor = s['factor']
    scales = {}
    if named:
        ctx.label('named')
        scales = {nm: x for nm, x in zip(names[:len(edges)], s['scales'])}
        if not s['whole']:
            scales.popitem()
        scales['absent'] = 7.0
        g = rqdm.fault_throw_scaling(**kw, scaling_factor = factor, connection_set = rqf.GridConnectionSet(src.m, uuid = gcs_uuid[0]), scaling_dict = scales, store_displacement = s['store'], inherit_gcs = s['gcs'])
    else:
        g = rqdm.global_fault_throw_scaling(**kw, scaling_factor = factor, store_displacement = s['store'], inherit_gcs = s['gcs'])
    if (factor is not None and factor != 1.0) or any(scales.get(nm, 1.0) != 1.0 for nm in names[:len(edges)]):
        ctx.nontrivial()
    ref = src.top_of(k0, s['base'])

    def split(j, i):
        """Groups of columns at a pillar which share points."""
        groups = []
        for c in src.around(j, i):
            v = src.rows[(slice(None),) + c]
            for q in groups:
                if np.allclose(v, src.rows[(slice(None),) + q[0]], atol = 1e-6):
                    q.append(c)
                    break
            else:
                groups.append([c])
        return groups

    near = np.zeros((nj + 1, ni + 1), dtype = int) + 99
    known = {}
    for j in range(nj + 1):
        for i in range(ni + 1):
            groups = split(j, i)
            if len(groups) < 2:
                continue
            near[j, i] = 0
            touching = [f for f, es in enumerate(edges) if any((ax, ej, ei) in es for ax, ej, ei in (('j', j, i - 1), ('j', j, i), ('i', j - 1, i), ('i', j, i)))]
            use = factor
            if named:
                mine = [f for f in touching if names[f] in scales and scales[names[f]] != 1.0]
                if mine:
                    # where faults meet the throws are scaled one by one: only a pillar of one fault with two sides is judged
                    if len(touching) > 1 or len(groups) != 2:
                        continue
                    # other faults can cancel the throw across the fault itself, and leave one elsewhere
                    side = {(c[0], c[1]): q for q, grp in enumerate(groups) for c in grp}
                    if any(side.get(a) == side.get(b) for ax, ej, ei in edges[touching[0]] for a, b in [((ej - 1, ei), (ej, ei)) if ax == 'j' else ((ej, ei - 1), (ej, ei))] if a in side and b in side):
                        continue
                    # the two sides where the fault ends within the grid are one
                    use = scales[names[touching[0]]]
                elif touching and any(names[f] in scales for f in touching) and factor is not None:
                    pass
            known[j, i] = 1.0 if use is None else use
    steps = 0
    for j in range(nj + 1):
        for i in range(ni + 1):
            if near[j, i]:
                d = [abs(j - a) + abs(i - b) for a in range(nj + 1) for b in range(ni + 1) if near[a, b] == 0]
                near[j, i] = min(d) if d else 99

    def fn(cp, what):
        for j in range(nj + 1):
            for i in range(ni + 1):
                cols = src.around(j, i)
                move = np.array([cp[:, c[0], c[1], :, c[2], c[3]] - src.cp[:, c[0], c[1], :, c[2], c[3]] for c in cols])  # col, k, kp, xyz
                ok(np.max(np.abs(move - move[:, :1, :1])) < 1e-5, f'{what}: layers moved by different amounts at pillar {(j, i)}')
                move = move[:, 0, 0]
                if near[j, i] > s['smooth']:
                    ok(np.max(np.abs(move)) < 1e-6, f'{what}: pillar {(j, i)} is {near[j, i]} cells from any fault but has moved by {move[0]}')
                elif near[j, i] > 0:
                    ok(np.max(np.abs(move - move[0])) < 1e-6, f'{what}: unsplit pillar {(j, i)} has been split')
                elif (j, i) in known:
                    r = np.array([ref[c] for c in cols])
                    want = (r - r.mean(axis = 0)) * (known[j, i] - 1.0) if not named else None
                    if want is not None:
                        arr_close(move, want, 1e-5, f'{what}: movement of columns at pillar {(j, i)} for factor {known[j, i]}')
                    for a in range(len(cols)):
                        for b in range(a):
                            arr_close(move[a] - move[b], (r[a] - r[b]) * (known[j, i] - 1.0), 1e-5, f'{what}: change in throw at pillar {(j, i)} for factor {known[j, i]}')
        if s['smooth']:
            # smoothed displacement does not exceed that of the faults
            most = np.max(np.abs((cp - src.cp)[..., 2]), axis = (0, 3))
            on = [most[c] for j in range(nj + 1) for i in range(ni + 1) if near[j, i] == 0 for c in src.around(j, i)]
            off = [most[c] for j in range(nj + 1) for i in range(ni + 1) if near[j, i] > 0 for c in src.around(j, i)]
            ok(max(off, default = 0.0) <= max(on, default = 0.0) + 1e-6, f'{what}: smoothed displacement exceeds that at faults')

    src.judge(g, kw, s['mode'], fn, s['store'])
    m = ctx.open_model(kw['new_epc_file'] or src.epc)
    h = m.grid(uuid = g.uuid)
    sets = m.uuids(obj_type = 'GridConnectionSetRepresentation', related_uuid = g.uuid)
    if not s['gcs']:
        eq(len(sets), 0, 'connection sets of the new grid')
    else:
        eq(len(sets), 1, 'connection sets of the new grid')
        a = rqf.GridConnectionSet(m, uuid = sets[0])
        b = rqf.GridConnectionSet(ctx.open_model(src.epc), uuid = gcs_uuid[0])
        a.cache_arrays()
        b.cache_arrays()
        eq(a.number_of_grids(), 1, 'grids of the inherited connection set')
        eq(str(a.grid_list[0].uuid), str(g.uuid), 'grid of the inherited connection set')
        arr_eq(a.cell_index_pairs, b.cell_index_pairs, 'cells of inherited connection set')
        arr_eq(a.face_index_pairs, b.face_index_pairs, 'faces of inherited connection set')
        arr_eq(a.feature_indices, b.feature_indices, 'features of inherited connection set')
        eq(a.list_of_feature_names(), b.list_of_feature_names(), 'feature names of inherited connection set')


@check('interpolate', st.fixed_dictionaries(dict(s = source(undefined = False), other = st.sampled_from(['noise', 'move', 'faults', 'free']), seed = seeds, o = gl.grid_specs(max_k = 4, max_ji = 4, undefined = False), f = st.sampled_from([0.5, 0.0, 1.0, 0.25, 0.9]), mode = mode, same = st.booleans())), quick = 80, thorough = 1000, shards = 2, rule = 'factor neither zero nor one')
def interpolate(s, ctx):
    a = s['s']['grid']
    b = dict(a)
    rng = np.random.default_rng(s['seed'])
    if s['other'] == 'noise':
        b['seed'] = a['seed'] + 1
    elif s['other'] == 'move':
        b['o'] = [a['o'][0] + 3.0, a['o'][1], a['o'][2] + 10.0]
    elif s['other'] == 'faults':
        b.pop('faults', None)
        nk, nj, ni = a['n']
        if ni > 1:
            b['faults'] = [['i', int(rng.integers(1, ni)), 2.0, 0, nj, 0]]
    else:
        b = dict(s['o'], n = a['n'])
        b.pop('faults', None)
        b.pop('gaps', None)
        b.pop('flip', None)
        if 'flip' in a:
            b['flip'] = a['flip']
        if s['o'].get('gaps') and a.get('gaps'):
            b['gaps'] = a['gaps']
    if a.get('gaps') and not b.get('gaps'):
        a = dict(a)
        a.pop('gaps')
    other = {}

    def extra(m, g):
        crs = rqc.Crs(m, uuid = g.crs_uuid)
        if not s['same']:
            crs = gl.make_crs(m, s['s']['crs'])
        h = gl.build(m, b, crs.uuid)
        gl.store(h, title = 'other')
        other['uuid'] = h.uuid

    src = Source(dict(s['s'], grid = a), ctx, extra = extra)
    gb = src.m.grid(uuid = other['uuid'])
    wb = gl.grid_state(ctx.open_model(src.epc).grid(uuid = other['uuid']))
    if (src.w['right'], src.w['down']) != (wb['right'], wb['down']):
        return
    kw = src.args(s['mode'])
    kw.pop('source_grid')
    if src.g.pillar_shape != gb.pillar_shape:
        src.g.pillar_shape = gb.pillar_shape = 'curved'
    ga = None if src.w['gap_after'] is None else src.w['gap_after'].tolist()
    gbb = None if wb['gap_after'] is None else wb['gap_after'].tolist()
    if kw['epc_file'] is None and kw['new_epc_file'] is None:
        kw['epc_file'] = src.epc
    f = s['f']
    if f not in (0.0, 1.0):
        ctx.nontrivial()
    # new faults that are smaller than the tolerance may be closed
    tol = 0.0001
    g = rqdm.interpolated_grid(**kw, grid_a = src.g, grid_b = gb, a_to_b_0_to_1 = f, split_tolerance = tol)
    want = src.cp * (1.0 - f) + wb['corners'] * f
    inactive = src.w['inactive'] & wb['inactive']
    m = ctx.open_model(kw['new_epc_file'] or src.epc)
    for h, what in ((g, 'grid returned'), (m.grid(uuid = g.uuid), 'grid in file')):
        st_ = gl.grid_state(h)
        eq(st_['extent'], src.w['extent'], f'{what}: extent')
        eq((st_['right'], st_['down']), (src.w['right'], src.w['down']), f'{what}: handedness and k direction')
        ok(rqc.Crs(h.model, uuid = h.crs_uuid).is_equivalent(src.crs), f'{what}: crs')
        arr_eq(st_['inactive'], inactive, f'{what}: inactive cells')
        for key in ('corners', 'corners again'):
            gl.same_state({key: st_[key]}, {key: want}, what, tol = tol * 1.1 + 1e-6)
    h = m.grid(uuid = g.uuid)
    pc = h.extract_property_collection()
    have = pc is not None and 'VALUE' in pc.titles()
    eq(have, s['mode']['inherit'], 'property of first grid inherited')
    if have:
        arr_close(pc.single_array_ref(citation_title = 'VALUE'), src.value, 1e-5, 'inherited property')
    src.unchanged()
    gl.same_state(gl.grid_state(ctx.open_model(src.epc).grid(uuid = other['uuid'])), wb, 'other grid in file afterwards', skip = ('points',))


@check('drape', st.fixed_dictionaries(dict(s = st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 4, max_ji = 4, undefined = False, pinch = False), crs = st.sampled_from(CRS))), mode = mode, plane = st.tuples(st.sampled_from([0.0, 0.05, -0.1]), st.sampled_from([0.0, 0.03]), st.sampled_from([0.0, 100.0, -7.0])), how = st.sampled_from(['surface', 'surface', 'scaled surface', 'scale']), scale = st.sampled_from([2.0, 0.5, 0.0, 1.5]), other_crs = st.booleans(), ref = st.floats(0, 0.999), base = st.booleans(), quad = st.booleans(), store = st.booleans())), quick = 70, thorough = 900, shards = 2, rule = 'sloping pillars or surface')
def drape(s, ctx):
    grid = dict(s['s']['grid'])
    how = s['how']
    if how != 'surface':
        # pillars are vertical so that the surface is honoured in z alone
        grid.pop('tilt', None)
        if s['s']['crs'].get('z_inc_down') is False:
            return  # the shallowest depth is taken to have the least z
    if 'noise' in grid and grid['noise'][0]:
        grid['noise'] = [0.0, grid['noise'][1]]
    src = Source(dict(s['s'], grid = grid), ctx)
    kw = src.args(s['mode'])
    nk, nj, ni = src.n
    k0 = int(s['ref'] * nk)
    ref = src.top_of(k0, s['base'])
    # mean of the columns around each pillar
    top = np.zeros((nj + 1, ni + 1, 3))
    base = np.zeros((nj + 1, ni + 1, 3))
    at = np.zeros((nj + 1, ni + 1, 3))
    for j in range(nj + 1):
        for i in range(ni + 1):
            cols = src.around(j, i)
            top[j, i] = np.mean([src.rows[0][c] for c in cols], axis = 0)
            base[j, i] = np.mean([src.rows[-1][c] for c in cols], axis = 0)
            at[j, i] = np.mean([ref[c] for c in cols], axis = 0)
    surf = None
    if how != 'scale':
        lo, hi = src.cp.reshape(-1, 3).min(axis = 0), src.cp.reshape(-1, 3).max(axis = 0)
        a, b, c = s['plane']
        mid = 0.5 * (lo + hi)

        def z_at(x, y):
            return mid[2] + c + a * (x - mid[0]) + b * (y - mid[1])

        corners = np.array([[x, y, z_at(x, y)] for x, y in ((lo[0] - 1007.0, lo[1] - 1013.0), (hi[0] + 1003.0, lo[1] - 991.0), (lo[0] - 1019.0, hi[1] + 1023.0), (hi[0] + 997.0, hi[1] + 1031.0))])
        scrs = src.crs
        own = src.m
        given = corners.copy()
        if s['other_crs']:
            scrs = rqc.Crs(own, x_offset = 33.0, y_offset = -11.0, z_offset = 2.0, z_inc_down = not src.crs.z_inc_down, xy_units = 'm', z_units = 'm', title = 'surface crs')
            scrs.create_xml()
            if src.crs.xy_units != 'm' or how != 'surface' or src.crs.rotated:
                scrs = src.crs
            else:
                # by hand: through the global frame
                given[:, 0] += src.crs.x_offset - 33.0
                given[:, 1] += src.crs.y_offset + 11.0
                gz = given[:, 2] + src.crs.z_offset
                given[:, 2] = -gz - 2.0
                ctx.label('other crs')
        surf = rqs.Surface(own, crs_uuid = scrs.uuid, title = 'drape')
        surf.set_from_triangles_and_points(np.array([[0, 1, 2], [2, 1, 3]], dtype = int), given.copy())
    kw2 = {}
    if how != 'surface':
        kw2['scaling_factor'] = s['scale']
    if k0:
        kw2['ref_k0'] = k0
    if s['base']:
        kw2['ref_k_faces'] = 'base'
    if how == 'scale':
        kw2['border'] = 5.0
        kw2['quad_triangles'] = s['quad']
        if nj < 1 or ni < 1:
            return
    if 'tilt' in grid or any(s['plane'][:2]):
        ctx.nontrivial()
    g = rqdm.drape_to_surface(**kw, surface = surf, store_displacement = s['store'], **kw2)
    d = base - top
    if how == 'surface':
        t = (z_at(top[..., 0], top[..., 1]) - top[..., 2]) / (d[..., 2] - a * d[..., 0] - b * d[..., 1])
        onto = top + t[..., None] * d
    else:
        onto = at.copy()
        if how == 'scale':
            z = at[..., 2]
            zmin = z.min()
        else:
            z = z_at(at[..., 0], at[..., 1])
            zmin = corners[:, 2].min()
        onto[..., 2] = zmin + (z - zmin) * s['scale']
    want = src.cp.copy()
    move = onto - at
    for j in range(nj + 1):
        for i in range(ni + 1):
            for cj, ci, jp, ip in src.around(j, i):
                want[:, cj, ci, :, jp, ip] += move[j, i]
    if how == 'scale':
        # the reference depth is that of the surface with its border: settle the constant from the result
        got = gl.grid_state(g)['corners']
        diff = (got - want)[..., 2]
        const = float(diff.flat[0])
        ok(const * (1.0 - s['scale']) <= 1e-5, 'scaling is not about a level above the grid')
        want[..., 2] += const
    src.judge(g, kw, s['mode'], want, s['store'], tol = 1e-4)
    if surf is not None and how == 'surface':
        t, p = surf.triangles_and_points()
        arr_close(p, given, 1e-9, 'points of the surface afterwards')


@st.composite
def paths(draw, nj, ni):
    j, i = draw(st.integers(0, nj)), draw(st.integers(0, ni))
    if draw(st.booleans()):
        j = 0
    out = [(j, i)]
    for _ in range(draw(st.integers(1, 7))):
        dj, di = draw(st.sampled_from([(1, 0), (0, 1), (0, -1), (-1, 0), (1, 0)]))
        q = (out[-1][0] + dj, out[-1][1] + di)
        if 0 <= q[0] <= nj and 0 <= q[1] <= ni and q not in out:
            out.append(q)
    return out


@st.composite
def fault_cases(draw):
    grid = draw(st.one_of(gl.grid_specs(max_k = 3, max_ji = 4, min_ji = 2, pinch = False, undefined = False), st.fixed_dictionaries(dict(regular = st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 4))))))
    n = grid.get('regular') or grid['n']
    ps = [p for p in draw(st.lists(paths(n[1], n[2]), min_size = 1, max_size = 3)) if len(p) > 1]
    return dict(grid = grid, paths = ps, throws = draw(st.lists(st.sampled_from([[0.5, -0.5], [2.0, 0.0], [-1.0, 3.0], None]), min_size = 3, max_size = 3)), how = draw(st.sampled_from(['polylines', 'pillars', 'pillars', 'set', 'files'])), crs = draw(st.sampled_from([0, 1, 2, 3])),
                other_crs = draw(st.booleans()), mode = draw(mode), gcs = draw(st.booleans()))


def right_of(path, n):
    """For a path turning at a node, the directions (dj, di in {-1, 1}) of the columns to its right, j being drawn downwards."""
    here = path[n]
    e = np.subtract(here, path[n - 1]) if n else np.subtract(path[n + 1], here)
    x = np.subtract(path[n + 1], here) if n < len(path) - 1 else e
    back = np.degrees(np.arctan2(-e[0], -e[1]))
    ahead = np.degrees(np.arctan2(x[0], x[1]))
    sweep = (back - ahead) % 360.0
    out = set()
    for dj in (-1, 1):
        for di in (-1, 1):
            at = np.degrees(np.arctan2(dj, di))
            if (back - at) % 360.0 < sweep:
                out.add((dj, di))
    return out


@check('faults', fault_cases(), quick = 110, thorough = 1300, shards = 3, rule = 'a fault of more than one face with an end at the edge or more than two faces')
def faults(s, ctx):
    if not s['paths']:
        return
    regular = 'regular' in s['grid']
    crs_kw = CRS[s['crs']]
    if regular:
        epc = ctx.path('source')
        m = ctx.track(rq.new_model(epc))
        c = gl.make_crs(m, crs_kw)
        g = grr.RegularGrid(m, extent_kji = tuple(s['grid']['regular']), dxyz = (10.0, 20.0, 5.0), crs_uuid = c.uuid, title = 'ROOT', as_irregular_grid = True)
        g.write_hdf5()
        g.create_xml(add_cell_length_properties = False)
        rqp.Property.from_array(m, cached_array = np.arange(np.prod(g.extent_kji), dtype = float).reshape(tuple(g.extent_kji)), source_info = 'test', keyword = 'VALUE', support_uuid = g.uuid, property_kind = 'length', uom = 'm')
        m.store_epc()
        src = Source.__new__(Source)
        src.ctx, src.epc, src.uuid = ctx, epc, g.uuid
        src.n = tuple(int(x) for x in g.extent_kji)
        src.value = np.arange(int(np.prod(src.n)), dtype = float).reshape(src.n)
        src.load()
    else:
        # pillars are straight: without noise in plan their direction is that of the line
        src = Source(dict(grid = s['grid'], crs = crs_kw), ctx)
    nk, nj, ni = src.n
    s = dict(s, paths = [[tuple(q) for q in p] for p in s['paths']])
    height = np.abs(src.rows[-1] - src.rows[0]).max(axis = -1)
    if height.min() < 0.5 or src.rows.shape[0] > 2 and 'pinch' in s['grid']:
        return  # no direction to displace a pillar of no height, or part of it
    kw = src.args(s['mode'])
    how = s['how']
    names = ['fault_%d' % f for f in range(len(s['paths']))]
    tops = np.zeros((nj + 1, ni + 1, 3))
    for j in range(nj + 1):
        for i in range(ni + 1):
            tops[j, i] = np.mean([src.rows[0][c] for c in src.around(j, i)], axis = 0)
    if how != 'pillars' and 'faults' in s['grid'] and 'tilt' in s['grid']:
        how = 'pillars'  # lines are laid on the pillars
    ctx.label(how)
    lines_crs = src.crs
    if how != 'pillars' and s['other_crs']:
        lines_crs = rqc.Crs(src.m, x_offset = 5.0, y_offset = 77.0, xy_units = src.crs.xy_units, z_units = src.crs.z_units, title = 'lines crs')
        lines_crs.create_xml()
        src.m.store_epc()

    def line(path):
        p = np.array([tops[tuple(q)] for q in path])
        if lines_crs is not src.crs:
            p = np.array([src.crs.convert_to(lines_crs, tuple(x)) for x in p])
        return p

    if how == 'pillars':
        kw['full_pillar_list_dict'] = {nm: [tuple(q) for q in p] for nm, p in zip(names, s['paths'])}
    elif how == 'files':
        files = []
        for nm, p in zip(names, s['paths']):
            f = ctx.path(nm) + '.dat'
            f = f.replace('.epc', '')
            with open(f, 'w') as fp:
                for x in line(p):
                    fp.write('%.6f %.6f %.6f\n' % tuple(x))
                fp.write('999.0 999.0 999.0\n')
            files.append(f)
        import os
        names = [os.path.basename(f)[:-4] for f in files]
        kw['lines_file_list'] = files
        if lines_crs is not src.crs:
            kw['lines_crs_uuid'] = lines_crs.uuid
    else:
        pls = [rql.Polyline(src.m, set_coord = line(p), set_crs = lines_crs.uuid, is_closed = False, title = nm) for nm, p in zip(names, s['paths'])]
        if how == 'set':
            pset = rql.PolylineSet(src.m, polylines = pls, title = 'lines')
            kw['polylines'] = pset
            names = None
        else:
            kw['polylines'] = pls
    throws_ = {}
    used = []
    for f, t in enumerate(s['throws'][:len(s['paths'])]):
        used.append([0.5, -0.5] if t is None or names is None else t)
        if t is not None and names is not None:
            throws_[names[f]] = tuple(t)
    kw['create_gcs'] = s['gcs']
    g = rqdm.add_faults(**kw, left_right_throw_dict = throws_ if throws_ else None)
    want = src.cp.copy()
    edges = []
    for p, (left, right) in zip(s['paths'], used):
        for q0, q1 in zip(p[:-1], p[1:]):
            if q0[0] == q1[0]:
                if 0 < q0[0] < nj:
                    edges.append(('j', q0[0], min(q0[1], q1[1])))
            elif 0 < q0[1] < ni:
                edges.append(('i', min(q0[0], q1[0]), q0[1]))
        for n, (j, i) in enumerate(p):
            if n in (0, len(p) - 1) and 0 < j < nj and 0 < i < ni:
                continue  # a fault that dies out
            rights = right_of(p, n)
            cols = src.around(j, i)
            v = src.rows[-1][cols[0]] - src.rows[0][cols[0]]
            v = v / np.linalg.norm(v)
            for cj, ci, jp, ip in cols:
                d = (1 if jp == 0 else -1, 1 if ip == 0 else -1)
                want[:, cj, ci, :, jp, ip] += (right if d in rights else left) * v
    if len(edges) > 1:
        ctx.nontrivial()
    src.judge(g, kw, s['mode'], want)
    m = ctx.open_model(kw['new_epc_file'] or src.epc)
    sets = m.uuids(obj_type = 'GridConnectionSetRepresentation')
    if not s['gcs']:
        eq(len(sets), 0, 'connection sets')
    elif edges and len(set(edges)) == len(edges):
        eq(len(sets), 1, 'connection sets')
        gcs = rqf.GridConnectionSet(m, uuid = sets[0])
        gcs.cache_arrays()
        eq(str(gcs.grid_list[0].uuid), str(g.uuid), 'grid of the connection set')
        if names is not None:
            want_names = [nm for nm, p in zip(names, s['paths'])]
            ok(set(gcs.list_of_feature_names()) <= set(want_names), f'feature names of the connection set: {gcs.list_of_feature_names()}')
        cells = set()
        for a, b in gcs.cell_index_pairs:
            cells.add(tuple(sorted((int(a), int(b)))))
        wantc = set()
        for ax, j, i in edges:
            for k in range(nk):
                b = (k * nj + j) * ni + i
                wantc.add((b - (ni if ax == 'j' else 1), b))
        eq(sorted(cells), sorted(wantc), 'pairs of cells across the new faults')
        eq(int(gcs.count), len(wantc), 'number of connections')
