"""Regular grids are generated (aligned with either sign, rotated, dipping and sheared axes; any origin, block size, crs and units; lattice, cached and stored forms; built from vectors, lengths or a regular mesh) and every geometric quantity they offer is compared with a model of the eight corners of every cell and with what an irregular grid holding those corner points returns, in varied orders of calls and caching.

Global coordinates of rotated crs's are judged in G02; documented restrictions (aligned only lattices and cell lookups, thickness along K) are respected."""
import numpy as np

import resqpy.model as rq
import resqpy.grid as grr
import resqpy.crs as rqc
import resqpy.surface as rqs
import resqpy.property as rqp
import resqpy.rq_import as rqi
import resqpy.olio.transmission as rqtr
import resqpy.olio.grid_functions as gf
import resqpy.weights_and_measures as wam

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as G

def near(a, b, msg, rtol = 0.0, atol = 1e-9):
    arr_close(a, b, atol, msg, rtol)


LEN = st.one_of(fl(0.5, 20.0), st.sampled_from([1.0, 10.0, 0.1, 100.0]))
SIGNED = st.builds(lambda a, s: a * s, LEN, st.sampled_from([1, 1, -1]))


@st.composite
def axes(draw, kinds = ('aligned', 'aligned', 'azimuth', 'dip', 'shear', 'unit', 'lengths')):
    kind = draw(st.sampled_from(kinds))
    d = {'kind': kind}
    if kind == 'unit':
        return d
    d['len'] = [draw(SIGNED) for _ in range(3)]
    if kind in ('azimuth', 'dip'):
        d['az'] = draw(st.one_of(fl(-180, 180, 1), st.sampled_from([90.0, 180.0, 45.0])))
    if kind == 'dip':
        d['dip'] = draw(fl(-60, 60, 1))
    if kind == 'shear':
        d['m'] = [[draw(fl(-0.4, 0.4, 2)) for _ in range(3)] for _ in range(3)]
    return d


def vectors(a):
    """dxyz_dkji for an axes specification."""
    if a['kind'] == 'unit':
        return np.array([[0.0, 0, 1], [0, 1, 0], [1, 0, 0]])
    lx, ly, lz = a['len']
    d = np.array([[0.0, 0, lz], [0, ly, 0], [lx, 0, 0]])
    if a['kind'] in ('azimuth', 'dip'):
        r = np.radians(a.get('dip', 0.0))
        rx = np.array([[1.0, 0, 0], [0, np.cos(r), -np.sin(r)], [0, np.sin(r), np.cos(r)]])
        r = np.radians(a['az'])
        rz = np.array([[np.cos(r), -np.sin(r), 0], [np.sin(r), np.cos(r), 0], [0, 0, 1.0]])
        d = d @ (rz @ rx).T
        if a['kind'] == 'azimuth':
            d[0, :2] = 0.0
            d[1:, 2] = 0.0
    if a['kind'] == 'shear':
        d = d @ (np.eye(3) + np.array(a['m']))
    return d


def corners(ext, d, origin):
    nk, nj, ni = ext
    k, j, i = np.meshgrid(np.arange(nk + 1), np.arange(nj + 1), np.arange(ni + 1), indexing = 'ij')
    p = k[..., None] * d[0] + j[..., None] * d[1] + i[..., None] * d[2] + np.array(origin)
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                cp[:, :, :, a, b, c] = p[a:nk + a, b:nj + b, c:ni + c]
    return p, cp


CRS = {'none': None, 'plain': {}, 'offset': dict(x_offset = 1000.0, y_offset = -2000.0, z_offset = 50.0), 'ft': dict(xy_units = 'ft', z_units = 'ft'), 'mixed': dict(z_units = 'ft'),
       'up': dict(z_inc_down = False, x_offset = 10.0), 'rotated': dict(rotation = 0.5, x_offset = 100.0, y_offset = 20.0)}
EXT = st.lists(st.integers(1, 4), min_size = 3, max_size = 3)
ORIGIN = st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(fl(-500.0, 500.0, 2), min_size = 3, max_size = 3))


def twin_grid(m, crs_uuid, cp):
    """The same cells as a Grid, from the model of the corner points."""
    return rqi.grid_from_cp(m, cp.copy(), crs_uuid, ijk_handedness = 'right')


def make(m, spec, origin, **kw):
    a = spec['axes']
    crs_uuid = None if CRS[spec['crs']] is None else G.make_crs(m, CRS[spec['crs']]).uuid
    args = dict(extent_kji = tuple(spec['ext']), origin = tuple(origin), crs_uuid = crs_uuid)
    if a['kind'] == 'lengths':
        args['dxyz'] = tuple(a['len'])
    elif a['kind'] != 'unit':
        args['dxyz_dkji'] = vectors(a)
    args.update(kw)
    return grr.RegularGrid(m, **args)


def local_ops(ext):
    cell = st.tuples(*[st.integers(0, n - 1) for n in ext])
    return cell


OPS = ['point', 'point_cached', 'points_ref', 'cp_all', 'cp_cell', 'cp_cell_cached', 'centres', 'centre', 'centre_cached', 'centre_no_origin', 'centres_no_origin', 'centre_list', 'volumes', 'volume', 'volume_uom',
       'thick', 'pinched', 'lengths', 'iface_len', 'iface_lens', 'iface_vec', 'box', 'cell_box', 'slice', 'shape', 'column', 'find', 'find_out', 'dxyz', 'face', 'count', 'xsect', 'horizon', 'defined', 'interp', 'skin', 'box_centre', 'handed', 'zcp']
SPEC = st.fixed_dictionaries(dict(ext = EXT, axes = axes(), origin = ORIGIN, crs = st.sampled_from(sorted(CRS)), vertical = st.booleans(), form = st.sampled_from(['memory', 'memory', 'cached', 'stored', 'explicit']),
                                  ops = st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 63), st.booleans()), min_size = 4, max_size = 14)))


def geometry_form(ctx, spec):
    """Returns the grid in the required form, with the origin in its own local space and whether it is analytic."""
    form, a = spec['form'], spec['axes']
    m = ctx.new_model()
    aligned = a['kind'] in ('aligned', 'unit', 'lengths')
    origin = spec['origin']
    if form == 'stored' and not aligned:
        form = 'memory'
    if form == 'memory':
        return m, make(m, spec, origin, use_vertical = spec['vertical']), origin, form
    if form == 'cached':
        return m, make(m, spec, origin, use_vertical = spec['vertical'], set_points_cached = True), origin, form
    if form == 'stored':
        g = make(m, spec, origin, use_vertical = True)
        g.create_xml()
        m = ctx.reopen(m)
        g = grr.any_grid(m, uuid = g.uuid)
        ok(isinstance(g, grr.RegularGrid), f'a stored regular grid comes back as {type(g).__name__}')
        return m, g, [0.0, 0.0, 0.0], form
    g = make(m, spec, origin, as_irregular_grid = True)
    g.write_hdf5()
    g.create_xml(write_geometry = True, add_cell_length_properties = False)
    m = ctx.reopen(m)
    g = grr.any_grid(m, uuid = g.uuid)
    ok(type(g) is grr.Grid, f'a regular grid stored as an irregular one comes back as {type(g).__name__}')
    return m, g, origin, form


@check('local', SPEC, quick = 700, thorough = 60000, shards = 8, rule = 'the axes are not aligned, or the origin is not zero, or a length is negative')
def local(spec, ctx):
    d = vectors(spec['axes'])
    ext = spec['ext']
    m, g, origin, form = geometry_form(ctx, spec)
    p, cp = corners(ext, d, origin)
    centre = cp.mean(axis = (3, 4, 5))
    kind = spec['axes']['kind']
    aligned = kind in ('aligned', 'unit', 'lengths')
    regular = isinstance(g, grr.RegularGrid)
    ctx.label(kind, form)
    if not aligned or np.any(np.array(origin) != 0) or np.any(np.array(spec['axes'].get('len', [1.0])) < 0):
        ctx.nontrivial()
    crs = g.crs
    tol = 1e-6 if form != 'explicit' else 2e-4
    same = lambda got, want, msg: near(np.array(got, dtype = float), np.array(want, dtype = float), f'{form} {kind} grid: {msg}', rtol = 1e-9 if form != 'explicit' else 1e-5, atol = tol)
    arr = list(ext)
    eq(list(g.extent_kji), arr, 'extent')
    for op, n, flag in spec['ops']:
        cell = (n % ext[0], (n // 4) % ext[1], (n // 16) % ext[2])
        pt = (n % (ext[0] + 1), (n // 4) % (ext[1] + 1), (n // 16) % (ext[2] + 1))
        c = cp[cell]
        if op == 'point':
            if regular:
                same(g.point_raw(index = pt, cache_array = False), p[pt], f'point_raw{pt}')
        elif op == 'point_cached':
            same(g.point_raw(index = pt, cache_array = True), p[pt], f'cached point_raw{pt}')
        elif op == 'points_ref':
            same(g.points_ref(masked = False), p, 'points_ref')
        elif op == 'cp_all':
            same(g.corner_points(cache_cp_array = True), cp, 'corner_points')
        elif op == 'cp_cell':
            same(g.corner_points(cell_kji0 = cell), c, f'corner_points{cell}')
        elif op == 'cp_cell_cached':
            same(g.corner_points(cell_kji0 = cell, cache_cp_array = True), c, f'corner_points{cell}, cached')
        elif op == 'centres':
            same(g.centre_point(), centre, 'centre_point')
        elif op == 'centre':
            same(g.centre_point(cell_kji0 = cell), centre[cell], f'centre_point{cell}')
        elif op == 'centre_cached':
            same(g.centre_point(cell_kji0 = cell, cache_centre_array = True), centre[cell], f'centre_point{cell}, cached')
        elif op == 'centre_no_origin' and regular:
            same(g.centre_point(cell_kji0 = cell, cache_centre_array = flag, use_origin = False), centre[cell] - origin, f'centre_point{cell} without origin')
        elif op == 'centres_no_origin' and regular:
            same(g.centre_point(use_origin = False), centre - origin, 'centre_point without origin')
        elif op == 'centre_list':
            cells = np.array([cell, (0, 0, 0), tuple(np.array(ext) - 1)])
            same(g.centre_point_list(cells), centre[tuple(cells.T)], 'centre_point_list')
        elif op in ('volumes', 'volume', 'volume_uom'):
            uom = None
            scale = wam.convert_lengths(1.0, crs.xy_units, 'm')**2 * wam.convert_lengths(1.0, crs.z_units, 'm')
            if regular and kind == 'shear':
                continue  # documented to assume orthogonal axes
            if op == 'volume_uom':
                uom = ('m3', 'ft3', 'bbl')[n % 3]
            elif crs.xy_units != crs.z_units:
                uom = 'm3'
            want = abs(np.linalg.det(d)) * scale
            default = {'m': 'm3', 'ft': 'ft3'}[crs.z_units]
            want = wam.convert_volumes(want, 'm3', uom or default)
            got = g.volume(required_uom = uom, cell_kji0 = cell) if op == 'volume' else g.volume(required_uom = uom)
            w = want if op == 'volume' else np.full(ext, want)
            near(np.array(got), np.array(w), f'{form} {kind} grid: {op} in {uom}', rtol = 1e-5 if form != 'explicit' else 1e-3, atol = 1e-6)
        elif op == 'thick':
            k_len = np.linalg.norm(d[0])
            if regular:
                same(g.thickness(), np.full(ext, k_len), 'thickness')
                same(g.thickness(cell_kji0 = cell), k_len, 'thickness of a cell')
            if kind not in ('dip', 'shear'):
                same(np.abs(g.thickness()), np.full(ext, k_len), 'thickness of a grid with vertical K axis')
        elif op == 'pinched':
            arr_eq(np.array(g.pinched_out()), np.zeros(ext, dtype = bool), 'pinched_out')
            ok(not g.pinched_out(cell_kji0 = cell), 'a cell of a regular grid is pinched out')
        elif op == 'lengths' and regular:
            same(g.axial_lengths_kji(), np.linalg.norm(d, axis = 1), 'axial_lengths_kji')
        elif op == 'iface_vec':
            ax = n % 3
            same(g.interface_vector(cell, ax), d[ax], f'interface_vector for axis {ax}')
            same(g.interface_vectors_kji(cell), d, 'interface_vectors_kji')
            if flag:
                same(g.interface_vector(None, ax), np.broadcast_to(d[ax], tuple(ext) + (3,)), f'interface_vector for all cells, axis {ax}')
        elif op in ('iface_len', 'iface_lens') and crs.xy_units == crs.z_units:
            ax = n % 3
            f = wam.convert_lengths(1.0, crs.xy_units, 'ft') if flag else 1.0
            lens = np.linalg.norm(d, axis = 1) * f
            uom = 'ft' if flag else None
            if op == 'iface_len':
                same(g.interface_length(cell, ax, required_uom = uom), lens[ax], f'interface_length for axis {ax}')
            else:
                same(g.interface_lengths_kji(cell, required_uom = uom), lens, 'interface_lengths_kji')
        elif op == 'box':
            want = np.stack((p.reshape(-1, 3).min(axis = 0), p.reshape(-1, 3).max(axis = 0)))
            same(g.xyz_box(lazy = False, local = True), want, 'xyz_box in local coordinates')
        elif op == 'box_centre':
            want = 0.5 * (p.reshape(-1, 3).min(axis = 0) + p.reshape(-1, 3).max(axis = 0))
            same(g.xyz_box_centre(lazy = False, local = True), want, 'xyz_box_centre in local coordinates')
        elif op == 'cell_box':
            q = c.reshape(-1, 3)
            same(g.bounding_box(cell), np.stack((q.min(axis = 0), q.max(axis = 0))), f'bounding_box{cell}')
        elif op == 'slice' and regular:
            ax = n % 3
            ref = (n // 3) % (ext[ax] + 1)
            same(g.slice_points(axis = ax, ref_slice = ref, local = True), np.take(p, ref, axis = ax), f'slice_points axis {ax} slice {ref}')
        elif op == 'shape':
            eq(g.actual_pillar_shape(), 'vertical' if np.all(np.abs(d[0, :2]) < 1e-9) else 'straight', 'actual_pillar_shape')
        elif op == 'column' and regular and aligned:
            same(g.aligned_column_centres(), centre[0, :, :, :2], 'aligned_column_centres')
        elif op == 'dxyz' and regular and aligned:
            same(g.aligned_dxyz(), [d[2, 0], d[1, 1], d[0, 2]], 'aligned_dxyz')
        elif op == 'find' and aligned:
            u, v = 0.1 + 0.8 * ((n * 7) % 11) / 10.0, 0.1 + 0.8 * ((n * 5) % 13) / 12.0
            xy = c[0, 0, 0, :2] + u * d[1, :2] + v * d[2, :2]
            got = g.find_cell_for_point_xy(xy[0], xy[1], k0 = cell[0])
            eq(tuple(int(x) for x in got) if got[0] is not None else got, cell[1:], f'{form} grid: find_cell_for_point_xy for a point of cell {cell}')
        elif op == 'find_out' and aligned:
            lo, hi = p.reshape(-1, 3).min(axis = 0), p.reshape(-1, 3).max(axis = 0)
            xy = [(lo + hi)[0] / 2, (lo + hi)[1] / 2]
            ax = n % 2
            xy[ax] = lo[ax] - 0.01 * (1 + n) if flag else hi[ax] + 0.01 * (1 + n)
            eq(tuple(g.find_cell_for_point_xy(xy[0], xy[1])), (None, None), f'{form} grid: find_cell_for_point_xy for a point outside')
        elif op == 'face':
            ax, pol = n % 3, (n // 3) % 2
            same(g.face_centre(cell, ax, pol), np.take(c, pol, axis = ax).reshape(-1, 3).mean(axis = 0), f'face_centre axis {ax} polarity {pol}')
            if flag:
                want = np.array([[np.take(c, b, axis = a).reshape(-1, 3).mean(axis = 0) for b in (0, 1)] for a in range(3)])
                same(g.face_centres_kji_01(cell), want, 'face_centres_kji_01')
        elif op == 'count':
            eq(int(g.cell_count()), int(np.prod(ext)), 'cell_count')
            eq(int(g.cell_count(geometry_defined_only = True)), int(np.prod(ext)), 'cell_count of defined cells')
        elif op == 'xsect':
            ax = 'JI'[n % 2]
            i_ax = 1 + n % 2
            ref = (n // 2) % ext[i_ax]
            want = np.take(p, ref + (1 if flag else 0), axis = i_ax)
            same(g.x_section_points(ax, ref_slice0 = ref, plus_face = flag), want, f'x_section_points {ax}')
            w = np.take(np.take(cp, ref, axis = i_ax), 1 if flag else 0, axis = 2 + i_ax)  # one cell axis fewer
            same(g.x_section_corner_points(ax, ref_slice0 = ref, plus_face = flag), w, f'x_section_corner_points {ax}')
        elif op == 'horizon':
            k = n % ext[0]
            same(g.horizon_points(ref_k0 = k, kp = int(flag)), p[k + int(flag)], 'horizon_points')
            same(g.split_horizon_points(ref_k0 = k, kp = int(flag)), cp[k, :, :, int(flag)], 'split_horizon_points')
        elif op == 'defined':
            ok(g.cell_geometry_is_defined(cell_kji0 = cell), 'cell geometry is not defined')
            ok(g.pillar_geometry_is_defined(pillar_ji0 = pt[1:]), 'pillar geometry is not defined')
            ok(g.geometry_defined_for_all_cells() and g.geometry_defined_for_all_pillars(), 'geometry is not defined everywhere')
        elif op == 'interp':
            f = np.array([((n * 3) % 7) / 6.0, ((n * 5) % 9) / 8.0, (n % 5) / 4.0])
            want = c[0, 0, 0] + f @ d
            same(g.interpolated_point(cell, f), want, 'interpolated_point')
        elif op == 'zcp':
            same(g.z_corner_point_depths(order = 'linear' if flag else 'cellular'), z_depths(cp, flag), 'z_corner_point_depths')


def z_depths(cp, linear):
    z = cp[..., 2]
    if not linear:
        return z
    return z.transpose(0, 3, 1, 4, 2, 5)


WORLD = st.fixed_dictionaries(dict(ext = EXT, axes = axes(), origin = ORIGIN, crs = st.sampled_from(['plain', 'offset', 'ft', 'up', 'mixed', 'none']), form = st.sampled_from(['memory', 'cached', 'stored']), n = st.integers(0, 63), order = st.permutations(['box', 'slice', 'find', 'centre', 'box'])))


@check('world', WORLD, quick = 300, thorough = 20000, shards = 4, rule = 'the crs has an offset or z up, or the origin is not zero')
def world(spec, ctx):
    """Global coordinates: everything follows from the local points and the crs."""
    m, g, origin, form = geometry_form(ctx, dict(spec, vertical = True))
    # without a crs one is made that holds the origin; otherwise where a shifted crs has been made the origin belongs to
    # the grid as well in memory, which is a finding of G01: the local points and the crs of the grid are taken as they are
    d = vectors(spec['axes'])
    p, cp = corners(spec['ext'], d, origin)
    crs = g.crs
    if spec['crs'] in ('offset', 'up') or np.any(np.array(origin) != 0):
        ctx.nontrivial()
    aligned = spec['axes']['kind'] in ('aligned', 'unit', 'lengths')
    pg = p.reshape(-1, 3).copy()
    crs.local_to_global_array(pg)
    twin = twin_grid(m, g.crs_uuid, cp)
    n, ext = spec['n'], spec['ext']
    for op in spec['order']:
        if op == 'box':
            want = np.stack((pg.min(axis = 0), pg.max(axis = 0)))
            if spec['crs'] == 'up':
                want = None  # sign of z offsets is judged in G02
            tw = twin.xyz_box(lazy = False, local = False)
            near(g.xyz_box(lazy = False, local = False), tw, 'xyz_box in global coordinates against the irregular grid', rtol = 1e-9, atol = 1e-6)
            if want is not None:
                near(tw, want, 'xyz_box in global coordinates', rtol = 1e-9, atol = 1e-6)
            near(g.xyz_box_centre(lazy = False, local = False), tw.mean(axis = 0), 'xyz_box_centre in global coordinates', rtol = 1e-9, atol = 1e-6)
        elif op == 'slice':
            ax = n % 3
            ref = (n // 3) % (ext[ax] + 1)
            want = np.take(pg.reshape(p.shape), ref, axis = ax)
            near(g.slice_points(axis = ax, ref_slice = ref), want, f'slice_points axis {ax}', rtol = 1e-9, atol = 1e-6)
        elif op == 'find' and aligned:
            cell = (n % ext[0], (n // 4) % ext[1], (n // 16) % ext[2])
            q = (cp[cell][0, 0, 0] + 0.3 * d[1] + 0.6 * d[2] + 0.5 * d[0]).reshape(1, 3)
            crs.local_to_global_array(q)
            for gg in (g, twin):
                got = gg.find_cell_for_point_xy(q[0, 0], q[0, 1], k0 = cell[0], local_coords = False)
                eq(tuple(int(x) for x in got) if got[0] is not None else got, cell[1:], f'{type(gg).__name__}.find_cell_for_point_xy for a global point')
        elif op == 'centre':
            near(np.array(g.centre_point()), twin.centre_point(), 'centres against the irregular grid', rtol = 1e-9, atol = 1e-6)


FLOW = st.fixed_dictionaries(dict(ext = EXT, axes = axes(('aligned', 'azimuth', 'dip', 'unit', 'lengths')), origin = ORIGIN, crs = st.sampled_from(['plain', 'ft', 'up']), seed = st.integers(0, 999),
                                  ntg = st.sampled_from([None, 0.5, 'array']), darcy = opt(fl(0.1, 5.0, 2)), same = st.booleans(), via = st.sampled_from(['arrays', 'arrays', 'props', 'cached']), real = st.booleans()))


@check('flow', FLOW, quick = 250, thorough = 15000, shards = 4, rule = 'permeability varies by direction and the blocks are not cubes')
def flow(spec, ctx):
    d = vectors(spec['axes'])
    ext = tuple(spec['ext'])
    m = ctx.new_model()
    g = make(m, spec, spec['origin'], set_points_cached = True)
    p, cp = corners(ext, d, spec['origin'])
    twin = twin_grid(m, g.crs_uuid, cp)
    rng = np.random.default_rng(spec['seed'])
    kx = [rng.uniform(0.1, 1000.0, ext) for _ in range(3)]
    if spec['same']:
        kx = [kx[0]] * 3
    else:
        ctx.nontrivial()
    ntg = rng.uniform(0.0, 1.0, ext) if spec['ntg'] == 'array' else spec['ntg']
    L = np.linalg.norm(d, axis = 1)
    units = 'ft' if spec['crs'] == 'ft' else 'm'
    # kPa.day per cP.m.mD and psi.day.bbl per cP.ft.mD
    darcy = spec['darcy'] if spec['darcy'] is not None and spec['via'] == 'arrays' else {'m': 8.527017e-5, 'ft': 1.127116e-3}[units]
    n = 1.0 if ntg is None else ntg
    want = np.stack([darcy * kx[a] * (1.0 if a == 0 else n) * 2.0 * np.prod(L) / L[a]**2 for a in range(3)], axis = -1)
    check_close = lambda got, w, msg: near(np.array(got), w, msg, rtol = 1e-6, atol = 1e-12)
    if spec['via'] == 'arrays':
        kw = dict(perm_k = kx[0], perm_j = kx[1], perm_i = kx[2], ntg = 1.0 if ntg is None else ntg, darcy_constant = spec['darcy'])
        check_close(rqtr.half_cell_t(g, **kw), want, 'half_cell_t for a regular grid')
        t = rqtr.half_cell_t(twin, **kw)
        check_close(t, np.repeat(want[..., None], 2, axis = -1), 'half_cell_t for the irregular grid')
        return
    grids = [g, twin]
    g.create_xml(write_geometry = False, use_lattice = False)
    twin.write_hdf5()
    twin.create_xml()
    real = 3 if spec['real'] else None
    for x in grids:
        pc = x.extract_property_collection()
        for a, facet in enumerate('KJI'):
            if spec['same'] and a:
                continue
            pc.add_cached_array_to_imported_list(kx[a], 'gen', 'perm ' + facet, False, 'mD', 'permeability rock', realization = real, facet_type = None if spec['same'] else 'direction', facet = None if spec['same'] else facet)
            if real is not None:  # a property of another realization is not to be used
                pc.add_cached_array_to_imported_list(kx[a] * 2.0, 'gen', 'perm ' + facet, False, 'mD', 'permeability rock', realization = real + 1, facet_type = None if spec['same'] else 'direction', facet = None if spec['same'] else facet)
        if ntg is not None:
            pc.add_cached_array_to_imported_list(np.full(ext, ntg) if np.isscalar(ntg) else ntg, 'gen', 'ntg', False, 'm3/m3', 'net to gross ratio', realization = real)
        pc.write_hdf5_for_imported_list()
        pc.create_xml_for_imported_list_and_add_parts_to_model()
    w2 = np.repeat(want[..., None], 2, axis = -1)
    w3 = np.repeat(np.stack([2.0 * darcy * kx[a] * 2.0 * np.prod(L) / L[a]**2 for a in range(3)], axis = -1)[..., None], 2, axis = -1)  # has no net to gross
    for x in grids:
        got = x.half_cell_transmissibility(realization = real)
        check_close(got, w2, f'half_cell_transmissibility of a {type(x).__name__}')
        if spec['via'] == 'cached':
            check_close(x.half_cell_transmissibility(realization = real), w2, f'half_cell_transmissibility of a {type(x).__name__} again')
            if real is not None:
                check_close(x.half_cell_transmissibility(realization = real + 1), w3, f'half_cell_transmissibility of a {type(x).__name__} for another realization')


MESH = st.fixed_dictionaries(dict(nk = st.integers(1, 3), nj = st.integers(2, 5), ni = st.integers(2, 5), d = st.tuples(SIGNED, SIGNED), az = st.one_of(st.just(0.0), fl(-90, 90, 1)), dip = st.one_of(st.just(0.0), fl(-0.3, 0.3, 2)), dz = SIGNED, origin = ORIGIN, cached = st.booleans(), n = st.integers(0, 63)))


@check('mesh', MESH, quick = 120, thorough = 6000, shards = 2, rule = 'the mesh is rotated or dips, or the origin is not zero')
def mesh(spec, ctx):
    m = ctx.new_model()
    crs = G.make_crs(m, {})
    r = np.radians(spec['az'])
    di = spec['d'][0] * np.array([np.cos(r), np.sin(r), spec['dip']])
    dj = spec['d'][1] * np.array([-np.sin(r), np.cos(r), 0.0])
    nj, ni, nk = spec['nj'], spec['ni'], spec['nk']
    me = rqs.Mesh(m, mesh_flavour = 'regular', nj = nj, ni = ni, origin = tuple(spec['origin']), dxyz_dij = np.array([di, dj]), crs_uuid = crs.uuid)
    me.create_xml()
    if spec['az'] or spec['dip'] or np.any(np.array(spec['origin']) != 0):
        ctx.nontrivial()
    ext = (nk, nj - 1, ni - 1)
    g = grr.RegularGrid(m, extent_kji = ext, mesh = me, mesh_dz_dk = spec['dz'], set_points_cached = spec['cached'])
    d = np.array([[0.0, 0.0, spec['dz']], dj, di])
    p, cp = corners(ext, d, spec['origin'])
    near(me.full_array_ref(), p[0], 'points of the mesh', atol = 1e-6)
    cell = (spec['n'] % nk, (spec['n'] // 4) % ext[1], (spec['n'] // 16) % ext[2])
    near(g.corner_points(cell_kji0 = cell), cp[cell], 'corner points of a grid made from a mesh', atol = 1e-6)
    near(g.centre_point(cell_kji0 = cell), cp[cell].reshape(-1, 3).mean(axis = 0), 'centre of a grid made from a mesh', atol = 1e-6)
    near(g.points_ref(masked = False)[0], me.full_array_ref(), 'top of a grid made from a mesh', atol = 1e-6)
    near(g.points_ref(masked = False), p, 'points of a grid made from a mesh', atol = 1e-6)
    if not spec['dip']:  # a sheared grid's volume is documented as the product of the lengths
        near(g.volume(cell_kji0 = cell), abs(np.linalg.det(d)), 'volume of a grid made from a mesh', rtol = 1e-6)
