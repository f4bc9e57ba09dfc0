"""Corner point grids (faulted, skewed, pinched out, gapped, flipped, z up, mixed units) are generated and the volume of each cell compared with the integral of the Jacobian determinant of the trilinear cell (Gauss quadrature), by every route: whole array and single cell, cached and not, stored and reopened, all volume units in sequence, preferred properties. Metamorphic relations: translation, rotation, axis reversal, scaling, splitting of cells. Thickness and pinched out flags are compared with the corner points. The volume functions and the volumes of unstructured cells are compared with the quadrature and with convex hulls."""
import numpy as np
from scipy.spatial import ConvexHull
from scipy.spatial.transform import Rotation

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.rq_import as rqi
import resqpy.olio.volume as vol
import resqpy.unstructured as rug
import resqpy.weights_and_measures as wam

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as G

M = {'m': 1.0, 'ft': 0.3048, 'ft[US]': 12.0 / 39.37, 'km': 1000.0, 'cm': 0.01, 'yd': 0.9144}
V = {'m3': 1.0, 'ft3': 0.3048**3, 'bbl': 42.0 * 231.0 * 0.0254**3, 'km3': 1e9, 'L': 1e-3, 'acre.ft': None, 'yd3': 0.9144**3}
UOMS = ['m3', 'ft3', 'bbl', 'L', 'yd3', 'km3', None]
GP = np.array([0.5 - np.sqrt(3.0) / 6.0, 0.5 + np.sqrt(3.0) / 6.0])
TINY = 1e-9


def quad_volume(cp):
    """Signed volume of trilinear hexahedra, corner points shaped (..., 2, 2, 2, 3): positive if kji map to right handed zyx."""
    cp = np.asarray(cp, dtype = float)
    cp = cp - cp[..., :1, :1, :1, :]
    total = 0.0
    for a in GP:
        for b in GP:
            for c in GP:
                w = [np.array([1 - t, t]) for t in (a, b, c)]
                d = np.array([-1.0, 1.0])
                g = [np.einsum('...abcx,a,b,c->...x', cp, *[d if n == ax else w[n] for n in range(3)]) for ax in range(3)]
                total = total + np.sum(g[2] * np.cross(g[1], g[0]), axis = -1) / 8.0  # i . (j x k)
    return total


def scaled(cp, crs):
    f = np.array([M[crs['xy_units']], M[crs['xy_units']], M[crs['z_units']]])
    return cp * f


def default_uom(z):
    z = 'ft' if z.startswith('ft') else z
    return z + '3' if z in ('m', 'ft', 'km', 'cm', 'yd') else 'm3'


CRS = st.fixed_dictionaries(dict(xy_units = st.sampled_from(['m', 'm', 'ft', 'ft[US]']), z_units = st.sampled_from(['m', 'm', 'ft', 'ft[US]', 'yd']), z_inc_down = st.booleans()))
CELL = st.lists(st.integers(0, 3), min_size = 3, max_size = 3)
WORLD = st.fixed_dictionaries(dict(g = G.grid_specs(undefined = True), crs = CRS, cell = CELL, store = st.sampled_from(['memory', 'memory', 'stored', 'lines']), uoms = st.lists(st.sampled_from(UOMS), min_size = 1, max_size = 4),
                                   cache = st.booleans(), centre = st.booleans(), first_cell = st.booleans(), tol = st.sampled_from([0.001, 0.001, 1.0, 2.5, 0.0]), cp_first = st.booleans()))


def world(spec, ctx, s):
    cp, active, defined, _ = G.corner_model(s)
    z_down = spec['crs']['z_inc_down']
    m = ctx.new_model()
    crs = G.make_crs(m, spec['crs'])
    g = G.build(m, s, crs.uuid, cp = cp)
    # volume() is None for a grid object made from arrays (a test of the repository requires it), so a new object is instantiated
    lines = spec['store'] == 'lines'
    if lines and (not defined.all() or 'pinch' in s or 'noise' in s):
        lines = False
    G.store(g, 'world', lines = lines)
    if spec['store'] != 'memory':
        m.store_epc()
        m = ctx.reopen(m)
    g = grr.Grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
    return m, g, cp, active, defined


@check('cells', WORLD, quick = 500, thorough = 20000, shards = 8, rule = 'the cells are not all boxes: noise, faults or pinches')
def cells(spec, ctx):
    s = dict(spec['g'])
    m, g, cp, active, defined = world(spec, ctx, s)
    if any(k in s for k in ('noise', 'faults', 'pinch', 'tilt')):
        ctx.nontrivial()
    cell = tuple(np.array(spec['cell']) % np.array(s['n']))
    want = np.abs(quad_volume(scaled(cp, spec['crs'])))
    sgn = quad_volume(scaled(cp, spec['crs']))
    # with partly collapsed noisy cells the signed volume is still what the routine gives
    flips = len(s.get('flip', '')) % 2
    want = sgn * (-1.0 if flips else 1.0)
    want = np.where(defined, want, np.nan)
    size = float(np.nanmax(np.abs(want))) + 1e-3
    held = []
    if spec['cp_first']:
        g.corner_points(cache_cp_array = True)
    if spec['first_cell'] and defined[cell]:
        near_cp = g.corner_points(cell_kji0 = cell)
        v = g.volume(cell_kji0 = cell, cache_volume_array = spec['cache'])
        close(v, want[cell] / V[default_uom(spec['crs']['z_units'])], 1e-6 * size / V[default_uom(spec['crs']['z_units'])], f'volume of cell {cell}')
    for uom in spec['uoms']:
        u = uom or default_uom(spec['crs']['z_units'])
        if not spec['cache'] and defined[cell] and not hasattr(g, 'array_volume'):
            v = g.volume(cell_kji0 = cell, cache_volume_array = False, required_uom = uom)
            close(v, want[cell] / V[u], 1e-6 * size / V[u], f'volume of cell {cell} in {u}, not cached')
            ok(not hasattr(g, 'array_volume'), 'the volumes were cached although not asked for')
            continue
        a = g.volume(required_uom = uom, cache_volume_array = spec['cache'], cache_centre_array = spec['centre'])
        eq(a.shape, tuple(s['n']), 'shape of volumes')
        arr_close(np.where(defined, a, 0.0), np.where(defined, want / V[u], 0.0), 1e-6 * size / V[u], f'volumes in {u}')
        for (b, ub, was) in held:
            arr_eq(b, was, f'volumes in {ub} after volumes in {u} were asked for')
        held.append((a, u, a.copy()))
        v = g.volume(cell_kji0 = cell, required_uom = uom, cache_volume_array = spec['cache'])
        if defined[cell]:
            close(v, want[cell] / V[u], 1e-6 * size / V[u], f'volume of cell {cell} in {u}')
    # thickness and pinch outs
    thick = np.abs(np.mean(cp[..., 1, :, :, 2] - cp[..., 0, :, :, 2], axis = (-1, -2)))
    if spec['first_cell'] and defined[cell]:
        close(g.thickness(cell_kji0 = cell, cache_thickness_array = False), thick[cell], 1e-6, f'thickness of cell {cell}, not cached')
        ok(not hasattr(g, 'array_thickness'), 'the thicknesses were cached although not asked for')
        tol = spec['tol']
        if abs(thick[cell] - tol) > 1e-6 or tol == 0.0:
            p = g.pinched_out(cell_kji0 = cell, tolerance = tol, cache_pinchout_array = False)
            eq(bool(p), bool(thick[cell] <= tol + 1e-9), f'pinched out flag of cell {cell} of thickness {thick[cell]} for tolerance {tol}')
    if np.isnan(np.sum(g.corner_points(cell_kji0 = cell))) and spec['first_cell']:
        eq(bool(g.pinched_out(cell_kji0 = cell, cache_pinchout_array = False)), True, f'pinched out flag of cell {cell}, without geometry')
    t = g.thickness(cache_cp_array = spec['cp_first'])
    arr_close(np.where(defined, t, 0.0), np.where(defined, thick, 0.0), 1e-6, 'thicknesses')
    if defined[cell]:
        close(g.thickness(cell_kji0 = cell), thick[cell], 1e-6, f'thickness of cell {cell}')
    tol = spec['tol']
    po = g.pinched_out(tolerance = tol)
    clear = defined & ((np.abs(thick - tol) > 1e-6) | ((thick < 1e-12) & (tol == 0.0)))
    if tol == 0.0:
        clear &= (thick > 1e-5)  # rounding
    arr_eq(po[clear], (thick <= tol)[clear], f'pinched out flags for tolerance {tol}')
    ok(np.all(po[np.isnan(t)]), 'pinched out flags of cells without geometry')
    eq(bool(g.pinched_out(cell_kji0 = cell, tolerance = tol)), bool(po[cell]), 'pinched out flag of a cell')
    po2 = g.pinched_out(tolerance = 3.0)
    clear = defined & (np.abs(thick - 3.0) > 1e-6)
    arr_eq(po2[clear], (thick <= 3.0)[clear], 'pinched out flags for another tolerance')
    # interfaces
    if defined[cell]:
        c = cp[cell]
        d = [np.mean(c[1] - c[0], axis = (0, 1)), np.mean(c[:, 1] - c[:, 0], axis = (0, 1)), np.mean(c[:, :, 1] - c[:, :, 0], axis = (0, 1))]
        fxy, fz = M[spec['crs']['xy_units']], M[spec['crs']['z_units']]
        arr_close(g.interface_vectors_kji(cell), np.array(d), 1e-6, 'vectors between faces')
        ln = [np.sqrt((x[0] * fxy)**2 + (x[1] * fxy)**2 + (x[2] * fz)**2) for x in d]
        arr_close(g.interface_lengths_kji(cell), np.array(ln) / fxy, 1e-5, 'lengths between faces')
        arr_close(g.interface_lengths_kji(cell, required_uom = 'ft'), np.array(ln) / 0.3048, 1e-5, 'lengths between faces in ft')
        arr_close(g.interface_lengths_kji(cell, required_uom = 'm'), np.array(ln), 1e-5, 'lengths between faces in m')
        arr_close(g.poly_line_for_cell(cell, 'top'), c[0].reshape(4, 3)[[0, 1, 3, 2]], 1e-6, 'outline of a cell')
        arr_close(g.poly_line_for_cell(cell, 'base'), c[1].reshape(4, 3)[[0, 1, 3, 2]], 1e-6, 'outline of a cell')
    # inactive flag
    eq(bool(g.cell_inactive(cell)), not (active[cell] and defined[cell]), f'inactive flag of cell {cell}')
    mask = g.extract_inactive_mask()
    eq(mask.dtype, np.dtype(bool), 'type of the inactive mask')
    arr_eq(mask, ~(active & defined), 'inactive mask')


META = st.fixed_dictionaries(dict(g = G.grid_specs(undefined = False, inactive = False), crs = CRS, seed = seeds, op = st.sampled_from(['translate', 'rotate', 'reverse', 'scale', 'swap', 'split']), axes = st.sampled_from(['i', 'j', 'k', 'ij', 'jk', 'ijk']),
                                  n = st.integers(2, 3), ax = st.sampled_from([0, 1, 2])))


@check('moved', META, quick = 250, thorough = 10000, shards = 8, rule = 'the grid has cells other than boxes')
def moved(spec, ctx):
    s, crs_kw = spec['g'], dict(spec['crs'])
    op = spec['op']
    if op == 'rotate':
        crs_kw['xy_units'] = crs_kw['z_units'] = 'm'
    rng = np.random.default_rng(spec['seed'])
    cp, active, defined, _ = G.corner_model(s)
    if any(k in s for k in ('noise', 'faults', 'pinch', 'tilt')):
        ctx.nontrivial()
    m = ctx.new_model()
    crs = G.make_crs(m, crs_kw)
    g = G.build(m, s, crs.uuid, cp = cp)
    G.store(g)
    g = grr.Grid(m, uuid = g.uuid)
    v = g.volume().copy()
    hand = G.handedness(s, crs_kw['z_inc_down'])
    want = v
    opp = {'right': 'left', 'left': 'right'}
    if op == 'translate':
        c2 = cp + rng.uniform(-3000.0, 3000.0, 3)
    elif op == 'rotate':
        r = Rotation.from_euler('z', rng.uniform(0, 360), degrees = True) * Rotation.from_euler('x', rng.uniform(-40, 40), degrees = True)
        c0 = cp.reshape(-1, 3).mean(axis = 0)
        c2 = r.apply((cp - c0).reshape(-1, 3)).reshape(cp.shape) + c0
    elif op == 'scale':
        f = rng.uniform(0.3, 3.0)
        c2 = cp * f
        want = v * f**3
    elif op == 'swap':
        c2 = cp[..., [1, 0, 2]]
        hand = opp[hand]
        if crs_kw['xy_units'] != crs_kw['xy_units']:
            return
    elif op == 'reverse':
        c2 = cp
        for a in spec['axes']:
            ax = 'kji'.index(a)
            c2 = np.flip(np.flip(c2, ax), ax + 3)
            want = np.flip(want, ax)
            hand = opp[hand]
    else:
        n, ax = spec['n'], spec['ax']
        ext = list(cp.shape)
        ext[ax] *= n
        c2 = np.empty(ext)
        lo, hi = np.take(cp, 0, axis = ax + 3), np.take(cp, 1, axis = ax + 3)
        for q in range(n):
            for side in (0, 1):
                t = (q + side) / n
                dest = [slice(None)] * 7
                dest[ax] = slice(q, None, n)
                dest[ax + 3] = side
                c2[tuple(dest)] = lo + t * (hi - lo)
    c2 = np.ascontiguousarray(c2)
    g2 = rqi.grid_from_cp(m, c2, crs.uuid, ijk_handedness = hand, max_z_void = 0.1 if op not in ('scale',) else 0.01, split_tolerance = 1e-4)
    G.store(g2)
    g2 = grr.Grid(m, uuid = g2.uuid)
    v2 = g2.volume()
    if op == 'split':
        shp = list(v.shape)
        shp.insert(spec['ax'] + 1, spec['n'])
        v2 = v2.reshape(shp).sum(axis = spec['ax'] + 1)
    tol = 1e-6 * (np.max(np.abs(want)) + 1.0)
    if op == 'scale' or op == 'translate':
        tol *= 5.0
    arr_close(v2, want, tol, f'volumes after {op}')
    ok(np.all(v[G.corner_model({k: w for k, w in s.items()})[2]] > -tol), 'negative volume') if not any(k in s for k in ('noise', 'pinch', 'faults')) else None


FN = st.fixed_dictionaries(dict(seed = seeds, n = st.lists(st.integers(1, 3), min_size = 3, max_size = 3), kind = st.sampled_from(['random', 'noisy', 'pinch', 'flat']), off = st.booleans(), far = st.sampled_from([0.0, 1000.0])))


@check('functions', FN, quick = 500, thorough = 20000, shards = 8, rule = 'noisy, pinched or far away cells')
def functions(spec, ctx):
    rng = np.random.default_rng(spec['seed'])
    n = spec['n']
    unit = np.stack(np.meshgrid([0.0, 1.0], [0.0, 1.0], [0.0, 1.0], indexing = 'ij'), axis = -1)[..., ::-1]
    shp = tuple(n) + (2, 2, 2, 3)
    if spec['kind'] == 'random':
        cp = rng.uniform(-1.0, 1.0, shp)
    else:
        cp = np.broadcast_to(unit, shp) * rng.uniform(0.5, 20.0, 3)
        if spec['kind'] != 'flat':
            cp = cp + rng.uniform(-0.2, 0.2, shp)
        cp = cp.copy()
        if spec['kind'] == 'pinch':
            for _ in range(3):
                a, b = rng.integers(0, 2, 2)
                cp[..., 1, a, b, :] = cp[..., 0, a, b, :]
    cp = cp + rng.uniform(-1.0, 1.0, 3) * spec['far']
    ctx.nontrivial()
    want = quad_volume(cp) * (-1.0 if spec['off'] else 1.0)
    tol = 1e-8 * (1.0 + spec['far'])
    keep = cp.copy()
    arr_close(vol.tetra_volumes(cp, off_hand = spec['off']), want, tol, 'tetra_volumes', 1e-9)
    arr_close(vol.tetra_volumes_slow(cp, off_hand = spec['off']), want, tol, 'tetra_volumes_slow', 1e-9)
    centres = np.mean(cp, axis = (3, 4, 5)) + rng.uniform(-0.1, 0.1, 3)
    arr_close(vol.tetra_volumes(cp, centres = centres, off_hand = spec['off']), want, tol, 'tetra_volumes with centres', 1e-9)
    arr_close(vol.tetra_volumes_slow(cp, centres = centres, off_hand = spec['off']), want, tol, 'tetra_volumes_slow with centres', 1e-9)
    k, j, i = (int(rng.integers(0, x)) for x in n)
    close(vol.tetra_cell_volume(cp[k, j, i], off_hand = spec['off']), want[k, j, i], tol, 'tetra_cell_volume', 1e-9)
    close(vol.tetra_cell_volume(cp[k, j, i], centre = centres[k, j, i], off_hand = spec['off']), want[k, j, i], tol, 'tetra_cell_volume with centre', 1e-9)
    arr_eq(cp, keep, 'corner points after volumes calculated')
    # pyramid: a cell collapsed to a point at one end
    apex, a, b, c, d = rng.uniform(-3.0, 3.0, (5, 3))
    pc = np.empty((2, 2, 2, 3))
    pc[1] = apex
    pc[0, 0, 0], pc[0, 0, 1], pc[0, 1, 1], pc[0, 1, 0] = a, b, c, d
    w = float(quad_volume(pc))
    for rh in (False, True):
        got = vol.pyramid_volume(apex, a, b, c, d, crs_is_right_handed = rh)
        close(got, w * (-1.0 if rh else 1.0), 1e-9, 'pyramid_volume')
        close(vol.pyramid_volume(list(apex), tuple(b), c, d, a, crs_is_right_handed = rh), got, 1e-9, 'pyramid_volume with the base started elsewhere')
        close(vol.pyramid_volume(apex, d, c, b, a, crs_is_right_handed = rh), -got, 1e-9, 'pyramid_volume with the base the other way round')
    # documented orientation: base clockwise viewed from the apex in a left handed crs gives a positive volume
    close(vol.pyramid_volume((0.5, 0.5, 0.0), (0, 0, 3.0), (1.0, 0, 3.0), (1.0, 1.0, 3.0), (0, 1.0, 3.0), crs_is_right_handed = True), 1.0, 1e-9, 'volume of a plain pyramid')
    close(vol.tetrahedron_volume(a, b, c, d), abs(np.linalg.det(np.array([a - d, b - d, c - d]))) / 6.0, 1e-9, 'tetrahedron_volume')
    close(vol.tetrahedron_volume(list(d), tuple(b), c, a), abs(np.linalg.det(np.array([a - d, b - d, c - d]))) / 6.0, 1e-9, 'tetrahedron_volume')


PROP = st.fixed_dictionaries(dict(g = G.grid_specs(undefined = False, inactive = False), seed = seeds, cell = CELL, kind = st.sampled_from(['rock volume', 'rock volume', 'thickness', 'thickness', 'cell length']), facet = st.sampled_from(['gross', None, 'net', 'both', 'twice']), uom = st.sampled_from(['m3', 'ft3', 'bbl']),
                                  req = st.lists(st.sampled_from(UOMS), min_size = 1, max_size = 3), cache = st.booleans(), one = st.booleans(), crs = CRS, k_facet = st.booleans()))


@check('properties', PROP, quick = 200, thorough = 6000, shards = 8, rule = 'a suitable property is there')
def properties(spec, ctx):
    s = spec['g']
    cp = G.corner_model(s)[0]
    m = ctx.new_model()
    crs = G.make_crs(m, spec['crs'])
    g = G.build(m, s, crs.uuid, cp = cp)
    G.store(g)
    rng = np.random.default_rng(spec['seed'])
    vals = np.round(rng.uniform(1.0, 100.0, s['n']), 2)
    net = np.round(rng.uniform(1.0, 100.0, s['n']), 2)
    pc = rqp.PropertyCollection()
    pc.set_support(support = g)
    isv = spec['kind'] == 'rock volume'

    def add(v, title, facet, kind = spec['kind'], uom = spec['uom'] if isv else 'm', ft = 'netgross'):
        pc.add_cached_array_to_imported_list(v.copy(), 'made', title, uom = uom, property_kind = kind, facet_type = ft if facet else None, facet = facet)

    used = None
    if spec['kind'] == 'cell length':
        if spec['k_facet']:
            add(vals, 'dz', 'K', ft = 'direction')
            used = vals
        add(net, 'dx', 'I', ft = 'direction')
    else:
        f = spec['facet']
        if f == 'gross':
            add(vals, 'gross', 'gross')
            used = vals
        elif f is None:
            add(vals, 'plain', None)
            used = vals
        elif f == 'net':
            add(net, 'net', 'net')
        elif f == 'both':
            add(net, 'net', 'net')
            add(vals, 'gross', 'gross')
            used = vals
        else:
            add(net, 'one', None)
            add(vals, 'two', None)
    pc.write_hdf5_for_imported_list()
    pc.create_xml_for_imported_list_and_add_parts_to_model()
    g = grr.Grid(m, uuid = g.uuid)
    gpc = g.extract_property_collection()
    cell = tuple(np.array(spec['cell']) % np.array(s['n']))
    if used is not None:
        ctx.nontrivial()
    if isv:
        geo = quad_volume(scaled(cp, spec['crs'])) * (-1.0 if len(s.get('flip', '')) % 2 else 1.0)
        want = geo if used is None else used * V[spec['uom']]
        for uom in spec['req']:
            u = uom or default_uom(spec['crs']['z_units'])
            tol = 1e-6 * np.max(np.abs(want)) / V[u]
            if spec['one']:
                v = g.volume(cell_kji0 = cell, property_collection = gpc, required_uom = uom, cache_volume_array = spec['cache'])
                close(v, want[cell] / V[u], tol, f'volume of cell {cell} in {u} with a property in {spec["uom"]}')
            else:
                v = g.volume(property_collection = gpc, required_uom = uom, cache_volume_array = spec['cache'])
                arr_close(v, want / V[u], tol, f'volumes in {u} with a property in {spec["uom"]}')
        if used is not None:
            part = [p for p in gpc.parts() if np.allclose(gpc.cached_part_array_ref(p), used)]
            eq(len(part), 1, 'number of properties with the values of the volume property, after volumes were asked for')
    else:
        geo = np.abs(np.mean(cp[..., 1, :, :, 2] - cp[..., 0, :, :, 2], axis = (-1, -2)))
        want = geo if used is None else used
        if spec['one']:
            v = g.thickness(cell_kji0 = cell, property_collection = gpc, cache_thickness_array = spec['cache'])
            close(v, want[cell], 1e-6, f'thickness of cell {cell} with a property')
        else:
            v = g.thickness(property_collection = gpc)
            arr_close(v, want, 1e-6, 'thickness with a property')


SOLIDS = ['tetra', 'pyramid', 'wedge', 'hexa', 'octa', 'penta', 'dipyramid']
UN = st.fixed_dictionaries(dict(seed = seeds, solid = st.sampled_from(SOLIDS), crs = CRS, uom = st.sampled_from(UOMS), cls = st.booleans(), mirror = st.booleans(), g = G.grid_specs(max_k = 3, max_ji = 3, faults = False, gaps = False, undefined = False, inactive = False, pinch = False, flip = True), grid = st.booleans(), far = st.sampled_from([0.0, 1000.0])))


def solid(kind):
    """Returns nodes and faces (node cycles) of a convex polyhedron."""
    ring = lambda n: [(np.cos(2 * np.pi * t / n), np.sin(2 * np.pi * t / n)) for t in range(n)]
    if kind == 'tetra':
        return np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1.0)]), [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)]
    if kind in ('pyramid', 'octa', 'dipyramid'):
        n = 4 if kind != 'dipyramid' else 5
        r = ring(n)
        p = [(x, y, 0.0) for x, y in r] + [(0.1, 0.1, 1.0)]
        f = [(q, (q + 1) % n, n) for q in range(n)]
        if kind == 'pyramid':
            f = [tuple(range(n))] + f
        else:
            p.append((-0.1, 0.0, -0.7))
            f += [(q, (q + 1) % n, n + 1) for q in range(n)]
        return np.array(p), f
    n = dict(wedge = 3, hexa = 4, penta = 5)[kind]
    p = [(x, y, z) for z in (0.0, 1.0) for x, y in ring(n)]
    f = [tuple(range(n)), tuple(range(n, 2 * n))] + [(q, (q + 1) % n, n + (q + 1) % n, n + q) for q in range(n)]
    return np.array(p), f


def facing(p, cycle, centre):
    """True if the cycle of nodes is anticlockwise as seen from outside, in right handed axes."""
    q = p[list(cycle)]
    c = q.mean(axis = 0)
    nrm = sum(np.cross(q[a] - c, q[(a + 1) % len(q)] - c) for a in range(len(q)))
    return float(np.dot(nrm, c - centre)) > 0.0


@check('unstructured', UN, quick = 300, thorough = 10000, shards = 8, rule = 'every case')
def unstructured(spec, ctx):
    ctx.nontrivial()
    rng = np.random.default_rng(spec['seed'])
    m = ctx.new_model()
    crs_kw = dict(spec['crs'])
    crs = G.make_crs(m, crs_kw)
    same = crs_kw['xy_units'] == crs_kw['z_units'] and crs_kw['z_units'] in ('m', 'ft')
    du = crs_kw['z_units'] + '3' if same else 'm3'
    u = spec['uom'] or du
    if spec['grid']:
        s = spec['g']
        cp = G.corner_model(s)[0]
        g = G.build(m, s, crs.uuid, cp = cp)
        G.store(g)
        want = (quad_volume(scaled(cp, crs_kw)) * (-1.0 if len(s.get('flip', '')) % 2 else 1.0)).flatten()
        h = rug.HexaGrid.from_unsplit_grid(m, g.uuid, inherit_properties = False)
        tol = 1e-6 * np.max(np.abs(want))
        for c in range(len(want)):
            close(h.volume(c, required_uom = spec['uom']), want[c] / V[u], tol / V[u], f'volume of hexahedral cell {c}')
        arr_close(np.sort(h.corner_points(len(want) - 1), axis = 0), np.sort(cp.reshape(-1, 8, 3)[-1], axis = 0), 1e-6, 'corner points of a hexahedral cell')
        return
    p, faces = solid(spec['solid'])
    a = rng.uniform(-1.0, 1.0, (3, 3)) * 0.4 + np.diag(rng.uniform(1.0, 10.0, 3))
    p = p @ a.T + rng.uniform(-1.0, 1.0, 3) * spec['far']
    cell2 = p + rng.uniform(20.0, 50.0, 3)  # a second, separate cell
    if spec['mirror']:
        cell2[:, 0] = 2.0 * cell2[0, 0] - cell2[:, 0]
    pts = np.concatenate([p, cell2])
    perm = rng.permutation(len(pts))  # node numbers
    points = np.empty(pts.shape)
    points[perm] = pts
    cls = {'tetra': rug.TetraGrid, 'pyramid': rug.PyramidGrid, 'hexa': rug.HexaGrid, 'wedge': rug.PrismGrid}.get(spec['solid'], rug.UnstructuredGrid) if spec['cls'] else rug.UnstructuredGrid
    if cls is rug.UnstructuredGrid:
        g = cls(m, geometry_required = True, cell_shape = 'polyhedral', title = 'solid')
    else:
        g = cls(m, title = 'solid')
    g.crs_uuid = crs.uuid
    g.set_cell_count(2)
    all_faces, hands, order = [], [], []
    for c, q in ((0, p), (1, cell2)):
        for f in faces:
            f = list(f)
            k = int(rng.integers(0, len(f)))
            f = f[k:] + f[:k]
            if rng.random() < 0.5:
                f = f[::-1]
            # handedness: face nodes clockwise seen from within the cell, in the axes of the crs
            rh = facing(q, f, q.mean(axis = 0))
            all_faces.append([int(perm[x + c * len(p)]) for x in f])
            hands.append(rh)
    crs_rh = not crs_kw['z_inc_down']
    hands = np.array([x == crs_rh for x in hands])
    nf = len(faces)
    idx = rng.permutation(2 * nf)  # face numbers
    lst = [None] * (2 * nf)
    for q, f in enumerate(all_faces):
        lst[idx[q]] = f
    g.face_count = 2 * nf
    g.faces_per_cell_cl = np.array([nf, 2 * nf])
    sh = [rng.permutation(nf) for _ in (0, 1)]
    g.faces_per_cell = np.concatenate([idx[:nf][sh[0]], idx[nf:][sh[1]]])
    g.cell_face_is_right_handed = np.concatenate([hands[:nf][sh[0]], hands[nf:][sh[1]]])
    g.node_count = len(points)
    g.nodes_per_face_cl = np.cumsum([len(f) for f in lst])
    g.nodes_per_face = np.concatenate([np.array(f) for f in lst])
    g.points_cached = points
    f = np.array([M[crs_kw['xy_units']], M[crs_kw['xy_units']], M[crs_kw['z_units']]])
    for c, q in ((0, p), (1, cell2)):
        w = ConvexHull((q - q[0]) * f).volume
        if cls in (rug.TetraGrid, rug.PyramidGrid, rug.HexaGrid):
            close(g.volume(c, required_uom = spec['uom']), w / V[u], 1e-6 * w / V[u], f'volume of {spec["solid"]} cell {c} in {u}')
        else:
            close(g.volume(c), w / V[du], 1e-6 * w / V[du], f'volume of {spec["solid"]} cell {c}')
    if cls is rug.TetraGrid:
        close(g.grid_volume(), sum(ConvexHull((q - q[0]) * f).volume for q in (p, cell2)) / V[du], 1e-6 * w / V[du] * 3, 'volume of a tetrahedral grid')
