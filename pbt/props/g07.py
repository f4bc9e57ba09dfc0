"""Half cell transmissibilities of generated irregular grids (faulted, gapped, pinched out, partly without geometry), regular grids (tilted in any direction) and vertical prism grids are compared with a direct per face evaluation of permeability, net to gross, face area and distance; inter-cell values with the harmonic sum over the two half cells, in every multiplier mode, from properties of every supported form, and for arbitrary and generated connection sets with fractional areas and multipliers.

For cells which are not blocks the reference is the documented NEWTRAN form: projected areas of the two triangles of each face, dotted with the absolute half axis vector. Heights of vertical prism faces are only bounded where the two upright edges differ in length."""
import numpy as np
from scipy.spatial.transform import Rotation

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.fault as rqf
import resqpy.organize as rqo
import resqpy.property as rqp
import resqpy.rq_import as rqi
import resqpy.surface as rqs
import resqpy.unstructured as rug
import resqpy.olio.transmission as rqtr

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as G

DARCY = {'m': 8.527017e-5, 'ft': 1.127116e-3}
PERM = st.fixed_dictionaries(dict(seed = seeds, zeros = st.sampled_from([0.0, 0.0, 0.3]), scale = st.sampled_from([1.0, 100.0, 0.01])))


def perms(p, shape):
    rng = np.random.default_rng(p['seed'])
    out = []
    for _ in range(3):
        a = np.round(rng.uniform(1.0, 10.0, shape), 3) * p['scale']
        a[rng.random(shape) < p['zeros']] = 0.0
        out.append(a)
    return out  # K, J, I


def ntgs(seed, shape, form):
    rng = np.random.default_rng(seed + 1)
    if form == 'none':
        return None
    if form == 'float':
        return float(np.round(rng.uniform(0.1, 1.0), 3))
    a = np.round(rng.uniform(0.1, 1.0, shape), 3)
    a[rng.random(shape) < 0.1] = 0.0
    return a


def tri_proj(a, b, c):
    return 0.5 * np.abs(np.cross(b - a, c - a))


def face_nodes(cp, axis, polarity):
    """Four corners (..., 3) of a face, in cyclical order, of cell corner points (..., kp, jp, ip, 3)."""
    if axis == 0:
        f = cp[..., polarity, :, :, :]
    elif axis == 1:
        f = cp[..., :, polarity, :, :]
    else:
        f = cp[..., :, :, polarity, :]
    return f[..., 0, 0, :], f[..., 0, 1, :], f[..., 1, 1, :], f[..., 1, 0, :]


def reference(cp, perm, ntg, darcy, tol = 1.0e-6):
    """Half cell transmissibilities, shape (..., 3, 2), and half axis lengths, shape (..., 3)."""
    t = np.empty(cp.shape[:-4] + (3, 2))
    length = np.empty(cp.shape[:-4] + (3,))
    for axis in range(3):
        # from the mid point of the minus face to the mid point of the plus face, halved
        h = 0.5 * np.abs(sum(face_nodes(cp, axis, 1)) - sum(face_nodes(cp, axis, 0))) / 4.0
        length[..., axis] = np.linalg.norm(h, axis = -1)
        for polarity in range(2):
            a, b, c, d = face_nodes(cp, axis, polarity)
            area = tri_proj(a, b, c) + tri_proj(a, c, d)
            with np.errstate(all = 'ignore'):
                v = perm[axis] * np.sum(h * area, axis = -1) / length[..., axis]**2
            if axis and ntg is not None:
                v = v * ntg
            t[..., axis, polarity] = darcy * np.where(length[..., axis] < tol, np.nan, v)
    return t, length


def compare(got, want, length, defined, tol, what, rel = 1e-9):
    ok(got.shape == want.shape, f'shape of {what}', got.shape, want.shape)
    for cell in np.argwhere(defined):
        cell = tuple(int(x) for x in cell)
        for axis in range(3):
            ln = length[cell][axis]
            g_, w_ = got[cell][axis], want[cell][axis]
            if ln < 0.999 * tol:
                ok(np.all(np.isnan(g_)), f'{what}, axis {axis} of cell {cell} of half length {ln}: not a number expected', g_)
            elif ln > 1.001 * tol:
                arr_close(g_, w_, 1e-12 * max(1e-30, np.max(np.abs(w_))), f'{what}, axis {axis} of cell {cell}', max(rel, 1e-11 / ln))


def planar_faces(cp):
    for axis in range(3):
        for polarity in range(2):
            a, b, c, d = face_nodes(cp, axis, polarity)
            if np.max(np.abs(np.sum(np.cross(b - a, c - a) * (d - a), axis = -1))) > 1e-6:
                return False
    return True


HALF = st.fixed_dictionaries(dict(g = G.grid_specs(), crs = st.fixed_dictionaries(dict(u = st.sampled_from(['m', 'ft']), down = st.booleans())), perm = PERM, ntg = st.sampled_from(['none', 'float', 'array']),
                                  darcy = st.sampled_from([None, None, 1.0, 0.00852702]), tol = st.sampled_from([None, 1e-6, 0.3, 1.2]), factor = st.sampled_from([2.0, 0.5, 10.0]), store = st.booleans()))


@check('half', HALF, quick = 500, thorough = 20000, shards = 8, rule = 'the cells are not all boxes: noise, tilt, faults or pinches')
def half(spec, ctx):
    s = spec['g']
    crs_kw = dict(xy_units = spec['crs']['u'], z_units = spec['crs']['u'], z_inc_down = spec['crs']['down'])
    cp, active, defined, _ = G.corner_model(s)
    m = ctx.new_model()
    crs = G.make_crs(m, crs_kw)
    g = G.build(m, s, crs.uuid, cp = cp)
    G.store(g)
    if spec['store'] or not defined.all():
        m.store_epc()
        m = ctx.reopen(m)
        g = grr.Grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
    if any(k in s for k in ('noise', 'tilt', 'faults', 'pinch')):
        ctx.nontrivial()
    perm = perms(spec['perm'], s['n'])
    before = [p.copy() for p in perm]
    ntg = ntgs(spec['perm']['seed'], s['n'], spec['ntg'])
    kw = {}
    if spec['darcy'] is not None:
        kw['darcy_constant'] = spec['darcy']
    if spec['tol'] is not None:
        kw['tolerance'] = spec['tol']
    darcy = spec['darcy'] or DARCY[spec['crs']['u']]
    tol = spec['tol'] or 1e-6
    want, length = reference(cp, perm, ntg, darcy, tol)
    t = rqtr.half_cell_t(g, perm_k = perm[0], perm_j = perm[1], perm_i = perm[2], ntg = ntg, **kw)
    compare(t, want, length, defined, tol, 'half cell transmissibilities')
    if spec['darcy'] is not None:
        t2 = rqtr.half_cell_t_irregular(g, perm_k = perm[0], perm_j = perm[1], perm_i = perm[2], ntg = ntg, **kw)
        arr_close(t2, t, 0.0, 'half_cell_t_irregular')
    for p, b in zip(perm, before):
        arr_eq(p, b, 'permeability array changed')
    f = spec['factor']
    t2 = rqtr.half_cell_t(g, perm_k = f * perm[0], perm_j = f * perm[1], perm_i = f * perm[2], ntg = ntg, **kw)
    arr_close(t2[defined], f * t[defined], 0.0, f'half cell transmissibilities with permeability multiplied by {f}', 1e-9)
    # a grid with every length multiplied
    if defined.all() and 'pinch' not in s:
        g2 = rqi.grid_from_cp(m, f * cp, crs.uuid, ijk_handedness = G.handedness(s, crs_kw['z_inc_down']), max_z_void = 0.1 * f, split_tolerance = 0.01 * min(f, 1.0))
        kw2 = dict(kw, tolerance = tol * f)
        t2 = rqtr.half_cell_t(g2, perm_k = perm[0], perm_j = perm[1], perm_i = perm[2], ntg = ntg, **kw2)
        compare(t2, f * want, length * f, defined, tol * f, f'half cell transmissibilities with lengths multiplied by {f}')
        # reversed axes
        if planar_faces(cp):
            for ax in range(3):
                rc = np.flip(cp, (ax, ax + 3))
                hand = {'left': 'right', 'right': 'left'}[G.handedness(s, crs_kw['z_inc_down'])]
                g3 = rqi.grid_from_cp(m, rc.copy(), crs.uuid, ijk_handedness = hand, max_z_void = 0.1)
                fl = lambda a: np.flip(a, ax)
                n3 = fl(ntg) if isinstance(ntg, np.ndarray) else ntg
                t3 = rqtr.half_cell_t(g3, perm_k = fl(perm[0]), perm_j = fl(perm[1]), perm_i = fl(perm[2]), ntg = n3, **kw)
                back = fl(t3).copy()
                back[..., ax, :] = back[..., ax, ::-1]
                compare(back, want, length, defined, tol, f'half cell transmissibilities with axis {"KJI"[ax]} reversed')


BLOCK = st.fixed_dictionaries(dict(n = st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).map(list), d = st.lists(st.sampled_from([1.0, 2.5, 20.0, 100.0]), min_size = 3, max_size = 3), rot = st.sampled_from([None, None, 'any']),
                                   u = st.sampled_from(['m', 'ft']), down = st.booleans(), perm = PERM, ntg = st.sampled_from(['none', 'float', 'array']), darcy = st.sampled_from([None, None, 1.0]), prop = st.booleans()))


@check('blocks', BLOCK, quick = 300, thorough = 10000, rule = 'the blocks have different lengths in two directions')
def blocks(spec, ctx):
    m = ctx.new_model()
    crs = rqc.Crs(m, xy_units = spec['u'], z_units = spec['u'], z_inc_down = spec['down'])
    crs.create_xml()
    n, d = spec['n'], spec['d']  # d in order dx, dy, dz
    rng = np.random.default_rng(spec['perm']['seed'])
    axes = np.diag(d)[::-1].copy()  # rows k, j, i
    if spec['rot']:
        axes = Rotation.random(random_state = spec['perm']['seed']).apply(axes)
    if len(set(d)) > 1:
        ctx.nontrivial()
    g = grr.RegularGrid(m, extent_kji = n, dxyz_dkji = axes if spec['rot'] else None, dxyz = None if spec['rot'] else tuple(d), crs_uuid = crs.uuid)
    perm = perms(spec['perm'], n)
    ntg = ntgs(spec['perm']['seed'], n, spec['ntg'])
    darcy = spec['darcy'] or DARCY[spec['u']]
    kw = {} if spec['darcy'] is None else dict(darcy_constant = spec['darcy'])
    ln = [d[2], d[1], d[0]]
    want = np.empty(tuple(n) + (3,))
    for ax in range(3):
        area = np.prod(ln) / ln[ax]
        want[..., ax] = darcy * perm[ax] * (ntg if ax and ntg is not None else 1.0) * area / (0.5 * ln[ax])
    t = rqtr.half_cell_t(g, perm_k = perm[0], perm_j = perm[1], perm_i = perm[2], ntg = ntg, **kw)
    arr_close(t, want, 0.0, 'half cell transmissibilities of a regular grid', 1e-9)
    cp = g.corner_points(cache_cp_array = True)
    i = np.arange(2)
    gi = rqi.grid_from_cp(m, cp.copy(), crs.uuid, ijk_handedness = None)
    ti = rqtr.half_cell_t(gi, perm_k = perm[0], perm_j = perm[1], perm_i = perm[2], ntg = ntg, **kw)
    arr_close(ti, np.stack([want] * 2, axis = -1), 0.0, 'half cell transmissibilities of the irregular form of a regular grid', 1e-7)
    if spec['prop'] and not spec['rot']:
        g.write_hdf5()
        if spec['rot']:
            g.create_xml(write_geometry = True, use_lattice = False, add_cell_length_properties = False)
        else:
            g.create_xml(add_cell_length_properties = False)
        pc = rqp.PropertyCollection(support = g)
        put_basic(pc, perm, ntg)
        flush(pc)
        if not spec['rot']:
            g = grr.RegularGrid(m, uuid = g.uuid)
        th = g.half_cell_transmissibility()
        wh = np.stack([want * (DARCY[spec['u']] / darcy)] * 2, axis = -1)
        arr_close(th, wh, 0.0, 'RegularGrid.half_cell_transmissibility', 1e-6)
        tk, tj, ti = g.transmissibility()
        ref = inter_cell(wh, None)
        for got, w, a in zip((tk, tj, ti), ref, 'KJI'):
            arr_close(got, w, 0.0, f'{a} transmissibilities of a regular grid', 1e-6)


def put(pc, a, title, kind, ft = None, f = None, idx = 'cells', count = 1, uom = None, r = None):
    pc.add_cached_array_to_imported_list(np.array(a), 'check', title, False, uom, property_kind = kind, facet_type = ft, facet = f, indexable_element = idx, count = count, realization = r)


def put_basic(pc, perm, ntg, share = False, r = None, k_too = True):
    if share:
        put(pc, perm[0], 'k', 'permeability rock', uom = 'mD', r = r)
    else:
        for p, a in zip(perm, 'KJI'):
            put(pc, p, 'k' + a, 'permeability rock', 'direction', a, uom = 'mD', r = r)
    if ntg is not None:
        put(pc, ntg if isinstance(ntg, np.ndarray) else np.full(perm[0].shape, ntg), 'ntg', 'net to gross ratio', uom = 'm3/m3', r = r)


def resqml_faces(a):
    return np.stack([a[..., ax, p] for ax, p in ((0, 0), (0, 1), (1, 0), (2, 1), (1, 1), (2, 0))], axis = -1)


def flush(pc):
    pc.write_hdf5_for_imported_list()
    pc.create_xml_for_imported_list_and_add_parts_to_model()


def inter_cell(ht, split, gaps = (), mult = None, absolute = None, tol = 1e-6):
    """Inter cell transmissibilities by the harmonic sum; split: boolean (nj - 1, ni) and (nj, ni - 1) arrays or None."""
    nk, nj, ni = ht.shape[:3]
    out = [np.zeros((nk + 1, nj, ni)), np.zeros((nk, nj + 1, ni)), np.zeros((nk, nj, ni + 1))]
    for axis in range(3):
        for cell in np.ndindex(nk, nj, ni):
            other = list(cell)
            other[axis] += 1
            other = tuple(other)
            if other[axis] >= ht.shape[axis]:
                continue
            if axis == 0 and cell[0] in gaps:
                continue
            if axis == 1 and split is not None and split[0] is not None and split[0][cell[1], cell[2]]:
                continue
            if axis == 2 and split is not None and split[1] is not None and split[1][cell[1], cell[2]]:
                continue
            a, b = ht[cell][axis, 1], ht[other][axis, 0]
            if not (a >= tol and b >= tol):
                continue
            third = 0.0
            if absolute is not None and absolute[axis] is not None:
                v = absolute[axis][other]
                if v <= 0.0:
                    continue
                if np.isfinite(v):
                    third = 1.0 / v
            k = 1.0
            if mult is not None and mult[axis] is not None:
                k = mult[axis][other]
                if np.isnan(k):
                    continue
            out[axis][other] = k / (1.0 / a + third + 1.0 / b)
    return out


TR = st.fixed_dictionaries(dict(g = G.grid_specs(max_k = 3, max_ji = 3), u = st.sampled_from(['m', 'ft']), perm = PERM, ntg = st.sampled_from(['none', 'array']), share = st.booleans(), real = st.sampled_from([None, None, 0, 2]),
                                mult = st.sampled_from([None, 'split', 'split', 'composite', 'some']), cell_mult = st.booleans(), absolute = st.sampled_from([None, 'fault', 'mat', 'mat_plain']), half_prop = st.sampled_from([False, False, True]),
                                tr_prop = st.sampled_from([None, None, None, 'split', 'composite', 'some']), tol = st.sampled_from([None, None, 1e-2, 1.0]), seed = seeds,
                                calls = st.lists(st.tuples(st.sampled_from([None, None, 'faces multiplier', 'faces per cell multiplier', 'absolute']), st.booleans()).map(list), min_size = 1, max_size = 3)))


@check('grid', TR, quick = 400, thorough = 20000, shards = 8, rule = 'more than one cell, and a multiplier or faulted, gapped or pinched out grid')
def grid(spec, ctx):
    s = spec['g']
    n = nk, nj, ni = s['n']
    cp, active, defined, gap_after = G.corner_model(s)
    m = ctx.new_model()
    crs = G.make_crs(m, dict(xy_units = spec['u'], z_units = spec['u']))
    g = G.build(m, s, crs.uuid, cp = cp)
    G.store(g)
    rng = np.random.default_rng(spec['seed'])
    perm = perms(spec['perm'], n)
    if spec['share']:
        perm = [perm[0]] * 3
    ntg = ntgs(spec['perm']['seed'], n, spec['ntg'])
    r = spec['real']
    pc = rqp.PropertyCollection(support = g)
    put_basic(pc, perm, ntg, spec['share'], r)
    if r is not None:  # another realization, which must not be used
        put_basic(pc, [7.0 * p + 1.0 for p in perm], ntg, spec['share'], r + 1)
    shapes = [(nk + 1, nj, ni), (nk, nj + 1, ni), (nk, nj, ni + 1)]
    forms = []

    def faces(form, kind, lo, hi, nans, r):
        if form is None:
            return None
        out = []
        for sh in shapes:
            a = np.round(rng.uniform(lo, hi, sh), 3)
            a[rng.random(sh) < 0.2] = 0.0
            if nans:
                a[rng.random(sh) < 0.1] = np.nan
            out.append(a)
        if form == 'composite':
            put(pc, np.concatenate([a.flatten() for a in out]), kind + ' c', kind, idx = 'faces', r = r)
        else:
            for x, (a, d) in enumerate(zip(out, 'KJI')):
                if form == 'some' and x == spec['seed'] % 3:
                    out[x] = None
                    continue
                put(pc, a, kind + d, kind, 'direction', d, idx = 'faces', r = r)
        return out

    mult = faces(spec['mult'], 'transmissibility multiplier', 0.0, 2.0, True, r)
    trp = faces(spec['tr_prop'], 'transmissibility', 0.0, 50.0, False, r)
    cm = None
    if spec['cell_mult']:
        cm = np.round(rng.uniform(0.0, 2.0, tuple(n) + (3, 2)), 3)
        put(pc, resqml_faces(cm), 'cell mult', 'transmissibility multiplier', idx = 'faces per cell', r = r)
    hp = None
    if spec['half_prop']:
        hp = np.round(rng.uniform(0.0, 9.0, tuple(n) + (3, 2)), 3)
        hp[rng.random(hp.shape) < 0.1] = np.nan
        put(pc, resqml_faces(hp), 'half', 'transmissibility', idx = 'faces per cell', r = r)
    absolute = None
    if spec['absolute']:
        absolute = []
        for sh, d in zip(shapes, 'KJI'):
            a = np.round(rng.uniform(0.0, 2.0, sh), 3)
            a[rng.random(sh) < 0.2] = 0.0
            a[rng.random(sh) < 0.2] = np.inf
            a[rng.random(sh) < 0.2] = np.nan
            absolute.append(a)
            if d == 'K' and spec['absolute'] == 'mat':
                put(pc, a, 'abs', 'mat transmissibility', 'direction', 'K', idx = 'faces', r = r)
                put(pc, a + 3.0, 'abs f', 'fault transmissibility', 'direction', 'K', idx = 'faces', r = r)
            elif d == 'K' and spec['absolute'] == 'mat_plain':
                put(pc, a, 'abs', 'mat transmissibility', 'direction', 'K', idx = 'faces', r = r)
            else:
                put(pc, a, 'abs' + d, 'fault transmissibility', 'direction', d, idx = 'faces', r = r)
    flush(pc)
    m.store_epc()
    m = ctx.reopen(m)
    g = grr.Grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
    if np.prod(n) > 1 and (mult or cm is not None or absolute or any(k in s for k in ('faults', 'gaps', 'pinch'))):
        ctx.nontrivial()
    geo, length = reference(cp, perm, ntg, DARCY[spec['u']])
    near = np.any(np.abs(length - 1e-6) < 1e-8)
    js, is_ = g.split_column_faces()
    split = (js, is_)
    kga = set(gap_after)
    tol = spec['tol'] or 1e-6
    kw = {} if spec['tol'] is None else dict(tolerance = spec['tol'])
    geo[~defined] = np.nan
    for mode, use in spec['calls']:
        what = f'mode {mode}, {"with" if use else "without"} use of properties'
        ht = hp if (use and hp is not None) else geo
        th = g.half_cell_transmissibility(use_property = use, realization = r)
        w = ht if ht is hp else geo
        arr_close(th[defined], w[defined], 1e-30, f'half cell transmissibilities, {"with" if use else "without"} use of properties', 1e-6)
        ht = ht.copy()
        if mode == 'faces per cell multiplier' and cm is not None:
            ht = ht * cm
        # values close to the tolerance may go either way
        if np.any(np.abs(ht / tol - 1.0) < 1e-6):
            continue
        ht[~defined] = 0.0
        want = inter_cell(ht, split, kga, mult if mode == 'faces multiplier' else None, absolute if mode == 'absolute' else None, tol)
        if use and trp is not None:
            want = [w if t is None else t for t, w in zip(trp, want)]
        got = g.transmissibility(use_tr_properties = use, realization = r, modifier_mode = mode, **kw)
        eq(len(got), 3, 'number of transmissibility arrays')
        for a, b, d in zip(got, want, 'KJI'):
            ok(a.shape == b.shape, f'shape of {d} transmissibilities', a.shape, b.shape)
            bad = ~np.isclose(a, b, 1e-6, 1e-12 * max(1.0, float(np.max(np.abs(b), initial = 0.0))))
            # faces of cells without geometry are not looked at
            nd = np.zeros(b.shape, dtype = bool)
            for c in np.argwhere(~defined):
                c = [int(x) for x in c]
                nd[tuple(c)] = True
                c['KJI'.index(d)] += 1
                nd[tuple(c)] = True
            bad &= ~nd
            if bad.any():
                i = tuple(int(x) for x in np.argwhere(bad)[0])
                fail(f'{d} transmissibility {i}, {what}: got {a[i]}, expected {b[i]}')


SET = st.fixed_dictionaries(dict(n = st.lists(st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3)).map(list), min_size = 1, max_size = 2), regular = st.booleans(), perm = PERM, seed = seeds, count = st.integers(1, 12), features = st.integers(1, 3),
                                 fa = st.sampled_from([None, 'one', 'any']), tols = st.sampled_from([None, None, [0.3, 0.5]]), apply = st.booleans(), prop = st.booleans(), fmult = st.booleans(), u = st.sampled_from(['m', 'ft']), store = st.booleans()))


@check('sets', SET, quick = 300, thorough = 10000, shards = 4, rule = 'at least two face pairs with transmissibility')
def sets(spec, ctx):
    m = ctx.new_model()
    crs = rqc.Crs(m, xy_units = spec['u'], z_units = spec['u'])
    crs.create_xml()
    rng = np.random.default_rng(spec['seed'])
    grids, hts = [], []
    for x, n in enumerate(spec['n']):
        d = np.round(rng.uniform(5.0, 50.0, 3), 2)
        ps = perms(dict(spec['perm'], seed = spec['perm']['seed'] + x), n)
        if spec['regular']:
            g = grr.RegularGrid(m, extent_kji = n, dxyz = tuple(d), crs_uuid = crs.uuid, title = f'g{x}')
            cp = g.corner_points(cache_cp_array = True).copy()
            g.write_hdf5()
            g.create_xml(add_cell_length_properties = False)
        else:
            cp = G.corner_model(dict(n = n, d = [float(v) for v in d], o = [0.0, 0.0, 0.0], seed = spec['seed'], noise = [0.1, 0.2]))[0]
            g = rqi.grid_from_cp(m, cp.copy(), crs.uuid, max_z_void = 0.1)
            G.store(g, f'g{x}')
        pc = rqp.PropertyCollection(support = g)
        put_basic(pc, ps, None)
        flush(pc)
        g = grr.any_grid(m, uuid = g.uuid)
        grids.append(g)
        hts.append(reference(cp, ps, None, DARCY[spec['u']])[0])
    feats = []
    fm = []
    for f in range(spec['features']):
        tbf = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = f'f{f}')
        tbf.create_xml()
        fm.append(float(np.round(rng.uniform(0.0, 3.0), 2)))
        fi = rqo.FaultInterpretation(m, tectonic_boundary_feature = tbf, is_normal = True, title = f'f{f}', extra_metadata = {'Transmissibility multiplier': str(fm[f])} if spec['fmult'] else None)
        fi.create_xml(tbf.root)
        feats.append(fi)
    count = spec['count']
    gcs = rqf.GridConnectionSet(m, grid = grids[0], title = 'set')
    gcs.grid_list = grids
    gip = rng.integers(0, len(grids), (count, 2))
    gcs.grid_index_pairs = gip if len(grids) > 1 else None
    gcs.count = count
    gcs.cell_index_pairs = np.array([[rng.integers(0, grids[a].cell_count()) for a in row] for row in gip])
    gcs.face_index_pairs = rng.integers(0, 6, (count, 2))
    gcs.feature_indices = rng.integers(0, len(feats), count)
    gcs.feature_list = [('obj_FaultInterpretation', fi.uuid, fi.title) for fi in feats]
    gcs.write_hdf5()
    gcs.create_xml()
    pm = None
    if spec['prop']:
        pm = np.round(rng.uniform(0.0, 2.0, count), 3)
        pc = rqp.PropertyCollection()
        pc.set_support(support = gcs)
        pc.add_cached_array_to_imported_list(pm, 'check', 'mult', False, None, property_kind = 'transmissibility multiplier', indexable_element = 'faces')
        flush(pc)
    uuid = gcs.uuid
    if spec['store']:
        m.store_epc()
        m = ctx.reopen(m)
    gcs = rqf.GridConnectionSet(m, uuid = uuid)
    fa = None
    if spec['fa'] == 'one':
        fa = np.ones((count, 2))
    elif spec['fa']:
        fa = np.round(rng.uniform(0.0, 1.0, (count, 2)), 3)
        fa[rng.random(count) < 0.2] = 0.0
    kw = {}
    tfa, tht = 0.0001, 1.0e-5
    if spec['tols']:
        tfa, tht = spec['tols']
        kw = dict(tol_fa = tfa, tol_half_t = tht)
    if spec['apply'] and (spec['prop'] or spec['fmult']):
        kw['apply_multipliers'] = True
    t = gcs.tr_property_array(fa, **kw)
    eq(t.shape, (count,), 'shape of the transmissibilities')
    order = [[str(x.uuid) for x in grids].index(str(x.uuid)) for x in gcs.grid_list]
    eq(sorted(order), list(range(len(grids))), 'grids of the set')
    n_some = 0
    for e in range(count):
        h = []
        for p in range(2):
            gi = gip[e, p]
            cell = np.unravel_index(gcs.cell_index_pairs[e, p], spec['n'][gi])
            axis, pol = gcs.face_index_inverse_map[gcs.face_index_pairs[e, p]]
            h.append(hts[gi][tuple(cell)][axis, pol])
        want = 0.0
        f = [1.0, 1.0] if fa is None else fa[e]
        if min(h) >= tht and min(f) >= tfa:
            want = 1.0 / (1.0 / (h[0] * f[0]) + 1.0 / (h[1] * f[1]))
            if kw.get('apply_multipliers'):
                if pm is not None:
                    want *= pm[e]
                elif spec['fmult']:
                    want *= fm[int(gcs.feature_indices[e])]
        n_some += want > 0.0
        if min(abs(h[0] / tht - 1.0), abs(h[1] / tht - 1.0), abs(f[0] / tfa - 1.0), abs(f[1] / tfa - 1.0)) < 1e-6:
            continue
        close(t[e], want, 1e-12 * max(h), f'transmissibility of face pair {e}', 1e-6)
    if n_some > 1:
        ctx.nontrivial()


FC = st.fixed_dictionaries(dict(g = G.grid_specs(max_k = 4, max_ji = 3, noise = False, undefined = False), extra = st.lists(st.tuples(st.sampled_from(['j', 'i', 'gap', 'gap', 'pinch']), st.integers(0, 2), st.sampled_from([1.0, -0.7, 3.0])).map(list), max_size = 2), u = st.sampled_from(['m', 'ft']), perm = PERM, calls = st.lists(st.tuples(st.sampled_from(['fault', 'pinch', 'gap']), st.booleans(), st.sampled_from([True, True, False]), st.booleans()).map(list), min_size = 1, max_size = 5)))


@check('juxtaposed', FC, quick = 250, thorough = 10000, shards = 8, rule = 'some connection has a transmissibility')
def juxtaposed(spec, ctx):
    s = dict(spec['g'])
    for what, at, v in spec['extra']:
        if what in 'ji':
            size, other = (s['n'][1], s['n'][2]) if what == 'j' else (s['n'][2], s['n'][1])
            if size > 1:
                s['faults'] = list(s.get('faults', [])) + [[what, 1 + at % (size - 1), v, 0, other, 0]]
        elif what == 'gap' and s['n'][0] > 1 and 'gaps' not in s:
            s['gaps'] = [[at % (s['n'][0] - 1), abs(v)]]
            s['gap_part'] = True
        elif what == 'pinch' and 'pinch' not in s:
            s['pinch'] = 0.4
            s['pinch_cells'] = True
    cp, active, defined, gap_after = G.corner_model(s)
    m = ctx.new_model()
    crs = G.make_crs(m, dict(xy_units = spec['u'], z_units = spec['u']))
    g = G.build(m, s, crs.uuid, cp = cp)
    G.store(g)
    perm = perms(spec['perm'], s['n'])
    pc = rqp.PropertyCollection(support = g)
    put_basic(pc, perm, None)
    flush(pc)
    uuid = g.uuid
    g = grr.Grid(m, uuid = uuid)
    ht = reference(cp, perm, None, DARCY[spec['u']])[0]
    for kind, skip, compute, add in spec['calls']:
        kw = dict(skip_inactive = skip, compute_transmissibility = compute, add_to_model = add)
        fresh = grr.Grid(m, uuid = uuid)  # has nothing cached
        fn = dict(fault = 'fault_connection_set', pinch = 'pinchout_connection_set', gap = 'k_gap_connection_set')[kind]
        ref, _ = getattr(fresh, fn)(skip_inactive = skip)
        gcs, t = getattr(g, fn)(**kw)
        if ref is None or ref.count == 0:
            ok(gcs is None or gcs.count == 0, f'{kind} connection set expected to be empty', gcs)
            continue
        ok(gcs is not None, f'no {kind} connection set')
        arr_eq(gcs.cell_index_pairs, ref.cell_index_pairs, f'cells of the {kind} connections, skip inactive {skip}')
        arr_eq(gcs.face_index_pairs, ref.face_index_pairs, f'faces of the {kind} connections')
        if not compute:
            if t is not None:
                eq(len(t), gcs.count, f'number of {kind} transmissibilities')
            continue
        eq(t.shape, (gcs.count,), f'shape of the {kind} transmissibilities')
        fa = fresh.fgcs_fractional_area if kind == 'fault' else None
        for e in range(gcs.count):
            h = []
            for p in range(2):
                cell = tuple(int(x) for x in g.denaturalized_cell_index(gcs.cell_index_pairs[e, p]))
                axis, pol = gcs.face_index_inverse_map[gcs.face_index_pairs[e, p]]
                h.append(ht[cell][axis, pol])
            want = 0.0
            f = [1.0, 1.0] if fa is None else fa[e]
            if h[0] >= 1e-5 and h[1] >= 1e-5 and min(f) >= 0.0001:
                want = 1.0 / (1.0 / (h[0] * f[0]) + 1.0 / (h[1] * f[1]))
                ctx.nontrivial()
            if min(abs(np.array(h) / 1e-5 - 1.0)) < 1e-6 or min(abs(np.array(f) / 0.0001 - 1.0)) < 1e-6:
                continue
            close(t[e], want, 1e-12, f'{kind} transmissibility of face pair {e}', 1e-6)
        if add:
            p = m.uuid(obj_type = 'GridConnectionSetRepresentation', uuid = gcs.uuid)
            ok(p is not None, f'{kind} connection set is not in the model')
            again = rqf.GridConnectionSet(m, uuid = gcs.uuid)
            again.cache_arrays()
            arr_eq(again.cell_index_pairs, gcs.cell_index_pairs, 'stored cells of the connections')
            tp = again.extract_property_collection()
            tv = None if tp is None else tp.single_array_ref(property_kind = 'transmissibility')
            ok(tv is not None, f'no transmissibility property for the {kind} connection set')
            arr_close(tv, t, 1e-12, 'stored transmissibilities', 1e-6)


PRISM = st.fixed_dictionaries(dict(nx = st.integers(1, 3), ny = st.integers(1, 3), jit = st.booleans(), z = st.lists(st.sampled_from([1.0, 5.0, 20.0]), min_size = 1, max_size = 3), dip = st.sampled_from([None, None, 'all', 'each']), u = st.sampled_from(['m', 'ft']), down = st.booleans(), seed = seeds, perm = PERM,
                                   form = st.sampled_from(['args', 'iso', 'horizontal', 'pair', 'pair_azi']), ntg = st.booleans(), pk = st.booleans(), azi = st.sampled_from([0.0, 30.0, 90.0, 200.0]), store = st.booleans(), half_prop = st.sampled_from([False, False, True])))


@check('prisms', PRISM, quick = 250, thorough = 10000, shards = 4, rule = 'more than one column')
def prisms(spec, ctx):
    rng = np.random.default_rng(spec['seed'])
    m = ctx.new_model()
    crs = rqc.Crs(m, xy_units = spec['u'], z_units = spec['u'], z_inc_down = spec['down'])
    crs.create_xml()
    nx, ny = spec['nx'], spec['ny']
    x, y = np.meshgrid(np.arange(nx + 1) * 10.0, np.arange(ny + 1) * 8.0)
    p = np.stack((x.flatten(), y.flatten()), axis = -1)
    if spec['jit']:
        p += np.round(rng.uniform(-2.0, 2.0, p.shape), 2)
    t = []
    for j in range(ny):
        for i in range(nx):
            q = [j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i]
            r = int(rng.integers(0, 2)) if spec['jit'] else 0
            q = q[r:] + q[:r]
            for tri in ([q[0], q[1], q[2]], [q[0], q[2], q[3]]):
                r = int(rng.integers(0, 3)) if spec['jit'] else 0
                tri = tri[r:] + tri[:r]
                if spec['jit'] and rng.random() < 0.5:
                    tri = tri[::-1]
                t.append(tri)
    t = np.array(t)
    sgn = 1.0 if spec['down'] else -1.0
    surfs, planes = [], []
    z = 1000.0
    grad = np.zeros(2)
    for q, dz in enumerate([0.0] + list(spec['z'])):
        z += dz
        if spec['dip'] == 'all' and q == 0:
            grad = np.array([0.1, -0.05])
        elif spec['dip'] == 'each':
            grad = np.round(rng.uniform(-0.01, 0.01, 2), 3)
        planes.append((z, grad))
        big = np.array([(-211.0, -187.0), (219.0, -203.0), (231.0, 217.0), (-197.0, 209.0)])
        sp = np.concatenate((big, sgn * (z + big @ grad).reshape(-1, 1)), axis = 1)
        s = rqs.Surface(m, crs_uuid = crs.uuid, title = f's{q}')
        s.set_from_triangles_and_points(np.array([(0, 1, 2), (0, 2, 3)]), sp)
        surfs.append(s)
    g = rug.VerticalPrismGrid.from_surfaces(m, surfs, column_points = p, column_triangles = t, title = 'prisms')
    nk = len(spec['z'])
    if len(t) > 2:
        ctx.nontrivial()
    nc = nk * len(t)
    depth = np.array([zz + p @ gr for zz, gr in planes])  # (nk + 1, points)
    if np.any(np.diff(depth, axis = 0) <= 0.2):
        ctx.label('crossing')
        return
    perm = perms(spec['perm'], (nc,))
    kh, ko = perm[2], perm[1]
    pk = perm[0] if spec['pk'] else None
    ntg = np.round(rng.uniform(0.1, 1.0, nc), 3) if spec['ntg'] else None
    form = spec['form']
    hp = None
    g.write_hdf5()
    g.create_xml()
    if form != 'args' and nk > 0:
        pc = rqp.PropertyCollection()
        pc.set_support(support = g)
        if form == 'iso':
            put(pc, kh, 'k', 'rock permeability', uom = 'mD')
            pk = None
        elif form == 'horizontal':
            put(pc, kh, 'kh', 'rock permeability', 'direction', 'horizontal', uom = 'mD')
            put(pc, perm[0], 'kk', 'rock permeability', 'direction', 'K', uom = 'mD')
            pk = perm[0]
        else:
            put(pc, kh, 'kp', 'rock permeability', 'direction', 'primary', uom = 'mD')
            put(pc, ko, 'ko', 'rock permeability', 'direction', 'orthogonal', uom = 'mD')
            if spec['pk']:
                put(pc, perm[0], 'kk', 'rock permeability', 'direction', 'K', uom = 'mD')
            if form == 'pair_azi':
                put(pc, np.full(nc, spec['azi']), 'azi', 'plane angle', 'direction', 'primary', uom = 'dega')
        if ntg is not None:
            put(pc, ntg, 'ntg', 'net to gross ratio', uom = 'm3/m3')
        if spec['half_prop']:
            hp = np.round(rng.uniform(0.0, 5.0, (nc, 5)), 3)
            put(pc, hp.flatten(), 'half', 'transmissibility', idx = 'faces per cell')
        flush(pc)
    if spec['store']:
        m.store_epc()
        m = ctx.reopen(m)
    if spec['store'] or form != 'args':
        g = rug.VerticalPrismGrid(m, uuid = g.uuid)
    if form == 'args':
        got = rqtr.half_cell_t_vertical_prism(g, triple_perm_horizontal = np.stack([kh] * 3, axis = -1), perm_k = pk, ntg = ntg)
    else:
        got = g.half_cell_transmissibility()
        if hp is not None:
            arr_close(got, hp, 1e-9, 'half cell transmissibilities from a property', 1e-6)
            got = g.half_cell_transmissibility(use_property = False)
    eq(got.shape, (nc, 5), 'shape of the half cell transmissibilities of a prism grid')
    darcy = DARCY[spec['u']]
    pts = g.points_ref()
    azi = math.radians(spec['azi'] if form == 'pair_azi' else 0.0)
    pair = form.startswith('pair')
    hk = None
    for c in range(nc):
        k, col = divmod(c, len(t))
        tri = p[t[col]]
        area = 0.5 * abs(float(np.cross(tri[1] - tri[0], tri[2] - tri[0])))
        hs = depth[k + 1][t[col]] - depth[k][t[col]]
        thick = float(np.mean(hs))
        faces = g.face_indices_for_cell(c)
        centre = np.mean(tri, axis = 0)
        kks = []
        for f in range(3):
            nodes = sorted(set(tuple(np.round(q[:2], 6)) for q in pts[g.node_indices_for_face(faces[2 + f])]))
            eq(len(nodes), 2, 'distinct xy positions of the nodes of an upright face')
            a, b = np.array(nodes[0]), np.array(nodes[1])
            v = 0.5 * (a + b) - centre
            dist = float(np.linalg.norm(v))
            width = abs(float(np.cross(b - a, v))) / dist
            base = darcy * width / dist * (1.0 if ntg is None else ntg[c])
            fh = [hs[q] for q in range(3) if any(np.allclose(tri[q], e, atol = 1e-5) for e in (a, b))]
            lo, hi = min(min(fh), thick), max(max(fh), thick)
            if pair:
                kk = got[c, 2 + f] / (base * thick)
                th = math.atan2(v[0], v[1]) - azi
                kks.append((math.cos(th)**2, kk))
                x0, x1 = min(kh[c], ko[c]), max(kh[c], ko[c])
                ok((x0 * lo / thick) * (1 - 1e-6) - 1e-9 <= kk <= (x1 * hi / thick) * (1 + 1e-6) + 1e-9, f'transmissibility of face {f} of cell {c}: permeability outwith {x0} to {x1}', kk)
                if hi / lo < 1.0 + 1e-9:
                    arg = math.cos(th)**2
                    for at, val in ((1.0, kh[c]), (0.0, ko[c])):
                        if abs(arg - at) < 1e-9:
                            close(kk, val, 1e-6, f'transmissibility of face {f} of cell {c}, in a principal direction', 1e-6)
            else:
                w0, w1 = kh[c] * base * lo, kh[c] * base * hi
                ok(w0 * (1 - 1e-6) <= got[c, 2 + f] <= w1 * (1 + 1e-6), f'half cell transmissibility of upright face {f} of cell {c} outwith {w0} to {w1}', got[c, 2 + f])
        if pair and hs.max() - hs.min() < 1e-9 and abs(kh[c] - ko[c]) > 1e-6:
            # the closer to the primary direction, the closer to the primary permeability
            kks.sort()
            for (a0, v0), (a1, v1) in zip(kks[:-1], kks[1:]):
                if a1 - a0 > 1e-6:
                    ok((v1 - v0) * (kh[c] - ko[c]) >= -1e-9 * max(kh[c], ko[c]), f'permeabilities of cell {c} not ordered by direction', kks)
        kv = (pk[c] if pk is not None else kh[c] if not pair else None)
        if kv is not None:
            w = darcy * kv * area / (0.5 * thick)
            arr_close(got[c, :2], np.array([w, w]), 1e-12, f'half cell transmissibility of the top and base of cell {c}', 1e-6)
