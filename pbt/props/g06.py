"""Faulted grids (several faults with constant and hinged throws along straight parallel pillars, layers of varying thickness, pinched out cells, zero and non-zero layer gaps, inactive cells and cells without geometry) are generated. Split column faces and throws are compared with the generated corner points; the fault connection set with the exact overlap of every pair of faces on the pillar pair, found by integrating the overlap between the horizons; pinch-out and layer gap connection sets with the contacts found by scanning the columns. Symmetric under reversal of axes.

Fractions are compared exactly unless a horizon on one side crosses both horizons of the other (documented approximation), in which case only bounds are checked."""
import numpy as np

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.fault as rqf
import resqpy.property as rqp
import resqpy.rq_import as rqi
import resqpy.olio.transmission as rqtr

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as G

FC = st.fixed_dictionaries(dict(g = G.grid_specs(max_k = 5, noise = False, tilt = False), nz = st.sampled_from([0.0, 0.0, 0.3]), tilt = st.sampled_from([None, None, [0.3, 0.0], [-0.2, 0.4]]), crs = st.fixed_dictionaries(dict(xy_units = st.sampled_from(['m', 'ft']), z_units = st.sampled_from(['m', 'ft']), z_inc_down = st.booleans())),
                                skip = st.booleans(), store = st.booleans(), method = st.booleans(), extra = st.lists(st.tuples(st.sampled_from('ji'), st.integers(0, 2), st.sampled_from([0.3, 1.5, -0.7, 4.0, 6.0])), max_size = 2)))


def overlap(m, p):
    """Area of overlap of two faces and whether each fraction is exact; (top, bottom) at pillars a and b: [[ta, ba], [tb, bb]]."""
    lines = [np.array([m[0][0], m[1][0]]), np.array([m[0][1], m[1][1]]), np.array([p[0][0], p[1][0]]), np.array([p[0][1], p[1][1]])]
    xs = [0.0, 1.0]
    crossed, touched = np.zeros((4, 4), dtype = bool), np.zeros((4, 4), dtype = bool)
    for a in range(4):
        for b in range(a):
            d = lines[a] - lines[b]
            touched[a, b] = touched[b, a] = np.min(np.abs(d)) < 2e-3 or d[0] * d[1] < 0.0
            if d[0] * d[1] < 0.0:
                xs.append(d[0] / (d[0] - d[1]))
                crossed[a, b] = crossed[b, a] = True
    xs = sorted(xs)
    at = lambda q, x: q[0] + (q[1] - q[0]) * x
    h = lambda x: max(0.0, min(at(lines[1], x), at(lines[3], x)) - max(at(lines[0], x), at(lines[2], x)))
    area = sum(0.5 * (h(u) + h(v)) * (v - u) for u, v in zip(xs[:-1], xs[1:]))
    inexact_m = any((crossed[q, 0] and touched[q, 1]) or (touched[q, 0] and crossed[q, 1]) for q in (2, 3))
    inexact_p = any((crossed[q, 2] and touched[q, 3]) or (touched[q, 2] and crossed[q, 3]) for q in (0, 1))
    return area, inexact_m, inexact_p


def spec_grid(spec):
    s = dict(spec['g'])
    if spec['nz']:
        s['noise'] = [0.0, spec['nz']]
    if spec['tilt']:
        s['tilt'] = spec['tilt']
    n = s['n']
    fs = list(s.get('faults', []))
    for ax, at, t in spec['extra']:
        size, other = (n[1], n[2]) if ax == 'j' else (n[2], n[1])
        if size > 1:
            fs.append([ax, 1 + at % (size - 1), t, 0, other, 0])
    if fs:
        s['faults'] = fs
    return s


def get(spec, ctx, s):
    cp, active, defined, _ = G.corner_model(s)
    m = ctx.new_model()
    crs = G.make_crs(m, spec['crs'])
    g = G.build(m, s, crs.uuid, cp = cp)
    G.store(g, 'faulted')
    if spec['store'] or not defined.all():
        m.store_epc()
        m = ctx.reopen(m)
        g = grr.Grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
    return m, g, cp, active, defined


def pairs_of(gcs, g):
    """Returns a list of ((cell, axis, polarity), (cell, axis, polarity)) for a connection set."""
    out = []
    for (ca, cb), (fa, fb) in zip(gcs.cell_index_pairs, gcs.face_index_pairs):
        a = tuple(int(x) for x in g.denaturalized_cell_index(ca)) + tuple(int(x) for x in gcs.face_index_inverse_map[fa])
        b = tuple(int(x) for x in g.denaturalized_cell_index(cb)) + tuple(int(x) for x in gcs.face_index_inverse_map[fb])
        out.append((a, b))
    return out


@check('faults', FC, quick = 500, thorough = 20000, shards = 8, rule = 'the grid has split column faces')
def faults(spec, ctx):
    s = spec_grid(spec)
    m, g, cp, active, defined = get(spec, ctx, s)
    nk, nj, ni = s['n']
    # column faces whose sides differ
    j_diff = np.max(np.abs(cp[:, :-1, :, :, 1] - cp[:, 1:, :, :, 0]), axis = (0, 3, 4, 5), initial = 0.0) > 1e-6  # (nj - 1, ni)
    i_diff = np.max(np.abs(cp[:, :, :-1, :, :, 1] - cp[:, :, 1:, :, :, 0]), axis = (0, 3, 4, 5), initial = 0.0) > 1e-6
    full = bool(defined.all())
    js, is_ = g.split_column_faces()
    if full:
        eq(bool(g.has_split_coordinate_lines), bool(j_diff.any() or i_diff.any()), 'has split coordinate lines')
    if not g.has_split_coordinate_lines:
        eq((js, is_), (None, None), 'split column faces of an unfaulted grid')
        eq(g.fault_connection_set(skip_inactive = spec['skip']), (None, None), 'fault connections of an unfaulted grid')
        eq(g.fault_throws(), None, 'throws of an unfaulted grid')
        t = g.fault_throws_per_edge_per_column(simple_z = True)
        ok(np.all(t == 0.0) and t.shape == (nj, ni, 2, 2), 'throws of an unfaulted grid')
        return
    ctx.nontrivial()
    pfc = g.create_column_pillar_mapping()
    j_map = np.any(pfc[:-1, :, 1] != pfc[1:, :, 0], axis = -1)
    i_map = np.any(pfc[:, :-1, :, 1] != pfc[:, 1:, :, 0], axis = -1)
    for got, mp, diff, name in ((js, j_map, j_diff, 'J'), (is_, i_map, i_diff, 'I')):
        if diff.size:
            arr_eq(got, mp, f'split {name} column faces')
            if full:
                arr_eq(got, diff, f'split {name} column faces, by corner points')
    for j in range(nj):
        for i in range(ni):
            for axis in (1, 2):
                for pol in (0, 1):
                    jj, ii = (j, i) if pol else (j - 1, i) if axis == 1 else (j, i - 1)
                    mp = j_map if axis == 1 else i_map
                    want = bool(mp[jj, ii]) if 0 <= jj < mp.shape[0] and 0 <= ii < mp.shape[1] else False
                    eq(bool(g.is_split_column_face(j, i, axis, pol)), want, f'split column face {(j, i, axis, pol)}')
    # throws
    ids = g.find_faults()
    eq(ids is not None, True, 'faults found')
    arr_eq(ids[0] > 0, j_map, 'J faces with a fault id')
    arr_eq(ids[1] > 0, i_map, 'I faces with a fault id')
    for f, (jl, il) in g.fault_dict.items():
        arr_eq(np.array(jl).reshape(-1, 2), np.argwhere(ids[0] == f), f'J faces of fault {f}')
        arr_eq(np.array(il).reshape(-1, 2), np.argwhere(ids[1] == f), f'I faces of fault {f}')
    eq(sorted(int(f) for f in g.fault_dict), sorted(int(x) for x in set(ids[0].flatten()) | set(ids[1].flatten()) if x > 0), 'fault ids')
    if full:
        z = cp[..., 2]
        tj, ti = g.fault_throws()
        arr_close(tj, np.where(j_map, np.mean(z[:, 1:, :, :, 0, :] - z[:, :-1, :, :, 1, :], axis = (3, 4)), 0.0), 1e-6, 'throw of J faces')
        if spec.get('_known'):
            arr_close(ti, np.where(i_map, np.mean(z[:, :, 1:, :, :, 0] - z[:, :, :-1, :, :, 1], axis = (3, 4)), 0.0), 1e-6, 'throw of I faces')
        same = spec['crs']['xy_units'] == spec['crs']['z_units']
        # displacement of matching points: every corner of a pillar is displaced by the same amount here
        dj = cp[:, :-1, :, :, 1] - cp[:, 1:, :, :, 0]  # (nk, nj - 1, ni, kp, ip, xyz): positive if the lesser j is deeper
        di = cp[:, :, :-1, :, :, 1] - cp[:, :, 1:, :, :, 0]
        for mode in ('maximum', 'mean', 'minimum'):
            for simple in (True, False):
                if not simple and not same:
                    continue
                vj, vi = [d[..., 2] if simple else np.sign(d[..., 2]) * np.linalg.norm(d, axis = -1) for d in (dj, di)]
                ej, ei = vj[0, :, :, 0].mean(axis = -1), vi[0, :, :, 0].mean(axis = -1)
                t = g.fault_throws_per_edge_per_column(mode = mode, simple_z = simple)
                want = np.zeros((nj, ni, 2, 2))
                want[1:, :, 0, 0], want[:-1, :, 0, 1], want[:, 1:, 1, 0], want[:, :-1, 1, 1] = -ej, ej, -ei, ei
                arr_close(t, want, 1e-6, f'{mode} throws per edge, simple {simple}')
                t4 = g.fault_throws_per_edge_per_column(mode = mode, simple_z = simple, axis_polarity_mode = False)
                arr_close(t4, np.stack([want[:, :, 1, 0], want[:, :, 0, 1], want[:, :, 1, 1], want[:, :, 0, 0]], axis = -1), 1e-6, f'{mode} throws per edge in resqml order')
    # juxtaposition
    dead = np.zeros(active.shape, dtype = bool) if not spec['skip'] else ~active
    if spec['method'] or spec['skip']:
        gcs, _ = g.fault_connection_set(skip_inactive = spec['skip'])
        fa = getattr(g, 'fgcs_fractional_area', None)
    else:
        gcs, fa = rqtr.fault_connection_set(g, skip_inactive = spec['skip'])
    got = {} if gcs is None else {pr: tuple(f) for pr, f in zip(pairs_of(gcs, g), fa)}
    if gcs is not None:
        eq(len(got), gcs.count, 'number of different pairs of faces')
        eq(fa.shape, (gcs.count, 2), 'shape of the fractions')
        ok(np.all(fa >= 0.0) and np.all(fa <= 1.0 + 1e-9), 'fractions between zero and one')
    full_cols = np.all(~np.isnan(g.corner_points(cache_cp_array = True)), axis = (0, 3, 4, 5, 6))
    geom = g.array_corner_points
    sign = -1.0 if 'k' in s.get('flip', '') else 1.0
    seen = set()
    for axis, mp in ((1, j_map), (2, i_map)):
        for j, i in np.argwhere(mp):
            j, i = int(j), int(i)
            j2, i2 = (j + 1, i) if axis == 1 else (j, i + 1)
            if axis == 1:
                zm, zp = geom[:, j, i, :, 1, :, 2], geom[:, j2, i2, :, 0, :, 2]  # (nk, kp, pillar)
            else:
                zm, zp = geom[:, j, i, :, :, 1, 2], geom[:, j2, i2, :, :, 0, 2]
            zm, zp = sign * np.swapaxes(zm, 1, 2), sign * np.swapaxes(zp, 1, 2)  # (nk, pillar, kp)
            areas, inexact = {}, [set(), set()]
            for km in range(nk):
                for kp in range(nk):
                    if np.isnan(zm[km]).any() or np.isnan(zp[kp]).any():
                        continue
                    a, im, ip = overlap(zm[km], zp[kp])
                    areas[km, kp] = a
                    if im:
                        inexact[0].add(km)
                    if ip:
                        inexact[1].add(kp)
            if not (defined[:, j, i].all() and defined[:, j2, i2].all()):
                # points of cells without geometry may not be consistent with those of the cells above and below
                inexact = [set(range(nk)), set(range(nk))]
            am = [0.5 * float(np.sum(zm[k][:, 1] - zm[k][:, 0])) for k in range(nk)]
            ap = [0.5 * float(np.sum(zp[k][:, 1] - zp[k][:, 0])) for k in range(nk)]
            sums = [{}, {}]
            for km in range(nk):
                for kp in range(nk):
                    pr = ((km, j, i, axis, 1), (kp, j2, i2, axis, 0))
                    seen.add(pr)
                    if dead[km, j, i] or dead[kp, j2, i2]:
                        ok(pr not in got, f'connection {pr} of an inactive cell')
                        continue
                    if (km, kp) not in areas:
                        ok(pr not in got, f'connection {pr} of a cell without geometry')
                        continue
                    if not (defined[km, j, i] and defined[kp, j2, i2]):
                        continue  # points of cells without geometry may be there, but mean nothing
                    a = areas[km, kp]
                    if a > 0.01:
                        ok(pr in got, f'no connection {pr}, with {a} of overlap')
                    elif a < 1e-9 and am[km] > 0.01 and ap[kp] > 0.01:
                        # a sliver listed with no shared area is not a contact
                        ok(pr not in got or (km in inexact[0] or kp in inexact[1]) or sum(got[pr]) < 1e-3, f'connection {pr} with fractions {got.get(pr)}, faces not in contact')
                    if pr in got:
                        f = got[pr]
                        if km not in inexact[0] and am[km] > 0.01:
                            close(f[0], a / am[km], 2e-3, f'fraction of the first face of {pr}')
                        if kp not in inexact[1] and ap[kp] > 0.01:
                            close(f[1], a / ap[kp], 2e-3, f'fraction of the second face of {pr}')
                        sums[0][km] = sums[0].get(km, 0.0) + f[0]
                        sums[1][kp] = sums[1].get(kp, 0.0) + f[1]
            for side in (0, 1):
                for k, v in sums[side].items():
                    if (am, ap)[side][k] > 0.01:
                        ok(v <= 1.0 + 1e-6, f'fractions of a face add up to {v}')
    for pr in got:
        ok(pr in seen, f'connection {pr} where the faces are not split')
    if gcs is not None:
        ok(np.all(gcs.grid_index_pairs == 0), 'grid indices')
        eq(len(gcs.grid_list), 1, 'number of grids')


KC = st.fixed_dictionaries(dict(g = G.grid_specs(max_k = 6, max_ji = 3, gaps = False, noise = False, tilt = False, pinch = False), crs = st.fixed_dictionaries(dict(z_inc_down = st.booleans())), pat = st.lists(st.integers(0, 63), min_size = 1, max_size = 9), gap = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 511)), max_size = 2),
                                skip = st.booleans(), store = st.booleans(), method = st.booleans(), tol = st.sampled_from([0.001, 0.001, 0.6]), gap_size = st.sampled_from([1.0, 0.5])))


@check('layers', KC, quick = 500, thorough = 20000, shards = 8, rule = 'there are pinched out cells or gaps')
def layers(spec, ctx):
    s = dict(spec['g'])
    s.pop('faults', None) if len(spec['pat']) % 2 else None
    s.pop('flip', None)
    nk, nj, ni = s['n']
    cp, active, defined, _ = G.corner_model(s)
    # rebuild the depths column by column: pinched out layers and gaps
    pinched = np.zeros((nk, nj, ni), dtype = bool)
    gap = np.zeros((max(nk - 1, 0), nj, ni))
    for n, (j, i) in enumerate(np.ndindex(nj, ni)):
        pinched[:, j, i] = [bool(spec['pat'][n % len(spec['pat'])] >> k & 1) for k in range(nk)]
    has_gap = np.zeros(max(nk - 1, 0), dtype = bool)
    for k, bits in spec['gap']:
        if k < nk - 1:
            gap[k] = np.array([bits >> (n % 9) & 1 for n in range(nj * ni)]).reshape(nj, ni) * spec['gap_size']
            has_gap[k] = gap[k].any()
    # columns are separate: every column has its own depths, pillars are split as necessary
    z0 = cp[0, :, :, 0, :, :, 2].copy()
    for k in range(nk):
        cp[k, :, :, 0, :, :, 2] = z0
        z0 = z0 + np.where(pinched[k], 0.0, 2.0)[:, :, None, None]
        cp[k, :, :, 1, :, :, 2] = z0
        if k < nk - 1:
            z0 = z0 + gap[k][:, :, None, None]
    if pinched.any() or has_gap.any():
        ctx.nontrivial()
    m = ctx.new_model()
    crs = G.make_crs(m, spec['crs'])
    up = not spec['crs']['z_inc_down']
    if up:
        cp[..., 2] *= -1.0
    kw = dict(ijk_handedness = G.handedness(s, spec['crs']['z_inc_down']))
    if not active.all():
        kw['active_mask'] = active.copy()
    if not defined.all():
        kw['treat_as_nan'] = 'inactive'
    g = rqi.grid_from_cp(m, cp.copy(), crs.uuid, max_z_void = 0.1, split_tolerance = 0.001, **kw)
    G.store(g, 'layers')
    if spec['store'] or not defined.all():
        m.store_epc()
        m = ctx.reopen(m)
        g = grr.Grid(m, uuid = m.uuid(obj_type = 'IjkGridRepresentation'))
    geom = np.all(~np.isnan(g.corner_points(cache_cp_array = True)), axis = (3, 4, 5, 6))
    dead = ~(active & defined) if spec['skip'] else np.zeros(active.shape, dtype = bool)
    known_gap = np.zeros(nk, dtype = bool)
    if g.k_gaps:
        known_gap[:len(g.k_gap_after_array)] = g.k_gap_after_array
    # pinch outs
    want, dont = set(), set()
    for j, i in np.ndindex(nj, ni):
        for ka in range(nk):
            for kb in range(ka + 2, nk):
                if pinched[ka, j, i] or pinched[kb, j, i] or not np.all(pinched[ka + 1:kb, j, i]):
                    continue
                pr = ((ka, j, i, 0, 1), (kb, j, i, 0, 0))
                if known_gap[ka:kb].any():
                    if gap[ka:kb, j, i].sum() == 0.0:
                        dont.add(pr)  # in contact, across a layer gap of no thickness
                    continue
                if not (geom[ka, j, i] and geom[kb, j, i]):
                    continue
                if not np.all(geom[ka:kb + 1, j, i]) or not np.all(defined[ka:kb + 1, j, i]):
                    dont.add(pr)  # any points that a cell without geometry has are those of its neighbours
                    continue
                if dead[ka, j, i] or dead[kb, j, i]:
                    continue
                want.add(pr)
    if spec['method']:
        gcs, _ = g.pinchout_connection_set(skip_inactive = spec['skip'])
    else:
        gcs = rqf.pinchout_connection_set(g, skip_inactive = spec['skip'])
    got = [] if gcs is None else pairs_of(gcs, g)
    eq(len(got), len(set(got)), 'number of different pinch-out connections')
    eq(sorted(set(got) - dont), sorted(want - dont), 'pinch-out connections')
    # layer gaps
    want, dont, tol = set(), set(), spec['tol']
    for k in range(nk - 1):
        if known_gap[k]:
            for j, i in np.ndindex(nj, ni):
                if not (defined[k, j, i] and defined[k + 1, j, i]):
                    if geom[k, j, i] and geom[k + 1, j, i]:
                        dont.add(((k, j, i, 0, 1), (k + 1, j, i, 0, 0)))
                    continue
                if geom[k, j, i] and geom[k + 1, j, i] and gap[k, j, i] < tol and not (dead[k, j, i] or dead[k + 1, j, i]):
                    want.add(((k, j, i, 0, 1), (k + 1, j, i, 0, 0)))
    if spec['method']:
        gcs, _ = g.k_gap_connection_set(skip_inactive = spec['skip'], tolerance = tol)
    else:
        gcs = rqf.k_gap_connection_set(g, skip_inactive = spec['skip'], tolerance = tol)
    got = [] if gcs is None else pairs_of(gcs, g)
    eq(len(got), len(set(got)), 'number of different layer gap connections')
    eq(sorted(set(got) - dont), sorted(want - dont), 'layer gap connections')
    # the sets are cached by whether inactive cells are left out
    if spec['method']:
        other, _ = g.pinchout_connection_set(skip_inactive = not spec['skip'])
        again, _ = g.pinchout_connection_set(skip_inactive = not spec['skip'])
        ok(other is again, 'a pinch-out connection set asked for twice')
