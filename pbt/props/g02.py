"""Corner point grids with tilted pillars, faults, layer gaps, pinched out, inactive and undefined cells are generated with a corner point array worked out independently; a generated sequence of calls of the geometry views of the grid (in memory, without its corner point cache, or reloaded from store, with varying caching options) is compared call by call with values derived from that array.

The sequence of calls makes the cache state of the grid vary. Cells without geometry are only required not to be reported as having any; lazy boxes may be the thorough ones."""
import math

import numpy as np

import resqpy.model as rq
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.weights_and_measures as wam

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as G

TOL = 1.0e-6


def same(got, want, what, mask = None):
    if got is None:
        fail(f'{what}: nothing returned')
    got = np.ma.filled(np.ma.asarray(got, dtype = float), np.nan) if isinstance(got, np.ma.MaskedArray) else np.asarray(got, dtype = float)
    want = np.asarray(want, dtype = float)
    ok(got.shape == want.shape, f'{what}: shape {got.shape}, expected {want.shape}')
    if mask is not None:
        got, want = got[mask], want[mask]
    bad = ~(np.abs(got - want) <= TOL + 1.0e-9 * np.abs(want))
    if bad.any():
        at = tuple(int(x) for x in np.argwhere(bad)[0])
        fail(f'{what}: {got[at]} at {at}, expected {want[at]} ({int(bad.sum())} of {bad.size} differ)')


def in_poly(p, q):
    """Signed margin test: 1 if point p is clearly inside polygon q, -1 clearly outside, 0 close to an edge."""
    c, near = False, False
    n = len(q)
    for a in range(n):
        (x1, y1), (x2, y2) = q[a], q[(a + 1) % n]
        d = np.array([x2 - x1, y2 - y1])
        l2 = float(d @ d)
        t = 0.0 if l2 == 0 else min(1.0, max(0.0, float((np.array(p) - (x1, y1)) @ d) / l2))
        if np.hypot(p[0] - x1 - t * d[0], p[1] - y1 - t * d[1]) < 1e-3:
            near = True
        if (y1 > p[1]) != (y2 > p[1]) and p[0] < (x2 - x1) * (p[1] - y1) / (y2 - y1) + x1:
            c = not c
    return 0 if near else (1 if c else -1)


class Truth:
    """The independent description of the grid."""

    def __init__(t, s):
        t.s = s
        t.cp, t.active, t.defined, t.gap_after = G.corner_model(s)
        t.nk, t.nj, t.ni = s['n']
        t.raw = np.array([k + sum(g < k for g in t.gap_after) for k in range(t.nk)])
        t.nh = t.nk + len(t.gap_after) + 1
        t.all = bool(t.defined.all())
        t.simple = not any(k in s for k in ('noise', 'tilt', 'faults', 'pinch', 'undefined'))
        t.flat = not any(k in s for k in ('noise', 'tilt', 'undefined'))
        c = t.cp
        t.split_j = np.zeros((t.nj - 1, t.ni), dtype = bool)  # between (j, i) and (j + 1, i)
        t.split_i = np.zeros((t.nj, t.ni - 1), dtype = bool)
        for j in range(t.nj - 1):
            t.split_j[j] = np.any(np.abs(c[:, j, :, :, 1, :] - c[:, j + 1, :, :, 0, :]) > 0.01, axis = (0, 2, 3, 4))
        for i in range(t.ni - 1):
            t.split_i[:, i] = np.any(np.abs(c[:, :, i, :, :, 1] - c[:, :, i + 1, :, :, 0]) > 0.01, axis = (0, 2, 3, 4))
        # a column face is also regarded as split where columns diagonally across part company only through other pillars: not here
        t.any_split = False
        for j in range(t.nj + 1):
            for i in range(t.ni + 1):
                cols = t.around(j, i)
                for a in cols[1:]:
                    if np.any(np.abs(c[:, a[0], a[1], :, a[2], a[3]] - c[:, cols[0][0], cols[0][1], :, cols[0][2], cols[0][3]]) > 0.01):
                        t.any_split = True

    def around(t, j, i):
        return [(j - jp, i - ip, jp, ip) for jp in (0, 1) for ip in (0, 1) if 0 <= j - jp < t.nj and 0 <= i - ip < t.ni]

    def horizon(t, h):
        """(k, kp) pairs giving horizon h, in the layering with gaps."""
        return [(k, h - t.raw[k]) for k in range(t.nk) if h - t.raw[k] in (0, 1)]

    def hp(t, h):
        r = None
        for k, kp in t.horizon(h):
            if r is None:
                r = t.cp[k, :, :, kp].copy()
            else:
                r[t.defined[k]] = t.cp[k, :, :, kp][t.defined[k]]
        return r


OPS = ['corner', 'corners', 'centre', 'centres', 'centre_list', 'point', 'points', 'pillars', 'foursome', 'horizon', 'healed', 'split_horizon', 'split_horizons', 'x_unsplit', 'x_split', 'x_gap', 'x_corner', 'x_rotated', 'ends', 'z_corners', 'face', 'faces', 'face_kji', 'vector', 'vectors', 'vectors_kji', 'length', 'lengths', 'interpolated',
       'lattice', 'box', 'composite', 'xyz_box', 'xyz_centre', 'natural', 'poly', 'find_xy', 'find_xs', 'nearest', 'rod', 'split_face', 'split_faces', 'column_inactive', 'inactive', 'count', 'defined', 'areally', 'invalidate', 'uncache', 'unsplit', 'thickness', 'reread', 'thorough']
SPEC = st.fixed_dictionaries(dict(g = G.grid_specs(), state = st.sampled_from(['memory', 'bare', 'bare', 'stored', 'stored', 'stored', 'lines']), crs = st.sampled_from(['plain', 'plain', 'offset', 'rotated', 'ft', 'up']), ops = st.lists(st.tuples(st.integers(0, len(OPS) - 1), st.integers(0, 255), st.integers(0, 255)), min_size = 1, max_size = 14)))
CRS = {'plain': {}, 'offset': dict(x_offset = 1000.0, y_offset = -2000.0, z_offset = 50.0), 'rotated': dict(x_offset = 100.0, y_offset = 40.0, rotation = 30.0, rotation_units = 'dega'), 'ft': dict(z_units = 'ft'), 'up': dict(z_inc_down = False)}


def to_global(p, name):
    kw = CRS[name]
    p = np.array(p, dtype = float)
    if 'rotation' in kw:
        a = -math.radians(kw['rotation'])  # the grid methods rotate the other way from Crs: see sub check crs
        x, y = p[..., 0].copy(), p[..., 1].copy()
        p[..., 0], p[..., 1] = x * math.cos(a) + y * math.sin(a), -x * math.sin(a) + y * math.cos(a)
    return p + np.array([kw.get('x_offset', 0.0), kw.get('y_offset', 0.0), kw.get('z_offset', 0.0)])


def make(spec, ctx):
    s = spec['g']
    m = ctx.new_model()
    crs = G.make_crs(m, CRS[spec['crs']])
    state = spec['state']
    g = G.build(m, s, crs.uuid)
    if state == 'memory':
        g.create_xml(write_active = False)
    elif state == 'bare':
        g.create_xml(write_active = False)
        del g.array_corner_points
    else:
        lines = state == 'lines' and 'undefined' not in s
        if lines:
            zz = G.corner_model(s)[0]
            if np.any(np.abs(zz[0, :, :, 0, :, :, 2] - zz[-1, :, :, 1, :, :, 2]) < 0.01):
                lines = False  # straight line form can not hold pillars without length
        G.store(g, lines = lines)
        uu = g.uuid
        m = ctx.reopen(m)
        g = grr.any_grid(m, uuid = uu)
    return m, g


@check('views', SPEC, quick = 900, thorough = 60000, shards = 8, rule = 'the grid has a fault, a layer gap, or undefined geometry')
def views(spec, ctx):
    t = Truth(spec['g'])
    m, g = make(spec, ctx)
    ctx.nontrivial(t.any_split or bool(t.gap_after) or not t.all)
    ctx.label(spec['state'], 'split' if t.any_split else 'unsplit', 'gaps' if t.gap_after else 'no gaps', 'undefined' if not t.all else 'defined')
    eq(tuple(int(x) for x in g.extent_kji), (t.nk, t.nj, t.ni), 'extent')
    eq(int(g.k_gaps or 0), len(t.gap_after), 'number of layer gaps')
    if t.all:
        eq(bool(g.has_split_coordinate_lines), t.any_split, 'split coordinate lines')
    if t.gap_after:
        eq([int(k) for k in g.k_raw_index_array], [int(k) for k in t.raw], 'raw layer indices')
    state = {'crs': spec['crs'], 'uuid': g.uuid, 'm': m}
    for o, a, b in spec['ops']:
        name = OPS[o]
        if name == 'reread':
            if spec['state'] in ('stored', 'lines'):
                g = grr.any_grid(m, uuid = state['uuid'])
            continue
        one_view(g, t, name, a, b, state, ctx)


MOVE = st.fixed_dictionaries(dict(g = G.grid_specs(inactive = False, gaps = False), state = st.sampled_from(['stored', 'stored', 'lines', 'fresh']), crs = st.sampled_from(['plain', 'offset', 'rotated', 'ft']), before = st.lists(st.tuples(st.integers(0, len(OPS) - 1), st.integers(0, 255), st.integers(0, 255)), max_size = 8), ops = st.lists(st.tuples(st.integers(0, len(OPS) - 1), st.integers(0, 255), st.integers(0, 255)), min_size = 1, max_size = 8), series = st.booleans()))


@check('moved', MOVE, quick = 250, thorough = 20000, shards = 8, rule = 'views were called before the points were replaced')
def moved(spec, ctx):
    """The points of a grid are replaced by those of a points property: all views must follow."""
    t = Truth(spec['g'])
    m, g = make(dict(spec, state = 'stored' if spec['state'] == 'fresh' else spec['state']), ctx)
    uu = g.uuid
    pts = np.array(g.points_ref(masked = False))
    f = lambda p: p * np.array([1.0, 1.0, 1.5]) + np.array([5.0, -3.0, 11.0])
    pc = rqp.PropertyCollection(support = g)
    prop = rqp.Property.from_array(m, f(pts), source_info = 'generated', keyword = 'points', support_uuid = uu, property_kind = 'length', indexable_element = 'nodes', uom = 'm', points = True)
    g = grr.any_grid(m, uuid = uu)
    state = {'crs': spec['crs'], 'uuid': uu, 'm': m}
    skip = ('reread', 'uncache')
    for o, a, b in spec['before']:
        if OPS[o] not in skip:
            one_view(g, t, OPS[o], a, b, state, ctx)
            ctx.nontrivial()
    g.set_cached_points_from_property(points_property_uuid = prop.uuid, set_inactive = False)
    t.cp = f(t.cp)
    for o, a, b in spec['ops']:
        if OPS[o] not in skip:
            one_view(g, t, OPS[o], a, b, state, ctx)


CRSS = st.fixed_dictionaries(dict(rot = st.sampled_from([0.0, 0.0, 30.0, -45.0, 120.0]), ru = st.sampled_from(['dega', 'rad']), off = st.lists(st.sampled_from([0.0, 100.0, -2000.5]), min_size = 3, max_size = 3), xy = st.sampled_from(['m', 'ft']), z = st.sampled_from(['m', 'ft']), down = st.booleans(), gxy = st.sampled_from([None, 'm', 'ft']), gz = st.sampled_from([None, 'm', 'ft']), gdown = st.sampled_from([None, True, False]), n = st.integers(1, 4), seed = seeds))


@check('crs', CRSS, quick = 150, thorough = 8000, shards = 2, rule = 'the crs has an offset or is rotated')
def crs_views(spec, ctx):
    """The conversions between local and global coordinates of the grid, from first principles; they are inverses."""
    m = ctx.new_model()
    rot = spec['rot']
    if spec['ru'] == 'rad':
        rot = math.degrees(round(math.radians(rot), 6))  # the precision with which it is stored
    crs = G.make_crs(m, dict(x_offset = spec['off'][0], y_offset = spec['off'][1], z_offset = spec['off'][2], rotation = math.radians(rot) if spec['ru'] == 'rad' else rot, rotation_units = spec['ru'], xy_units = spec['xy'], z_units = spec['z'], z_inc_down = spec['down']))
    g = grr.RegularGrid(m, extent_kji = (1, 1, 1), crs_uuid = crs.uuid, as_irregular_grid = True)
    ctx.nontrivial(rot != 0 or any(spec['off']))
    p = np.round(np.random.default_rng(spec['seed']).uniform(-1000, 1000, (spec['n'], 3)), 2)
    kw = dict(global_xy_units = spec['gxy'], global_z_units = spec['gz'], global_z_increasing_downward = spec['gdown'])
    a = math.radians(rot) * (1.0 if spec.get('_known') else -1.0)  # the other way round from Crs unless in the known finding
    want = np.stack((p[:, 0] * math.cos(a) + p[:, 1] * math.sin(a), -p[:, 0] * math.sin(a) + p[:, 1] * math.cos(a), p[:, 2] * (-1.0 if spec['gdown'] not in (None, spec['down']) else 1.0)), axis = 1) + np.array(spec['off'])  # z is negated before the offset is added
    f = {'m': 1.0, 'ft': 0.3048}
    if spec['gxy']:
        want[:, :2] *= f[spec['xy']] / f[spec['gxy']]
    if spec['gz']:
        want[:, 2] *= f[spec['z']] / f[spec['gz']]
    if spec.get('_known'):
        same(want, np.array(crs.local_to_global_array(p.copy())), 'expectation')
    got = g.local_to_global_crs(p.copy(), crs_uuid = crs.uuid, **kw)
    same(got, want, 'local to global')
    back = g.global_to_local_crs(want.copy(), crs_uuid = crs.uuid, **kw)
    same(back, p, 'global to local')


def one_view(g, t, name, a, b, state, ctx):
    cp, D = t.cp, t.defined
    nk, nj, ni = t.nk, t.nj, t.ni
    k, j, i = a % nk, (a // 4) % nj, (a // 16) % ni
    cell = (k, j, i)
    kp, jp, ip = b % 2, (b // 2) % 2, (b // 4) % 2
    f1, f2 = bool(b & 8), bool(b & 16)
    axis = b % 3
    cc = cp[cell]
    w = f'{name} of cell {cell}'
    opt = dict(cache_resqml_array = f1, cache_cp_array = f2)
    got_defined = D[cell]
    centre_fc = [np.mean(cp[:, :, :, 0], axis = (3, 4)), None, None]
    has_gap = bool(t.gap_after)
    split = bool(g.has_split_coordinate_lines)

    def fc(ax, p):
        x = np.moveaxis(cp, 3 + ax, 3)[:, :, :, p]
        return x.reshape(nk, nj, ni, 4, 3).mean(axis = 3)

    if name == 'corner':
        got = g.corner_points(cell, **opt)
        if got_defined:
            same(got, cc, w)
    elif name == 'corners':
        same(g.corner_points(), cp, 'corner points of grid', D)
    elif name == 'centre':
        got = g.centre_point(cell, cache_centre_array = f1)
        if got_defined:
            same(got, cc.reshape(8, 3).mean(axis = 0), w)
    elif name == 'centres':
        same(g.centre_point(), cp.reshape(nk, nj, ni, 8, 3).mean(axis = 3), 'centres', D)
    elif name == 'centre_list':
        cells = np.argwhere(D)[:: 1 + b % 3]
        same(g.centre_point_list(cells), cp.reshape(nk, nj, ni, 8, 3).mean(axis = 3)[tuple(cells.T)], 'centre list')
    elif name == 'point':
        got = g.point(cell, corner_index = np.array([kp, jp, ip]), cache_array = f1)
        if got_defined:
            same(got, cc[kp, jp, ip], f'{w} corner {(kp, jp, ip)}')
        else:
            ok(got is None, f'{w}: {got} for a cell without geometry')
    elif name == 'points':
        pts = g.points_ref(masked = f1)
        cpm = g.create_column_pillar_mapping()
        p = np.asarray(np.ma.filled(pts, np.nan)).reshape(t.nh, -1, 3)
        for q in (0, 1):
            same(p[t.raw + q][:, cpm], cp[:, :, :, q], f'points by pillar, kp {q}', D)
    elif name == 'pillars':
        pts = np.asarray(g.points_ref(masked = False)).reshape(t.nh, -1, 3)
        cpm = g.create_column_pillar_mapping()
        pil = int(cpm[j, i, jp, ip])
        if split:
            idx = (int(t.raw[k] + kp), pil)
        else:
            idx = (int(t.raw[k] + kp), j + jp, i + ip)
        got = g.point_raw(index = idx, cache_array = f1)
        if got_defined:
            same(got, cc[kp, jp, ip], f'point_raw{idx}')
    elif name == 'foursome':
        jj, ii = a % (nj + 1), (a // 8) % (ni + 1)
        cpm = g.create_column_pillar_mapping()
        four = g.pillar_foursome((jj, ii))
        for cj, ci, pj, pi in t.around(jj, ii):
            eq(int(four[1 - pj, 1 - pi]), int(cpm[cj, ci, pj, pi]), f'pillar foursome {(jj, ii)} entry for column {(cj, ci)}')
        none = g.pillar_foursome((jj, ii), none_if_unsplit = True)
        if len({int(cpm[x]) for x in t.around(jj, ii)}) > 1:
            ok(none is not None, f'pillar foursome {(jj, ii)} is None for a split pillar')
        elif t.all and not split:
            ok(none is None, f'pillar foursome {(jj, ii)} is not None for an unsplit pillar')
    elif name in ('horizon', 'healed', 'split_horizon'):
        if f2 and not has_gap:
            h = a % (nk + 1)
            kw, what = dict(ref_k0 = h), f'{name} {h}'
        else:
            h = int(t.raw[k] + kp)
            kw, what = dict(ref_k0 = k, kp = kp), f'{name} layer {k} kp {kp}'
        want = t.hp(h)
        if name == 'split_horizon':
            mask = np.zeros((nj, ni), dtype = bool)
            for kk, q in t.horizon(h):
                mask |= D[kk]
            same(g.split_horizon_points(masked = f1, **kw), want, what, mask)
            return
        got = g.horizon_points(heal_faults = name == 'healed', **kw)
        eq(got.shape, (nj + 1, ni + 1, 3), f'{what}: shape')
        if not t.all:
            return
        for jj in range(nj + 1):
            for ii in range(ni + 1):
                c = np.array([want[x] for x in t.around(jj, ii)])
                if name == 'healed':
                    same(got[jj, ii], c.mean(axis = 0), f'{what} at pillar {(jj, ii)}')
                else:
                    ok(np.min(np.max(np.abs(c - got[jj, ii]), axis = 1)) < TOL, f'{what} at pillar {(jj, ii)}: {got[jj, ii]} is not a corner of a neighbouring column')
    elif name == 'split_horizons':
        lo = a % t.nh
        hi = lo + (b % (t.nh - lo))
        got = g.split_horizons_points(min_k0 = lo if f1 else None, max_k0 = hi if f2 else None)
        lo, hi = (lo if f1 else 0), (hi if f2 else t.nh - 1)
        eq(got.shape, (hi - lo + 1, nj, ni, 2, 2, 3), 'split horizons shape')
        for h in range(lo, hi + 1):
            mask = np.zeros((nj, ni), dtype = bool)
            for kk, q in t.horizon(h):
                mask |= D[kk]
            same(got[h - lo], t.hp(h), f'split horizons from {lo}, horizon {h}', mask)
    elif name in ('x_unsplit', 'x_split', 'x_gap', 'x_corner', 'x_rotated'):
        ax = 'IJ'[a % 2]
        n = ni if ax == 'I' else nj
        r, plus = (a // 4) % n, f1
        if ax == 'I':
            want, dm = cp[:, :, r, :, :, int(plus)], D[:, :, r]  # nk, nj, kp, jp, xyz
        else:
            want, dm = cp[:, r, :, :, int(plus)], D[:, r]
        what = f'{name} axis {ax} slice {r} plus {plus}'
        kw = dict(ref_slice0 = r, plus_face = plus, masked = f2)
        if name == 'x_unsplit':
            if split or has_gap:
                return
            got = np.ma.filled(g.unsplit_x_section_points(ax, **kw), np.nan)
            full = np.stack((np.stack((got[:-1, :-1], got[:-1, 1:]), axis = 2), np.stack((got[1:, :-1], got[1:, 1:]), axis = 2)), axis = 2)
            same(full, want, what, dm)
        elif name == 'x_split':
            if has_gap:
                return
            if not split:
                return  # documented to be for split grids, though also said to function for unsplit ones: see x_gap
            got = np.ma.filled(g.split_x_section_points(ax, **kw), np.nan)
            same(np.stack((got[:-1], got[1:]), axis = 2), want, what, dm)
        elif name == 'x_gap':
            if not split and not has_gap:
                return
            same(g.split_gap_x_section_points(ax, **kw), want, what, dm)
        elif name == 'x_corner':
            same(g.x_section_corner_points(ax, **kw), want, what, dm)
        elif t.all:
            got = np.ma.filled(g.x_section_corner_points(ax, rotate = True, azimuth = None if b & 32 else float(b), **kw), np.nan)
            eq(got.shape, want.shape, f'{what}: shape')
            same(got[..., 2], want[..., 2], f'{what}: z')
            p, q = got.reshape(-1, 3), want.reshape(-1, 3)
            n2 = min(len(p), 24)
            same(np.linalg.norm(p[:n2, None] - p[None, :n2], axis = 2), np.linalg.norm(q[:n2, None] - q[None, :n2], axis = 2), f'{what}: distances between points')
            if not b & 32:  # the direction with the given bearing becomes the x axis
                az = math.radians(float(b))
                along = q[:, 0] * math.sin(az) + q[:, 1] * math.cos(az)
                same(p[:, 0], along - along.min(), f'{what}: distance along the bearing')
    elif name == 'ends':
        if t.all:
            got = g.coordinate_line_end_points()
            for q, (kk, kq) in enumerate(((0, 0), (nk - 1, 1))):
                for jj in range(nj + 1):
                    for ii in range(ni + 1):
                        c = np.array([cp[kk, x[0], x[1], kq, x[2], x[3]] for x in t.around(jj, ii)])
                        ok(np.min(np.max(np.abs(c - got[jj, ii, q]), axis = 1)) < TOL, f'end {q} of coordinate line {(jj, ii)}: {got[jj, ii, q]} is not a corner of a neighbouring column')
                        if q == 1:  # both ends belong to one column
                            c0 = np.array([cp[0, x[0], x[1], 0, x[2], x[3]] for x in t.around(jj, ii)])
                            ok(np.min(np.max(np.abs(np.concatenate((c0 - got[jj, ii, 0], c - got[jj, ii, 1]), axis = 1)), axis = 1)) < TOL, f'ends of coordinate line {(jj, ii)} do not belong to one column')
    elif name == 'z_corners':
        got = np.ma.filled(g.z_corner_point_depths(order = 'linear' if f1 else 'cellular'), np.nan)
        if f1:
            eq(got.shape, (nk, 2, nj, 2, ni, 2), 'linear z corners shape')
            got = np.transpose(got, (0, 2, 4, 1, 3, 5))
        same(got, cp[..., 2], f'z of corners {"linear" if f1 else "cellular"}', D)
    elif name == 'face':
        if got_defined:
            same(g.face_centre(cell, axis, kp, **opt), fc(axis, kp)[cell], f'{w} axis {axis} side {kp}')
    elif name == 'faces':
        same(g.face_centre(None, axis, kp), fc(axis, kp), f'face centres axis {axis} side {kp}', D)
    elif name == 'face_kji':
        if got_defined:
            same(g.face_centres_kji_01(cell, **opt), np.array([[fc(x, p)[cell] for p in (0, 1)] for x in range(3)]), w)
    elif name == 'vector':
        if got_defined:
            same(g.interface_vector(cell, axis, **opt), fc(axis, 1)[cell] - fc(axis, 0)[cell], f'{w} axis {axis}')
    elif name == 'vectors':
        same(g.interface_vector(None, axis), fc(axis, 1) - fc(axis, 0), f'interface vectors axis {axis}', D)
    elif name == 'vectors_kji':
        if got_defined:
            same(g.interface_vectors_kji(cell, **opt), np.array([fc(x, 1)[cell] - fc(x, 0)[cell] for x in range(3)]), w)
    elif name in ('length', 'lengths'):
        if got_defined:
            uom = [None, 'm', 'ft', 'km'][a % 4]
            v = np.array([fc(x, 1)[cell] - fc(x, 0)[cell] for x in range(3)])
            if state['crs'] == 'ft':
                v[:, 2] *= 0.3048
            want = np.linalg.norm(v, axis = 1) / {None: 1.0, 'm': 1.0, 'ft': 0.3048, 'km': 1000.0}[uom]
            if name == 'length':
                same(g.interface_length(cell, axis, required_uom = uom, **opt), want[axis], f'{w} axis {axis} in {uom}')
            else:
                same(g.interface_lengths_kji(cell, required_uom = uom, **opt), want, f'{w} in {uom}')
    elif name == 'interpolated':
        if got_defined:
            f = np.array([a, b, (a + b) % 256]) / 255.0
            same(g.interpolated_point(cell, f, **opt), trilinear(cc, f), f'{w} at {f}')
    elif name == 'lattice':
        if got_defined:
            fr = [np.linspace(0.0, 1.0, 2 + a % 3), np.array([b / 255.0]), np.linspace(0.1, 0.9, 1 + b % 4)]
            got = g.interpolated_points(cell, fr, **opt)
            want = np.array([[[trilinear(cc, (x, y, z)) for z in fr[2]] for y in fr[1]] for x in fr[0]])
            same(got, want, w)
    elif name == 'box':
        if got_defined:
            p = cc.reshape(8, 3)
            same(g.bounding_box(cell, cache_cp_array = f2), np.array([p.min(axis = 0), p.max(axis = 0)]), w)
    elif name == 'composite':
        cells = [tuple(c) for c in np.argwhere(D)[:: 1 + b % 3]]
        boxes = [np.array(g.bounding_box(c)) for c in cells]
        keep = [x.copy() for x in boxes]
        got = np.array(g.composite_bounding_box(boxes))
        p = np.concatenate([cp[c].reshape(8, 3) for c in cells])
        same(got, np.array([p.min(axis = 0), p.max(axis = 0)]), 'composite box')
        for x, y, c in zip(boxes, keep, cells):
            same(x, y, f'box of cell {c} after making the composite box')
    elif name in ('xyz_box', 'xyz_centre', 'thorough'):
        lazy, local = (f1, f2) if name != 'thorough' else (False, True)
        ends = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
        if lazy and not t.all:
            return
        conv = (lambda p: p) if local else (lambda p: to_global(p, state['crs']))
        allp = conv(cp[D].reshape(-1, 3))
        p8 = conv(np.array([cp[-x, -y, -z, x, y, z] for x, y, z in ends]))
        wants = [np.array([allp.min(axis = 0), allp.max(axis = 0)])]
        if lazy:
            wants.append(np.array([p8.min(axis = 0), p8.max(axis = 0)]))
        if name == 'xyz_centre':
            got = np.asarray(g.xyz_box_centre(lazy = lazy, local = local))
            wants = [x.mean(axis = 0) for x in wants]
        else:
            got = np.asarray(g.xyz_box(lazy = lazy, local = local))
        ok(any(got.shape == x.shape and np.allclose(got, x, atol = 1e-5, rtol = 1e-9) for x in wants), f'{name} lazy {lazy} local {local}: {got.tolist()}, expected {" or ".join(str(x.tolist()) for x in wants)}')
    elif name == 'natural':
        n = (k * nj + j) * ni + i
        eq(int(g.natural_cell_index(cell)), n, w)
        eq(tuple(int(x) for x in g.denaturalized_cell_index(n)), cell, f'denaturalized {n}')
        cells = np.stack(np.meshgrid(np.arange(nk), np.arange(nj), np.arange(ni), indexing = 'ij'), axis = -1)
        nat = g.natural_cell_indices(cells)
        ok(np.array_equal(nat, np.arange(nk * nj * ni).reshape(nk, nj, ni)), 'natural cell indices')
        ok(np.array_equal(g.denaturalized_cell_indices(nat), cells), 'denaturalized cell indices')
    elif name == 'poly':
        if got_defined:
            same(g.poly_line_for_cell(cell, vertical_ref = 'base' if f1 else 'top'), cc[int(f1)][[0, 0, 1, 1], [0, 1, 1, 0]], w)
    elif name == 'find_xy':
        if not got_defined:
            return
        ref = 'base' if f1 else 'top'
        f = np.array([float(f1), 0.1 + 0.8 * (a / 255.0), 0.1 + 0.8 * (b / 255.0)])
        p = trilinear(cc, f)
        q = p if not f2 else to_global(p, state['crs'])
        got = g.find_cell_for_point_xy(q[0], q[1], k0 = k, vertical_ref = ref, local_coords = not f2)
        if got[0] is None:
            ok(not (t.flat and nj * ni > 0), f'{w}: no cell found for a point {p} inside it')
        else:
            poly = cp[(k,) + tuple(int(x) for x in got)][int(f1)][[0, 0, 1, 1], [0, 1, 1, 0], :2]
            ok(in_poly(p[:2], poly) >= 0, f'{w}: cell {got} found does not contain the point {p}')
            if t.flat:
                eq(tuple(int(x) for x in got), (j, i), f'{w}: cell found for point {p}')
    elif name == 'find_xs':
        if not t.all:
            return
        ax = 'IJ'[a % 2]
        sl = i if ax == 'I' else j
        xs = g.x_section_corner_points(ax, ref_slice0 = sl, plus_face = f1)
        other = j if ax == 'I' else i
        quad = xs[k, other]
        f = np.array([0.15 + 0.7 * a / 255.0, 0.15 + 0.7 * b / 255.0])
        p = (quad[0, 0] * (1 - f[0]) + quad[1, 0] * f[0]) * (1 - f[1]) + (quad[0, 1] * (1 - f[0]) + quad[1, 1] * f[0]) * f[1]
        if ax == 'I':
            xs = xs[..., [1, 0, 2]]  # use y along the section
            p = p[[1, 0, 2]]
        got = grr._points_functions.find_cell_for_x_sect_xz(xs, p[0], p[2]) if not hasattr(grr, 'find_cell_for_x_sect_xz') else grr.find_cell_for_x_sect_xz(xs, p[0], p[2])
        if got[0] is None:
            ok(not t.simple, f'{w} axis {ax}: no cell found for a point inside it')
        else:
            poly = xs[int(got[0]), int(got[1])][[0, 0, 1, 1], [0, 1, 1, 0]][:, [0, 2]]
            ok(in_poly((p[0], p[2]), poly) >= 0, f'{w} axis {ax}: cell {got} found in section does not contain the point')
            if t.simple:
                eq(tuple(int(x) for x in got), (k, other), f'{w} axis {ax}: cell found in section')
    elif name == 'nearest':
        if t.all:
            xy = cc[kp, jp, ip, :2] + np.array([a % 7 - 3.0, b % 5 - 2.0])
            h = g.horizon_points(ref_k0 = k, kp = kp)
            d = np.sum((h[..., :2] - xy)**2, axis = 2)
            same(g.pillar_distances_sqr(xy, ref_k0 = k, kp = kp), d, 'pillar distances')
            got = g.nearest_pillar(xy, ref_k0 = k, kp = kp)
            ok(d[tuple(got)] <= d.min() + TOL, f'nearest pillar to {xy} is {got} at {d[tuple(got)]}, nearest distance is {d.min()}')
    elif name == 'rod':
        if t.all and not split and not has_gap:
            ax = 'IJ'[a % 2]
            r = (i if ax == 'I' else j)
            xs = np.asarray(g.unsplit_x_section_points(ax, ref_slice0 = r, plus_face = f1))
            p = np.array([cc[kp, jp, ip] + np.array([a % 7 - 3.0, a % 5 - 2.0, b % 3 - 1.0]), cc[0, 0, 0]])
            for proj in ('xz', 'yz', 'xy'):
                cols = ['xyz'.index(c) for c in proj]
                got = g.nearest_rod(p, proj, ax, ref_slice0 = r, plus_face = f1)
                one = g.nearest_rod(p[0], proj, ax, ref_slice0 = r, plus_face = f1)
                eq(np.asarray(got).shape, (2, 2), 'nearest rods shape')
                for q in (0, 1):
                    d = np.sum((xs[..., cols] - p[q][cols])**2, axis = 2)
                    ok(d[tuple(got[q])] <= d.min() + TOL, f'nearest rod in {proj} is {got[q]} at {d[tuple(got[q])]}, nearest is {d.min()}')
                ok(np.array_equal(np.asarray(one), got[0]), 'nearest rod for one point and for several')
    elif name == 'split_face':
        if not t.all:
            return
        ax, pol = 1 + a % 2, kp
        jj, ii = (j + (1 if pol else -1), i) if ax == 1 else (j, i + (1 if pol else -1))
        want = False
        if 0 <= jj < nj and 0 <= ii < ni:
            want = bool(t.split_j[min(j, jj), i] if ax == 1 else t.split_i[j, min(i, ii)])
        eq(bool(g.is_split_column_face(j, i, ax, pol)), want, f'column face of {(j, i)} axis {ax} polarity {pol} split')
    elif name == 'split_faces':
        if not t.all:
            return
        sj, si = g.split_column_faces()
        if not split:
            ok(sj is None and si is None, 'split column faces of an unsplit grid')
            return
        for got, want, what in ((sj, t.split_j, 'J'), (si, t.split_i, 'I')):
            if want.size:
                ok(got is not None and np.array_equal(got, want), f'split {what} column faces: {None if got is None else got.astype(int).tolist()}, expected {want.astype(int).tolist()}')
            else:
                ok(got is None or got.size == 0, f'split {what} column faces where there are no internal faces')
    elif name == 'column_inactive':
        eq(bool(g.column_is_inactive((j, i))), not t.active[:, j, i].any(), f'column {(j, i)} inactive')
    elif name == 'inactive':
        if not t.active.all():
            eq(bool(g.cell_inactive(cell)), not t.active[cell], f'cell {cell} inactive')
    elif name == 'count':
        eq(int(g.cell_count()), nk * nj * ni, 'cell count')
        eq(int(g.cell_count(active_only = True)), int(t.active.sum()), 'active cell count')
        eq(int(g.cell_count(geometry_defined_only = True)), int(D.sum()), 'geometry defined cell count')
        if t.all:
            th = np.abs(cp[..., 1, :, :, 2].mean(axis = (3, 4)) - cp[..., 0, :, :, 2].mean(axis = (3, 4)))
            eq(int(g.cell_count(non_pinched_out_only = True)), int((th > 0.001).sum()), 'extant cell count')
    elif name == 'defined':
        eq(bool(g.cell_geometry_is_defined(cell, cache_array = f1)), bool(D[cell]), f'cell {cell} geometry defined')
        eq(bool(g.geometry_defined_for_all_cells(cache_array = f2)), t.all, 'geometry defined for all cells')
        ref = g.cell_geometry_is_defined_ref()
        ok((ref is None and t.all) or (ref is not None and np.array_equal(ref, D)), 'cell geometry defined array')
    elif name == 'areally':
        if t.all:
            got = g.point_areally()
            ext = np.zeros((nk, nj, ni), dtype = bool)
            for q in (0, 1):
                ext |= np.any(np.abs(cp[:, :, :, q, 1] - cp[:, :, :, q, 0]) > 0.001, axis = (3, 4)) | np.any(np.abs(cp[:, :, :, q, :, 1] - cp[:, :, :, q, :, 0]) > 0.001, axis = (3, 4))
            ok(np.array_equal(got, ~ext), f'cells that are points areally: {got.astype(int).tolist()}')
    elif name == 'invalidate':
        g.invalidate_corner_points()
    elif name == 'uncache':
        if state.get('stored', True) and g.root is not None and g.model.h5_uuid_list(g.root) and hasattr(g, 'uncache_points') and g.geometry_root is not None and len(g.model.h5_uuid_list(g.root)) and stored_points(g):
            g.uncache_points()
    elif name == 'unsplit':
        if t.all:
            got = g.unsplit_points_ref(cache_array = f1, masked = f2)
            eq(got.shape, (t.nh, nj + 1, ni + 1, 3), 'unsplit points shape')
            for h in range(t.nh):
                want = t.hp(h)
                for jj in range(nj + 1):
                    for ii in range(ni + 1):
                        same(got[h, jj, ii], np.mean([want[x] for x in t.around(jj, ii)], axis = 0), f'unsplit point {(h, jj, ii)}')
    elif name == 'thickness':
        th = np.abs(cp[..., 1, :, :, 2].mean(axis = (3, 4)) - cp[..., 0, :, :, 2].mean(axis = (3, 4)))
        if f1:
            same(g.thickness(), th, 'thickness', D)
        elif got_defined:
            same(g.thickness(cell, cache_thickness_array = f2, cache_cp_array = bool(b & 32)), th[cell], w)


def stored_points(g):
    try:
        p = g.model.h5_uuid_and_path_for_node(g.resolve_geometry_child('Points'), tag = 'Coordinates')
        return p is not None and g.model.h5_array_shape(p) is not None
    except Exception:
        return False


def trilinear(c, f):
    k, j, i = f
    r = 0.0
    for a in (0, 1):
        for b in (0, 1):
            for d in (0, 1):
                r = r + c[a, b, d] * (k if a else 1 - k) * (j if b else 1 - j) * (i if d else 1 - i)
    return r
