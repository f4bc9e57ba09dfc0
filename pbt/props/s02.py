"""property-based testing: generated surfaces (meshes, torn meshes, cell faces, point sets, multi patch) against direct calculation over their triangles

Each surface operation is applied to generated surfaces, in memory and re-read from file. Construction is judged by the exact set of
triangles (as corner coordinates) demanded by the mesh quads, cell faces or convex hull; trimming, splitting, resampling, combining,
re-ordering, rescaling and down-sampling by the triangles kept and their areas; sampled depths, line intersections, normals, edge
lengths, edges and axial crossings by a brute force evaluation over all triangles. Triangle to cell, column and surface lookups are
compared with the geometry of the triangle. Samples within a small margin of a triangle edge are left out.
"""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import QhullError, ConvexHull

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.surface as rqs
import resqpy.property as rqp
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *

CRS = [{'z_units': 'ft'}, {'z_inc_down': False}, {}, {'xy_units': 'ft', 'z_units': 'ft'}, {'z_inc_down': False, 'xy_units': 'ft'}]
FT = 0.3048


def sheet(s):
    """Mesh array (nj, ni, 3) of a generated sheet; points jittered, in general position."""
    rng = np.random.default_rng(s['seed'])
    nj, ni = s['nj'], s['ni']
    m = np.empty((nj, ni, 3))
    m[..., 0] = np.arange(ni)[None, :] * 10.0
    m[..., 1] = np.arange(nj)[:, None] * 10.0
    m[..., :2] += rng.uniform(-3.0, 3.0, (nj, ni, 2))
    m[..., 2] = 100.0 + s['slope'] * m[..., 0] + s['rough'] * rng.uniform(-5.0, 5.0, (nj, ni))
    if s['mirror']:
        m[..., 1] *= -1.0
    m[..., :2] += s['shift']
    if s['fold']:  # tip it over so that the sheet is not a function of xy
        m = m[..., [0, 2, 1]].copy()
    return m, rng


sheet_d = dict(seed = st.integers(0, 10**6), nj = st.integers(2, 5), ni = st.integers(2, 5), slope = fl(-1.0, 1.0, 2), rough = st.sampled_from([1.0, 0.0, 0.3]),
               mirror = st.booleans(), shift = fl(-40.0, 20.0, 2), fold = st.sampled_from([False, False, True]))


def free_triangles(m, rng, wind):
    """Triangles over a mesh with random diagonals and starting corners; wind: None for random windings."""
    nj, ni = m.shape[:2]
    ts = []
    for j in range(nj - 1):
        for i in range(ni - 1):
            a, b, c, d = j * ni + i, j * ni + i + 1, (j + 1) * ni + i + 1, (j + 1) * ni + i
            pair = [(a, b, c), (a, c, d)] if rng.integers(2) else [(a, b, d), (b, c, d)]
            for t in pair:
                t = list(np.roll(t, rng.integers(3)))
                if (wind is None and rng.integers(2)) or wind == 1:
                    t = t[::-1]
                ts.append(t)
    ts = np.array(ts, dtype = int)
    return ts[rng.permutation(len(ts))], m.reshape((-1, 3)).copy()


def as_patches(t, p, n, rng):
    """Divides triangles into up to n patches, each with its own compact points."""
    which = rng.integers(0, n, len(t))
    if rng.random() < 0.5:  # contiguous patches, in either order
        which = (np.arange(len(t)) * n) // max(len(t), 1)
        if rng.random() < 0.5:
            which = n - 1 - which
    out = []
    for k in range(n):
        tk = t[which == k]
        if len(tk) == 0:
            continue
        keep = np.unique(tk)
        m = np.full(len(p), -1)
        m[keep] = np.arange(len(keep))
        out.append((m[tk], p[keep].copy()))
    return out


def new_crs(m, i):
    c = rqc.Crs(m, **CRS[i], title = 'crs')
    c.create_xml()
    return c


def stored(m, surf, ctx):
    """Stores the surface and returns it instantiated from the reopened file."""
    surf.write_hdf5()
    surf.create_xml()
    m.store_epc()
    m2 = ctx.reopen(m)
    return m2, rqs.Surface(m2, uuid = surf.uuid)


def free_surface(m, s, crs):
    mesh, rng = sheet(s)
    t, p = free_triangles(mesh, rng, s.get('wind'))
    surf = rqs.Surface(m, crs_uuid = crs.uuid, title = 'free')
    if s['patches'] > 1:
        patches = as_patches(t, p, s['patches'], rng)
        surf.set_multi_patch_from_triangles_and_points(patches)
    else:
        surf.set_from_triangles_and_points(t, p)
        patches = [(t, p)]
    corners = [pp[tt] for tt, pp in patches]
    return surf, patches, np.concatenate(corners, axis = 0), rng


free_d = dict(sheet_d, patches = st.sampled_from([1, 2, 3]), crs = st.integers(0, 4), file = st.booleans(), wind = st.sampled_from([None, 0, 1]))


def canon(tp, places = 6):
    """Multiset of triangles, each as a sorted set of corner points, as one sorted array (n, 9)."""
    tp = np.round(np.asarray(tp, dtype = float), places) + 0.0
    out = []
    for tri in tp:
        out.append(tuple(x for pt in sorted(map(tuple, tri)) for x in pt))
    return np.array(sorted(out)).reshape((-1, 9))


def same_triangles(got, want, what):
    g, w = canon(got), canon(want)
    eq(len(g), len(w), f'{what}: number of triangles')
    if len(w):
        # nearly equal coordinates can sort differently: match greedily
        left = list(range(len(w)))
        for row in g:
            d = np.max(np.abs(w[left] - row), axis = 1)
            best = int(np.argmin(d))
            ok(d[best] < 1.0e-4, f'{what}: triangle {row.reshape((3, 3)).tolist()} not among those expected')
            left.pop(best)


def same_ordered(got, want, what, tol = 1.0e-6):
    eq(np.shape(got), np.shape(want), f'{what}: shape')
    arr_close(got, want, tol, what)


def areas(tp):
    return 0.5 * np.linalg.norm(np.cross(tp[:, 1] - tp[:, 0], tp[:, 2] - tp[:, 0]), axis = 1)


def corners_of(surf, patch = None):
    t, p = surf.triangles_and_points(patch = patch)
    ok(t.ndim == 2 and t.shape[1] == 3 and p.ndim == 2 and p.shape[1] == 3, 'shape of triangles or points')
    if len(t):
        ok(t.min() >= 0 and t.max() < len(p), 'triangle node index out of range')
    return p[t]


# ---------------------------------------------------------------------------------------------------------------------- construction


@st.composite
def mesh_specs(draw):
    s = {k: draw(v) for k, v in sheet_d.items()}
    s.update(kind = draw(st.sampled_from(['object', 'torn', 'irregular', 'sparse', 'object'])), quad = draw(st.booleans()), crs = draw(st.integers(0, 4)),
             holes = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)), max_size = 6)), flavour = draw(st.sampled_from(['explicit', 'regular', 'ref&z'])),
             tear = draw(fl(0.0, 2.0, 2)), holed = draw(st.booleans()))
    return s


@check('mesh', mesh_specs(), quick = 60, thorough = 800, rule = 'surface with at least four triangles')
def mesh_surfaces(s, ctx):
    m = ctx.new_model('s')
    crs = new_crs(m, s['crs'])
    xyz, rng = sheet(dict(s, fold = s['fold'] and s['kind'] in ('torn', 'irregular')))
    nj, ni = xyz.shape[:2]
    surf = rqs.Surface(m, crs_uuid = crs.uuid, title = 'from mesh')
    quads = {}  # (j, i): 2 x 2 corners
    if s['kind'] == 'torn':
        torn = np.empty((nj - 1, ni - 1, 2, 2, 3))
        for jp in range(2):
            for ip in range(2):
                torn[:, :, jp, ip] = xyz[jp:nj - 1 + jp, ip:ni - 1 + ip]
        torn[..., 2] += s['tear'] * rng.uniform(-1.0, 1.0, (nj - 1, ni - 1, 1, 1))
        surf.set_from_torn_mesh(torn.copy(), quad_triangles = s['quad'])
        for j in range(nj - 1):
            for i in range(ni - 1):
                quads[j, i] = torn[j, i]
    else:
        if s['kind'] == 'object':
            if s['flavour'] == 'regular':
                mesh = rqs.Mesh(m, mesh_flavour = 'regular', nj = nj, ni = ni, origin = (1.5, -2.5, 7.0), dxyz_dij = np.array([[3.0, 0.5, 0.25], [-0.75, 4.0, -0.5]]),
                                crs_uuid = crs.uuid, title = 'm')
                jj, ii = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
                xyz = (np.array((1.5, -2.5, 7.0)) + ii[..., None] * np.array([3.0, 0.5, 0.25]) + jj[..., None] * np.array([-0.75, 4.0, -0.5]))
            else:
                if s['holed']:
                    for j, i in s['holes']:
                        xyz[j % nj, i % ni, 2] = np.nan
                mesh = rqs.Mesh(m, mesh_flavour = 'explicit', nj = nj, ni = ni, xyz_values = xyz.copy(), crs_uuid = crs.uuid, title = 'm')
            surf.set_from_mesh_object(mesh, quad_triangles = s['quad'])
            if s['flavour'] != 'regular':
                arr_eq(np.nan_to_num(mesh.full_array_ref(), nan = -1.0), np.nan_to_num(xyz, nan = -1.0), 'mesh modified by building surface')
        elif s['kind'] == 'sparse':
            for j, i in s['holes']:
                xyz[j % nj, i % ni, 2] = np.nan
            surf.set_from_sparse_mesh(xyz.copy())
        else:
            surf.set_from_irregular_mesh(xyz.copy(), quad_triangles = s['quad'])
        for j in range(nj - 1):
            for i in range(ni - 1):
                quads[j, i] = xyz[j:j + 2, i:i + 2]
    sparse = s['kind'] == 'sparse' or any(np.any(np.isnan(q)) for q in quads.values())
    tp = corners_of(surf)
    ok(not np.any(np.isnan(tp)), 'undefined point used by a triangle')
    per = 1 if sparse else (4 if s['quad'] else 2)
    if not sparse:
        eq(len(tp), per * len(quads), 'number of triangles')
        eq(surf.triangle_count(), len(tp), 'triangle count')
        cols = []
        for ti, tri in enumerate(tp):
            col = surf.column_from_triangle_index(ti)
            ok(tuple(col) in quads, f'triangle {ti} attributed to column {col}')
            cols.append(tuple(int(x) for x in col))
        ja, ia = surf.column_from_triangle_index(np.arange(len(tp)))
        eq([(int(a), int(b)) for a, b in zip(ja, ia)], cols, 'columns from an array of triangle indices')
        by_col = {c: [tp[k] for k in range(len(tp)) if cols[k] == c] for c in quads}
        eq(surf.column_from_triangle_index(len(tp)), (None, None), 'column for a triangle index out of range')
    else:
        eq(surf.column_from_triangle_index(0), (None, None), 'column for a mesh with undefined points')
        by_col = None
    want_sparse = []
    options = []
    for (j, i), q in quads.items():
        c = q.reshape((4, 3))
        a, b, d, e = c  # 00 01 10 11
        defined = ~np.isnan(c[:, 2])
        if sparse:
            if defined.sum() == 3:
                want_sparse.append(c[defined])
            elif defined.sum() == 4:
                options.append(((j, i), c))
        elif s['quad']:
            o = c.mean(axis = 0)
            same_triangles(by_col[j, i], [(o, a, b), (o, b, e), (o, e, d), (o, d, a)], f'triangles of column {j},{i}')
        else:
            two = [canon([(a, b, d), (b, d, e)]), canon([(a, b, e), (a, e, d)])]
            got = canon(by_col[j, i])
            ok(any(got.shape == w.shape and np.allclose(got, w, atol = 1.0e-4) for w in two), f'triangles of column {j},{i} do not halve the quad: {got.tolist()}')
    if sparse:
        left = [canon([x])[0] for x in tp]

        def take(tris):
            for t in tris:
                c = canon([t])[0]
                hit = [k for k, x in enumerate(left) if np.allclose(x, c, atol = 1.0e-4)]
                if not hit:
                    return False
                left.pop(hit[0])
            return True

        for w in want_sparse:
            ok(take([w]), f'triangle of three defined corners missing: {w.tolist()}')
        for ji, (a, b, d, e) in options:
            keep = list(left)
            if not take([(a, b, d), (b, d, e)]):
                left[:] = keep
                ok(take([(a, b, e), (a, e, d)]), f'defined quad {ji} not covered')
        eq(len(left), 0, 'triangles beyond those of defined corners')
        _, pts = surf.triangles_and_points()
        eq(len(pts), int(np.count_nonzero(~np.isnan(xyz[..., 2]))), 'number of points kept')
    if len(tp):
        m2, again = stored(m, surf, ctx)
        arr_close(corners_of(again), tp, 1.0e-9, 'triangles re-read from file')
        m3 = None
    ctx.label(s['kind'] + (' sparse' if sparse else ''))
    if len(tp) >= 4:
        ctx.nontrivial()


CELL = np.array([[[[0, 0, 0], [1, 0, 0]], [[0, 1, 0], [1, 1, 0]]], [[[0, 0, 1], [1, 0, 1]], [[0, 1, 1], [1, 1, 1]]]], dtype = float)


@st.composite
def shape_specs(draw):
    kind = draw(st.sampled_from(['sail', 'cells', 'plane', 'triangle', 'pair', 'cell', 'cells']))
    s = dict(kind = kind, quad = draw(st.booleans()), crs = draw(st.integers(0, 4)), seed = draw(st.integers(0, 10**6)), n = draw(st.integers(1, 4)))
    s['box'] = draw(st.tuples(fl(-20, 20, 2), fl(-20, 20, 2), fl(0.5, 30, 2), fl(0.5, 30, 2)))
    s['border'] = draw(st.sampled_from([0.0, 2.5, 10.0]))
    s['depth'] = draw(fl(-100, 100, 2))
    s['radius'] = draw(fl(1.0, 50.0, 1))
    s['azimuth'] = draw(fl(0.0, 360.0, 1))
    s['delta'] = draw(fl(1.0, 15.0, 1))
    s['flat'] = draw(st.booleans())
    s['lists'] = draw(st.booleans())
    return s


@check('shapes', shape_specs(), quick = 60, thorough = 800, rule = 'more than one triangle')
def shapes(s, ctx):
    m = ctx.new_model('s')
    crs = new_crs(m, s['crs'])
    rng = np.random.default_rng(s['seed'])
    surf = rqs.Surface(m, crs_uuid = crs.uuid, title = 'shape')
    kind, quad = s['kind'], s['quad']
    if kind in ('cell', 'cells'):
        n = 1 if kind == 'cell' else s['n']
        cp = CELL[None] * rng.uniform(5.0, 20.0, (n, 1, 1, 1, 3)) + rng.uniform(-1.0, 1.0, (n, 2, 2, 2, 3)) + rng.uniform(-50.0, 50.0, (n, 1, 1, 1, 3))
        given_cp = cp.copy()
        if kind == 'cell':
            surf.set_to_single_cell_faces_from_corner_points(given_cp[0], quad_triangles = quad)
        else:
            surf.set_to_multi_cell_faces_from_corner_points(given_cp.reshape((2, 2, 2, 3)) if n == 1 and s['flat'] else given_cp, quad_triangles = quad)
        arr_eq(given_cp, cp, 'corner points modified')
        tp = corners_of(surf)
        per = 4 if quad else 2
        eq(len(tp), n * 6 * per, 'number of triangles')
        got = {}
        cs, ax, po = surf.cell_axis_and_polarity_from_triangle_index(np.arange(len(tp)))
        for ti in range(len(tp)):
            key = tuple(int(x) for x in surf.cell_axis_and_polarity_from_triangle_index(ti))
            eq((int(cs[ti]), int(ax[ti]), int(po[ti])), key, 'cell face from an array of triangle indices')
            got.setdefault(key, []).append(tp[ti])
            local = surf.patch_list[key[0]].face_from_triangle_index(ti - key[0] * 6 * per)
            eq(tuple(int(x) for x in local), key[1:], 'face from triangle index of patch')
        centre = cp.mean(axis = (1, 2, 3))
        for c in range(n):
            for axis in range(3):
                for pol in range(2):
                    f = np.take(cp[c], pol, axis = axis).reshape((4, 3))
                    a, b, d, e = f
                    mine = got.get((c, axis, pol), [])
                    if quad:
                        o = f.mean(axis = 0)
                        same_triangles(mine, [(o, a, b), (o, b, e), (o, e, d), (o, d, a)], f'triangles of cell {c} face {axis},{pol}')
                    else:
                        two = [canon([(a, b, d), (b, d, e)]), canon([(a, b, e), (a, e, d)])]
                        g = canon(mine)
                        ok(any(g.shape == w.shape and np.allclose(g, w, atol = 1.0e-4) for w in two), f'triangles of cell {c} face {axis},{pol}: {g.tolist()}')
    elif kind == 'plane':
        x, y, dx, dy = s['box']
        box = np.array([[x, y, -3.0], [x + dx, y + dy, 9.0]])
        given = box.copy()
        surf.set_to_horizontal_plane(s['depth'], given, border = s['border'], quad_triangles = quad)
        arr_eq(given, box, 'box modified')
        tp = corners_of(surf)
        eq(len(tp), 4 if quad else 2, 'number of triangles')
        arr_close(tp[..., 2], np.full(tp.shape[:2], s['depth']), 1.0e-9, 'depth of horizontal plane')
        b = s['border']
        arr_close(tp[..., :2].reshape((-1, 2)).min(axis = 0), (x - b, y - b), 1.0e-9, 'minimum of plane')
        arr_close(tp[..., :2].reshape((-1, 2)).max(axis = 0), (x + dx + b, y + dy + b), 1.0e-9, 'maximum of plane')
        close(areas(tp).sum(), (dx + 2 * b) * (dy + 2 * b), 1.0e-6, 'area of plane')
        q = np.array([x - b, y - b, 0.0]) + rng.uniform(0.01, 0.99, (30, 3)) * np.array([dx + 2 * b, dy + 2 * b, 0.0])
        q[:, 2] = 0.0
        arr_close(surf.sample_z_at_xy_points(q), np.full(len(q), s['depth']), 1.0e-6, 'depth sampled within plane')
    elif kind == 'triangle':
        c = rng.uniform(-50.0, 50.0, (3, 3))
        surf.set_to_triangle(c)
        tp = corners_of(surf)
        same_triangles(tp, [c], 'single triangle')
    elif kind == 'pair':
        c = np.array([[0, 0, 0], [10, 0, 0], [0, 10, 0], [10, 10, 0]], dtype = float) + rng.uniform(-3.0, 3.0, (4, 3))
        surf.set_to_triangle_pair(c.reshape((2, 2, 3)) if s['flat'] else c)
        tp = corners_of(surf)
        a, b, d, e = c
        g = canon(tp)
        ok(any(g.shape == w.shape and np.allclose(g, w, atol = 1.0e-4) for w in (canon([(a, b, d), (b, d, e)]), canon([(a, b, e), (a, e, d)]))), 'triangle pair does not halve the quad')
    else:
        n = s['n']
        centre = rng.uniform(-10.0, 10.0, 3)
        surf.set_to_sail(n, centre.copy(), s['radius'], s['azimuth'], s['delta'])
        tp = corners_of(surf)
        eq(len(tp), n * n, 'number of triangles in sail')
        arr_close(np.linalg.norm(tp - centre, axis = -1), np.full(tp.shape[:2], s['radius']), 1.0e-6 * s['radius'], 'sail points not on sphere')
        t, p = surf.triangles_and_points()
        eq(len(np.unique(t)), (n + 1) * (n + 2) // 2, 'points used by sail')
        e, count = surf.distinct_edges_and_counts()
        eq(int(np.count_nonzero(count == 1)), 3 * n, 'rim edges of sail')
        eq(sorted(set(count.tolist()) - {1, 2}), [], 'edge use in sail')
        ok(np.all(areas(tp) > 0.0), 'degenerate triangle in sail')
    m2, again = stored(m, surf, ctx)
    arr_close(corners_of(again), tp, 1.0e-6, 'triangles re-read from file')
    ctx.label(kind)
    if len(tp) > 1:
        ctx.nontrivial()


@st.composite
def pset_specs(draw):
    s = dict(seed = draw(st.integers(0, 10**6)), n = draw(st.integers(4, 25)), crs = draw(st.integers(0, 4)), dip = draw(st.sampled_from([0.0, 70.0, 90.0, 30.0])), azi = draw(st.integers(0, 359)),
             reorient = draw(st.booleans()), flange = draw(st.booleans()), inner = draw(st.booleans()), count = draw(st.integers(5, 12)), factor = draw(st.sampled_from([10.0, 2.0, 4.0])),
             radial = draw(st.sampled_from([None, 20.0, 700.0])), saucer = draw(st.sampled_from([None, 0.0, 0.5, 0.9, 20.0, -35.0, 5.0])), clockwise = draw(st.booleans()),
             nans = draw(st.integers(0, 2)), patches = draw(st.integers(1, 2)), no_crs = draw(st.booleans()), noise = draw(st.sampled_from([0.5, 0.0, 3.0])), max_dip = draw(st.sampled_from([None, None, 20.0])))
    return s


def cw_sign(tp):
    """positive where the xy projection is clockwise by the left handed convention of the library."""
    a, b, c = tp[:, 0], tp[:, 1], tp[:, 2]
    return (c[:, 0] - a[:, 0]) * (b[:, 1] - a[:, 1]) - (c[:, 1] - a[:, 1]) * (b[:, 0] - a[:, 0])


@check('pointset', pset_specs(), quick = 90, thorough = 1200, rule = 'reorientation or flange in use')
def point_sets(s, ctx):
    m = ctx.new_model('s')
    crs = new_crs(m, s['crs'])
    rng = np.random.default_rng(s['seed'])
    n = s['n']
    local = rng.uniform(-50.0, 50.0, (n, 3))
    local[:, 2] = rng.uniform(-1.0, 1.0, n) * s['noise']
    if s['saucer'] is not None and 0.0 <= s['saucer'] < 1.0:  # extrapolation beyond the rim needs points with a convex rim around their centre
        n += 8
        local = np.concatenate((local * 0.5, np.zeros((8, 3))), axis = 0)
        ang = np.arange(8) * np.pi / 4.0 + rng.uniform(-0.1, 0.1, 8)
        local[-8:, 0], local[-8:, 1] = 50.0 * np.cos(ang), 50.0 * np.sin(ang)
        local[-8:, 2] = rng.uniform(-1.0, 1.0, 8) * s['noise']
    a, d = np.radians(s['azi']), np.radians(s['dip'])
    # in-plane axes of a plane dipping by d towards azimuth a
    u = np.array([np.cos(a), -np.sin(a), 0.0])
    v = np.array([np.sin(a) * np.cos(d), np.cos(a) * np.cos(d), -np.sin(d)])
    w = np.cross(u, v)
    p = local[:, :1] * u + local[:, 1:2] * v + local[:, 2:] * w + rng.uniform(-100.0, 100.0, 3)
    zf = 1.0
    if crs.xy_units != crs.z_units:
        zf = FT if crs.xy_units == 'm' else 1.0 / FT  # z value to xy units
    p[:, 2] /= zf
    full = p.copy()
    for k in range(s['nans']):
        full = np.insert(full, int(rng.integers(len(full) + 1)), [np.nan, 1.0, 2.0] if k else [np.nan] * 3, axis = 0)
    cut = len(full) // 2
    parts = [full[:cut].copy(), full[cut:].copy()] if s['patches'] == 2 else [full.copy()]
    ps = rqs.PointSet(m, crs_uuid = crs.uuid, title = 'points')
    for part in parts:
        ps.add_patch(part)
    reorient = s['reorient'] or s['dip'] > 45.0
    max_dip = s['max_dip'] if reorient and s['dip'] < 45.0 else None
    saucer = s['saucer'] if s['flange'] and reorient and max_dip is None else None
    surf = rqs.Surface(m, title = 'tri') if s['no_crs'] else rqs.Surface(m, crs_uuid = crs.uuid, title = 'tri')
    flange = surf.set_from_point_set(ps, reorient = reorient, reorient_max_dip = max_dip, extend_with_flange = s['flange'], flange_point_count = s['count'], flange_radial_factor = s['factor'],
                                     flange_radial_distance = s['radial'], flange_inner_ring = s['inner'], saucer_parameter = saucer, make_clockwise = s['clockwise'])
    arr_eq(np.nan_to_num(ps.full_array_ref(), nan = -1.0), np.nan_to_num(full, nan = -1.0), 'points of the point set modified')
    ok(bu.matching_uuids(surf.crs_uuid, crs.uuid), 'crs of surface')
    t, q = surf.triangles_and_points()
    tp = corners_of(surf)
    adj = q.copy()
    adj[:, 2] *= zf
    padj = p.copy()
    padj[:, 2] *= zf
    arr_close(q[:n], p, 1.0e-5, 'original points in surface')
    extra = s['count'] * (3 if s['inner'] else 1) if s['flange'] else 0
    eq(len(q), n + extra, 'number of points')
    if s['flange']:
        eq(flange.shape, (len(t),), 'flange array shape')
        arr_eq(np.asarray(flange, dtype = bool), np.any(t >= n, axis = 1), 'flange array')
    else:
        ok(flange is None, 'flange array given without a flange')
    # triangulation plane
    if reorient:
        c = padj - padj.mean(axis = 0)
        _, sv, vh = np.linalg.svd(c)
        normal = vh[2] if vh[2][2] >= 0 else -vh[2]
        if max_dip is not None:
            normal = np.asarray(surf.normal(), dtype = float)
            ok(np.degrees(np.arccos(min(1.0, normal[2] / np.linalg.norm(normal)))) <= max(max_dip, 0.0) + 0.01 or s['dip'] <= max_dip + 10.0, 'reorientation beyond maximum dip')
            normal = None
        elif sv[1] > 3.0 * sv[2] + 1.0e-9 and abs(normal[2]) > 1.0e-6:
            got_n = np.asarray(surf.normal(), dtype = float)
            close(abs(np.dot(got_n, normal)) / np.linalg.norm(got_n), 1.0, 1.0e-3, 'normal to plane of points')
        else:
            normal = None
    else:
        normal = np.array([0.0, 0.0, 1.0])
    if normal is not None:
        e1 = np.cross(normal, [0.3, 0.9, 0.1])
        e1 /= np.linalg.norm(e1)
        e2 = np.cross(normal, e1)
        flat = np.stack((adj @ e1, adj @ e2), axis = 1)
        tri2 = flat[t]
        signed = 0.5 * ((tri2[:, 1, 0] - tri2[:, 0, 0]) * (tri2[:, 2, 1] - tri2[:, 0, 1]) - (tri2[:, 1, 1] - tri2[:, 0, 1]) * (tri2[:, 2, 0] - tri2[:, 0, 0]))
        hull = ConvexHull(flat).volume
        close(np.abs(signed).sum(), hull, 1.0e-3 * hull, 'area covered in the plane of triangulation')
        # triangulation: no more than two triangles on an edge, hull once
        e, count = surf.distinct_edges_and_counts()
        ok(np.all(count <= 2), 'edge used by more than two triangles')
        if s['clockwise']:
            big = np.abs(signed) > 1.0e-3
            ok(len(set(np.sign(signed[big]).tolist())) <= 1, 'triangles not consistently ordered in the triangulation plane')
            # e1, e2, normal are right handed: signed > 0 is anticlockwise looking from +ve normal side with right handed axes
            ok(np.all(signed[big] < 0.0), 'triangles not clockwise by the library convention')
        if s['flange']:
            centre = padj.mean(axis = 0)
            spread = None
            rel = flat - np.stack((centre @ e1, centre @ e2))
            r = np.linalg.norm(rel, axis = 1)
            ring = r[n:]
            outer = ring[-s['count']:]
            close(outer.max(), outer.min(), 1.0e-3 * outer.max(), 'flange points not at constant distance')
            if s['radial'] is not None:
                ok(outer.min() >= s['radial'] * (1.0 - 1.0e-6), 'flange radius less than radial distance')
            ok(outer.min() >= s['factor'] * r[:n].max() * (1.0 - 1.0e-6) or s['radial'] is not None, 'flange radius less than factor of point radius')
            ok(outer.max() <= max(s['factor'] * r[:n].max() * 1.5, (s['radial'] or 0.0) * (1.0 + 1.0e-6)), 'flange radius too big')
            height = (adj - centre) @ normal
            if s['inner']:
                ir = ring[:-s['count']]
                ok(ir.min() > r[:n].max(), 'inner ring not outside points')
                ok(ir.max() < outer.min(), 'inner ring not inside flange')
            if saucer is None:
                arr_close(height[n:], np.zeros(len(height) - n), 1.0e-6 * outer.max() + 1.0e-6, 'flange out of plane')
            elif saucer > 1.0 or saucer < 0.0:
                arr_close(height[n:], -ring * np.tan(np.radians(saucer)), 1.0e-5 * outer.max(), 'saucer shift of flange')
    if saucer is not None and 0.0 <= saucer < 1.0 and normal is not None and s['noise'] == 0.0:
        arr_close(((adj - padj.mean(axis = 0)) @ normal)[n:], np.zeros(len(adj) - n), 1.0e-4 * np.abs(adj).max(), 'saucer flange of planar points out of plane')
    m2, again = stored(m, surf, ctx)
    arr_close(corners_of(again), tp, 1.0e-6, 'triangles re-read from file')
    if reorient or s['flange']:
        ctx.nontrivial()


# ------------------------------------------------------------------------------------------------------------------------ operations


@st.composite
def work_specs(draw, op = None):
    s = {k: draw(v) for k, v in free_d.items()}
    s['op'] = op or draw(st.sampled_from(['combine', 'rescale', 'split', 'clockwise', 'trim', 'resample', 'downsample']))
    s['box'] = draw(opt(st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(1, 5), st.integers(1, 5), fl(-8.0, 8.0, 1), st.sampled_from([0.0, 5.0, 500.0]))))
    s['flip'] = draw(st.integers(0, 7))
    s['poly'] = draw(opt(st.tuples(fl(0.0, 40.0, 1), fl(0.0, 40.0, 1), fl(3.0, 40.0, 1), st.integers(3, 7), st.booleans())))
    s['line'] = draw(st.tuples(fl(-10.0, 50.0, 1), fl(-10.0, 50.0, 1), fl(0.0, 360.0, 1), fl(1.0, 50.0, 1)))
    s['delta'] = draw(st.tuples(*[fl(-5.0, 5.0, 1)] * 6))
    s['scale'] = draw(st.sampled_from([2.0, 0.5, -1.0, 3.0, 1.7, 1.0, 0.0]))
    s['ref'] = draw(st.sampled_from([None, None, 0.0, 90.0]))
    if s['op'] == 'rescale':
        s['patches'] = draw(st.sampled_from([3, 2, 1, 3]))
        s['slope'] = draw(st.sampled_from([0.3, -0.4, s['slope'], s['slope']]))
        s['rough'] = draw(st.sampled_from([0.5, s['rough']]))
    s['reorient'] = draw(st.booleans())
    s['title'] = draw(st.sampled_from([None, 'mine']))
    s['points'] = draw(st.sampled_from([None, 3, 5, 8, 1000]))
    s['others'] = draw(st.lists(st.integers(0, 10**6), min_size = 1, max_size = 3))
    s['nest'] = draw(st.booleans())
    return s


@check('operations', work_specs(), quick = 400, thorough = 3000, rule = 'result neither empty nor the same as the original, for operations which may change it')
def operations(s, ctx):
    operations_body(s, ctx)


def operations_body(s, ctx):
    m = ctx.new_model('s')
    crs = new_crs(m, s['crs'])
    surf, patches, tp, rng = free_surface(m, s, crs)
    if s['file']:
        m, surf = stored(m, surf, ctx)
    op = s['op']
    ctx.label(op)
    flat_min, flat_max = tp.reshape((-1, 3)).min(axis = 0), tp.reshape((-1, 3)).max(axis = 0)

    if op == 'trim':
        base = flat_min
        box = poly = None
        inside = np.ones(tp.shape[:2], dtype = bool)
        if s['box'] is not None:
            x, y, dx, dy, z, dz = s['box']
            lo = np.array([base[0] - 5.0 + 10.0 * x + 0.00123, base[1] - 5.0 + 10.0 * y + 0.00371, flat_min[2] - 1.0 + z * 4.0 + 0.00157])
            hi = lo + np.array([10.0 * dx, 10.0 * dy, 30.0 + dz])
            if dz == 500.0:
                lo[2] = flat_min[2] - 300.0
                hi[2] = flat_max[2] + 300.0
            inside &= np.all((tp >= lo) & (tp <= hi), axis = -1)
            box = np.array([lo, hi])
            for a in range(3):
                if s['flip'] & (1 << a):
                    box[:, a] = box[::-1, a]
        if s['poly'] is not None or box is None:
            px, py, r, n, cw = s['poly'] or (15.0, 15.0, 17.0, 5, True)
            ang = np.arange(n) * 2.0 * np.pi / n + 0.137
            ring = np.stack((base[0] - 5.0 + px + r * np.cos(ang), base[1] - 5.0 + py + r * np.sin(ang), np.zeros(n)), axis = 1)
            side = []
            for k in range(n):
                e = ring[(k + 1) % n] - ring[k]
                v = tp[..., :2] - ring[k, :2]
                side.append((e[0] * v[..., 1] - e[1] * v[..., 0]) / np.linalg.norm(e))
            side = np.min(np.array(side), axis = 0)
            if np.any(np.abs(side) < 1.0e-3):
                return
            inside &= side > 0.0
            poly = rql.Polyline(m, set_coord = ring[::-1].copy() if cw else ring, set_crs = crs.uuid, is_closed = True, title = 'area')
        given = None if box is None else box.copy()
        small = rqs.Surface(m, crs_uuid = crs.uuid, title = s['title'] or '')
        small.set_to_trimmed_surface(surf, xyz_box = given, xy_polygon = poly)
        if box is not None:
            arr_eq(given, box, 'trimming box modified')
        want = tp[np.any(inside, axis = 1)]
        if len(want) == 0:
            eq(len(small.patch_list), 0, 'patches of surface trimmed to nothing')
            return
        same_triangles(corners_of(small), want, 'trimmed surface')
        eq(small.triangle_count(), len(want), 'triangle count of trimmed surface')
        _, p = small.triangles_and_points()
        t, _ = small.triangles_and_points()
        eq(len(np.unique(t)), len(p), 'points not in use in trimmed surface')
        start = 0
        k = 0
        for tt, pp in patches:
            keep = np.any(inside[start:start + len(tt)], axis = 1)
            if np.any(keep):
                same_triangles(corners_of(small, patch = k), pp[tt][keep], f'patch {k} of trimmed surface')
                k += 1
            start += len(tt)
        eq(small.number_of_patches(), k, 'number of patches')
        result = small
        if len(want) < len(tp):
            ctx.nontrivial()

    elif op == 'split':
        x, y, az, ln = s['line']
        a = flat_min[:2] + np.array([x, y]) + 0.00137
        v = np.array([np.sin(np.radians(az)), np.cos(np.radians(az))])
        line = np.zeros((2, 3))
        line[0, :2] = a
        line[1, :2] = a + ln * v
        delta = np.array(s['delta']).reshape((2, 3))
        right = (tp[..., 0] - a[0]) * v[1] - (tp[..., 1] - a[1]) * v[0]  # distance to the right, looking along the line, x right y up
        if np.any(np.abs(right) < 1.0e-3):
            return
        given = line.copy()
        parts = rqs.Surface(m, crs_uuid = crs.uuid, title = 'split')
        parts.set_to_split_surface(surf, given, delta.copy())
        arr_eq(given, line, 'line modified')
        r = tp[np.any(right > 0.0, axis = 1)] + delta[0]
        l = tp[np.any(right < 0.0, axis = 1)] + delta[1]
        same_triangles(corners_of(parts), np.concatenate((r, l), axis = 0), 'split surface')
        result = parts
        if len(r) and len(l):
            ctx.nontrivial()

    elif op == 'resample':
        fine = surf.resampled_surface(title = s['title'])
        want = []
        for a, b, c in tp:
            ab, bc, ca = (a + b) / 2.0, (b + c) / 2.0, (c + a) / 2.0
            want += [(a, ab, ca), (b, ab, bc), (c, bc, ca), (ab, bc, ca)]
        same_triangles(corners_of(fine), want, 'resampled surface')
        eq(fine.title, s['title'] or surf.title, 'title of resampled surface')
        eq(str((fine.extra_metadata or {}).get('resampled from surface')), str(surf.uuid), 'extra metadata of resampled surface')
        t, p = fine.triangles_and_points()
        eq(len(p), len(np.unique(np.round(p, 6), axis = 0)), 'coincident points in resampled surface')
        result = fine
        ctx.nontrivial()

    elif op == 'rescale':
        was = surf.normal().copy() if s['reorient'] else None
        surf.vertical_rescale_points(ref_depth = s['ref'], scaling_factor = s['scale'])
        ref = s['ref'] if s['ref'] is not None else flat_min[2]
        want = tp.copy()
        want[..., 2] = ref + s['scale'] * (tp[..., 2] - ref)
        same_ordered(corners_of(surf), want, 'rescaled surface', 1.0e-6)
        if was is not None and s['scale'] not in (1.0, 0.0) and s['rough'] == 0.0:
            pts = want.reshape((-1, 3)).copy()
            if crs.xy_units != crs.z_units:
                pts[:, 2] *= FT if crs.xy_units == 'm' else 1.0 / FT
            _, sv, vh = np.linalg.svd(pts - pts.mean(axis = 0))
            if sv[2] < 1.0e-6 * sv[1]:
                close(abs(np.dot(vh[2], surf.normal())), 1.0, 1.0e-4, 'normal after rescaling')
        surf.uuid = bu.new_uuid()
        result = surf
        tp = want
        if s['scale'] != 1.0:
            ctx.nontrivial()

    elif op == 'clockwise':
        if s['fold'] and not s['reorient']:
            return
        surf.make_all_clockwise_xy(reorient = s['reorient'])
        got = corners_of(surf)
        eq(len(got), len(tp), 'number of triangles')
        for k in range(len(tp)):
            arr_close(canon([got[k]]), canon([tp[k]]), 1.0e-6, f'triangle {k} changed')
        clockwise_ok(got, s, crs, surf)
        surf.uuid = bu.new_uuid()
        result = surf
        ctx.nontrivial()

    elif op == 'downsample':
        if s['fold']:
            return
        try:
            small = rqs.Surface.from_downsampling_surface(surf, point_count = s['points'], title = s['title'])
        except QhullError:
            ok(s['points'] is not None and s['points'] <= 6 or len(surf.triangles_and_points()[1]) < 600, 'no triangulation of many points')
            return  # the few points selected (at random) are in a line
        eq(small.title, s['title'] or surf.title, 'title')
        t, p = small.triangles_and_points()
        ft, fp = surf.triangles_and_points()
        want = max(3, len(fp) // 100) if s['points'] is None else s['points']
        if want >= len(fp):
            same_ordered(corners_of(small), tp, 'surface not in need of down-sampling')
        else:
            eq(len(p), want, 'points kept')
            for q in p:
                ok(np.min(np.max(np.abs(fp - q), axis = 1)) < 1.0e-9, 'point not from the original')
            if s['patches'] == 1 and not s['fold']:
                hull = ConvexHull(p[:, :2]).volume
                a, b, c = (p[t][:, k, :2] for k in range(3))
                close(0.5 * np.abs((b - a)[:, 0] * (c - a)[:, 1] - (b - a)[:, 1] * (c - a)[:, 0]).sum(), hull, 1.0e-3 * hull, 'area of down-sampled surface')
            ctx.nontrivial()
        arr_close(corners_of(surf), tp, 1.0e-9, 'original modified by down-sampling')
        return

    else:  # combine
        surfaces = [surf]
        corners = [tp]
        for k, seed in enumerate(s['others']):
            o, _, otp, _ = free_surface(m, dict(s, seed = seed, patches = 1 + k % 2), crs)
            surfaces.append(o)
            corners.append(otp)
        contents = list(range(len(surfaces)))
        if s['nest'] and len(surfaces) > 2:
            inner = rqs.CombinedSurface(surfaces[1:])
            lst = [surfaces[0], inner]
        else:
            inner = None
            lst = surfaces
        comb = rqs.CombinedSurface(lst, crs_uuid = crs.uuid if s['reorient'] else None)
        ok(bu.matching_uuids(comb.crs_uuid, crs.uuid), 'crs of combined surface')
        t, p = comb.triangles_and_points()
        same_ordered(p[t], np.concatenate(corners, axis = 0), 'combined surface')
        gi = 0
        for k, c in enumerate(corners):
            for li in range(len(c)):
                got = comb.surface_index_for_triangle_index(gi)
                if inner is None or k == 0:
                    eq(tuple(int(x) for x in got), (k, li), f'surface for triangle {gi}')
                else:
                    eq(int(got[0]), 1, f'surface for triangle {gi}')
                    sub = inner.surface_index_for_triangle_index(int(got[1]))
                    eq(tuple(int(x) for x in sub), (k - 1, li), f'surface for triangle {gi} in nested combination')
                gi += 1
        ok(comb.surface_index_for_triangle_index(gi) is None, 'surface for a triangle index out of range')
        for k, o in enumerate(surfaces):
            arr_close(corners_of(o), corners[k], 1.0e-9, 'contributing surface modified by combining')
        ctx.nontrivial()
        return

    now = corners_of(result)
    if op not in ('rescale', 'clockwise'):
        arr_close(corners_of(surf), tp, 1.0e-9, f'original modified by {op}')
    if not result.title:
        result.title = 'something'
    m2, again = stored(m, result, ctx)
    got = corners_of(again)
    arr_close(got, now, 1.0e-9, f'result of {op} re-read from file')
    if op == 'clockwise':
        clockwise_ok(got, s, crs, again)


@check('rescale', work_specs(op = 'rescale'), quick = 120, thorough = 800, rule = 'result not the same as the original')
def rescale(s, ctx):
    operations_body(s, ctx)


def clockwise_ok(got, s, crs, surf):
    if s['reorient']:
        pts = got.copy()
        if crs.xy_units != crs.z_units:
            pts[..., 2] *= FT if crs.xy_units == 'm' else 1.0 / FT
        _, p = surf.triangles_and_points()
        p = p.copy()
        if crs.xy_units != crs.z_units:
            p[:, 2] *= FT if crs.xy_units == 'm' else 1.0 / FT
        _, sv, vh = np.linalg.svd(p - p.mean(axis = 0))
        n = vh[2]
        if abs(n[2]) < 1.0e-4 or sv[2] > 0.3 * sv[1]:
            return
        n = n if n[2] > 0.0 else -n
        dot = np.cross(pts[:, 1] - pts[:, 0], pts[:, 2] - pts[:, 0]) @ n
        ok(np.all(dot < 1.0e-3), f'triangles not clockwise in the reoriented space: {dot.tolist()}')
    else:
        ok(np.all(cw_sign(got) > -1.0e-6), 'triangles not clockwise')


# ---------------------------------------------------------------------------------------------------------------------- measurements


@st.composite
def measure_specs(draw):
    s = {k: draw(v) for k, v in free_d.items()}
    s['patch'] = draw(opt(st.integers(0, 2)))
    s['uom'] = draw(st.sampled_from([None, 'ft', 'm', 'km']))
    s['axis'] = draw(st.integers(0, 2))
    s['frac'] = draw(fl(-0.1, 1.1, 3))
    s['prop'] = draw(st.booleans())
    s['layers'] = draw(st.booleans())
    s['handling'] = draw(st.sampled_from(['exception', 'any', 'minimum', 'maximum']))
    s['dims'] = draw(st.sampled_from([2, 3]))
    s['grid'] = draw(st.booleans())
    return s


def edge_distance(tri2, q):
    """Distance in xy of point q from the edges of triangle tri2."""
    d = np.inf
    for k in range(3):
        a, b = tri2[k], tri2[(k + 1) % 3]
        e = b - a
        l2 = e @ e
        f = 0.0 if l2 == 0.0 else min(1.0, max(0.0, ((q - a) @ e) / l2))
        d = min(d, np.linalg.norm(q - a - f * e))
    return d


def bary(tri2, q):
    a, b, c = tri2
    m = np.array([b - a, c - a]).T
    det = np.linalg.det(m)
    if abs(det) < 1.0e-9:
        return None
    u, v = np.linalg.solve(m, q - a)
    return np.array([1.0 - u - v, u, v])


@check('measures', measure_specs(), quick = 120, thorough = 1600, rule = 'some samples or lines hit and some miss')
def measures(s, ctx):
    m = ctx.new_model('s')
    crs = new_crs(m, s['crs'])
    surf, patches, tp, rng = free_surface(m, s, crs)
    if s['layers']:  # a second sheet above
        lift = np.array([1.3, -0.7, -40.0])
        patches = patches + [(t.copy(), p + lift) for t, p in patches]
        surf = rqs.Surface(m, crs_uuid = crs.uuid, title = 'free')
        surf.set_multi_patch_from_triangles_and_points(patches)
        tp = np.concatenate([p[t] for t, p in patches], axis = 0)
    file = s['file'] or s['prop']
    if file:
        m, surf = stored(m, surf, ctx)
    patch = None if s['patch'] is None or s['patch'] >= len(patches) else s['patch']
    mine = tp if patch is None else patches[patch][1][patches[patch][0]]
    zf = 1.0 if crs.xy_units == crs.z_units else (FT if crs.xy_units == 'm' else 1.0 / FT)
    same_ordered(corners_of(surf, patch = patch), mine, 'triangles')
    eq(surf.triangle_count(patch = patch), len(mine), 'triangle count')
    # edges
    t, p = surf.triangles_and_points(patch = patch)
    e, count = surf.distinct_edges_and_counts(patch = patch)
    want = {}
    for tri in t:
        for k in range(3):
            key = tuple(sorted((int(tri[k]), int(tri[(k + 1) % 3]))))
            want[key] = want.get(key, 0) + 1
    eq({tuple(int(x) for x in r): int(c) for r, c in zip(e, count)}, want, 'distinct edges and counts')
    eq(len(e), len(want), 'number of distinct edges')
    eq(sorted(tuple(int(x) for x in r) for r in surf.distinct_edges(patch = patch)), sorted(want), 'distinct edges')
    # edge lengths
    factor = {'m': 1.0, 'ft': FT, 'km': 1000.0}
    uom = s['uom'] or crs.xy_units
    adj = mine.copy()
    adj[..., :2] *= factor[crs.xy_units] / factor[uom]
    adj[..., 2] *= factor[crs.z_units] / factor[uom]
    lengths = np.stack([np.linalg.norm(adj[:, (k + 1) % 3] - adj[:, k], axis = -1) for k in range(3)], axis = 1)
    arr_close(surf.edge_lengths(required_uom = s['uom'], patch = patch), lengths, 1.0e-6 * max(1.0, lengths.max()), 'edge lengths')
    # normals
    up = mine.copy()
    up[..., 2] *= zf
    n = np.cross(up[:, 1] - up[:, 0], up[:, 2] - up[:, 0])
    n /= np.linalg.norm(n, axis = 1)[:, None]
    got = surf.normal_vectors(add_as_property = s['prop'] and patch is None, patch = patch)
    eq(got.shape, n.shape, 'shape of normal vectors')
    for k in range(len(n)):
        w = n[k].copy()
        if abs(w[2]) > 1.0e-7 and (w[2] > 0.0) == crs.z_inc_down:
            w = -w
        if abs(w[2]) <= 1.0e-7 and np.dot(w, got[k]) < 0.0:
            w = -w
        arr_close(got[k], w, 1.0e-6, f'normal vector of triangle {k}')
    if s['prop'] and patch is None:
        m.store_epc()
        m3 = ctx.reopen(m)
        parts = [x for x in m3.parts_list_of_type('PointsProperty')]
        eq(len(parts), 1, 'number of normal vector properties')
        prop = rqp.Property(m3, uuid = m3.uuid_for_part(parts[0]))
        arr_close(prop.array_ref(), got, 1.0e-6, 'normal vectors property')
        eq(prop.indexable_element(), 'faces', 'indexable element of normal vectors')
        ok(bu.matching_uuids(m3.supporting_representation_for_part(parts[0]) if False else prop.collection.support_uuid, surf.uuid), 'support of normal vectors')
    arr_close(corners_of(surf), tp, 1.0e-9, 'surface modified by measuring it')
    # axial crossings (whole surface)
    ta, pa = surf.triangles_and_points()
    axis = s['axis']
    lo, hi = pa[:, axis].min(), pa[:, axis].max()
    value = lo + s['frac'] * (hi - lo) + 0.000137
    cross = []
    keys = set()
    for tri in ta:
        for k in range(3):
            keys.add(tuple(sorted((int(tri[k]), int(tri[(k + 1) % 3])))))
    near = False
    for a, b in keys:
        za, zb = pa[a, axis] - value, pa[b, axis] - value
        if min(abs(za), abs(zb)) < 1.0e-7:
            near = True
        if za * zb < 0.0:
            f = za / (za - zb)
            cross.append(pa[a] + f * (pa[b] - pa[a]))
    if not near:
        x = surf.axial_edge_crossings(axis, value = value)
        if not cross:
            ok(x is None, 'axial crossings found where none')
        else:
            ok(x is not None, 'axial crossings not found')
            eq(len(x), len(cross), 'number of axial crossings')
            left = list(cross)
            for q in x:
                close(q[axis], value, 1.0e-6, 'axial crossing not at value')
                d = np.max(np.abs(np.array(left) - q), axis = 1)
                ok(d.min() < 1.0e-5, f'axial crossing {q} unexpected')
                left.pop(int(np.argmin(d)))
    # samples
    flat = mine[..., :2]
    f0, f1 = flat.reshape((-1, 2)).min(axis = 0), flat.reshape((-1, 2)).max(axis = 0)
    pts, zs = [], []
    for q in f0 - 5.0 + rng.uniform(0.0, 1.0, (40, 2)) * (f1 - f0 + 10.0):
        if min(edge_distance(tri, q) for tri in flat) < 1.0e-2:
            continue
        z = []
        for k, tri in enumerate(flat):
            b = bary(tri, q)
            if b is not None and np.all(b > 0.0):
                z.append(float(b @ mine[k, :, 2]))
        pts.append(q)
        zs.append(z)
    span = max(1.0, np.ptp(mine[..., 2]))
    hits = 0
    if pts:
        q = np.array(pts)
        if s['dims'] == 3:
            q = np.concatenate((q, rng.uniform(-1000.0, 1000.0, (len(q), 1))), axis = 1)
        if s['grid'] and len(q) > 1:
            q = q[:len(q) // 2 * 2].reshape((2, -1, s['dims']))
            zs = zs[:len(zs) // 2 * 2]
        given = q.copy()
        multiple = any(len(z) > 1 for z in zs)
        if s['handling'] == 'exception' and multiple:
            ok(raises(lambda: surf.sample_z_at_xy_points(given, multiple_handling = 'exception', patch = patch), ValueError), 'multiple intersections not refused')
            single = [i for i, z in enumerate(zs) if len(z) <= 1]
            given = given.reshape((-1, s['dims']))[single]
            zs = [zs[i] for i in single]
            q = given.copy()
        if given.size:
            z = surf.sample_z_at_xy_points(given, multiple_handling = s['handling'], patch = patch)
            arr_eq(given, q, 'sample points modified')
            eq(z.shape, q.shape[:-1], 'shape of sampled values')
            for got_z, want_z in zip(z.flatten(), zs):
                if not want_z:
                    ok(np.isnan(got_z), f'sample off the surface is {got_z}')
                    continue
                hits += 1
                if s['handling'] == 'minimum':
                    want_z = [min(want_z)]
                elif s['handling'] == 'maximum':
                    want_z = [max(want_z)]
                ok(min(abs(w - got_z) for w in want_z) < 1.0e-4 * span, f'sampled {got_z} where {want_z} expected ({s["handling"]})')
    # line intersections
    box0, box1 = mine.reshape((-1, 3)).min(axis = 0) - 2.0, mine.reshape((-1, 3)).max(axis = 0) + 2.0
    met = missed = 0
    for k in range(16):
        a = box0 + rng.uniform(0.0, 1.0, 3) * (box1 - box0)
        b = box0 + rng.uniform(0.0, 1.0, 3) * (box1 - box0)
        if k % 4 == 0:
            b[:2] = a[:2]  # vertical
        elif k % 4 == 1:
            b[2] = a[2]
        elif k % 4 == 2:  # aim at a triangle
            b = mine[int(rng.integers(len(mine)))].mean(axis = 0) + rng.uniform(-1.0, 1.0, 3)
        v = b - a
        if np.linalg.norm(v) < 1.0e-3:
            continue
        segment = bool(k % 2)
        want, close_call = [], False
        for tri in mine:
            e1, e2 = tri[1] - tri[0], tri[2] - tri[0]
            mat = np.array([e1, e2, -v]).T
            det = np.linalg.det(mat)
            scale = np.linalg.norm(np.cross(e1, e2)) * np.linalg.norm(v)
            if abs(det) < 1.0e-4 * scale:
                close_call = True
                continue
            x, y, tt = np.linalg.solve(mat, a - tri[0])
            bb = np.array([1.0 - x - y, x, y])
            if np.min(bb) > -0.01 and np.min(bb) < 0.01:
                close_call = True
            if segment and min(abs(tt), abs(tt - 1.0)) < 0.01 and np.min(bb) > -0.01:
                close_call = True
            if np.min(bb) > 0.0 and (not segment or 0.0 <= tt <= 1.0):
                want.append(a + tt * v)
        if close_call:
            continue
        got = surf.line_intersection(a.copy(), v.copy(), line_segment = segment, patch = patch)
        if not want:
            ok(got is None, f'intersection {got} found for a line missing the surface')
            missed += 1
        else:
            ok(got is not None, f'intersection not found; expected {want}')
            ok(min(np.max(np.abs(np.asarray(w) - got)) for w in want) < 1.0e-4, f'intersection at {got}; expected {want}')
            met += 1
    arr_close(corners_of(surf), tp, 1.0e-9, 'surface modified by measuring it')
    if hits and met and missed:
        ctx.nontrivial()


# --------------------------------------------------------------------------------------------------------------------- point sets


@st.composite
def points_specs(draw):
    return dict(seed = draw(st.integers(0, 10**6)), sizes = draw(st.lists(st.integers(1, 12), min_size = 1, max_size = 3)), op = draw(st.sampled_from(['polygon', 'rectangle', 'box'])),
                box = draw(st.tuples(*[fl(-40.0, 20.0, 1)] * 3, *[fl(5.0, 60.0, 1)] * 3)), poly = draw(st.tuples(fl(-30.0, 30.0, 1), fl(-30.0, 30.0, 1), fl(10.0, 60.0, 1), st.integers(3, 7), st.booleans())),
                delta = draw(st.sampled_from([5.0, 1.0, 10.0, 45.0])), file = draw(st.booleans()), squash = draw(fl(0.1, 1.0, 2)), turn = draw(st.integers(0, 359)))


@check('points', points_specs(), quick = 60, thorough = 800, rule = 'some points kept and some removed, or a rectangle not aligned with the axes')
def points(s, ctx):
    m = ctx.new_model('s')
    crs = new_crs(m, 2)
    rng = np.random.default_rng(s['seed'])
    ps = rqs.PointSet(m, crs_uuid = crs.uuid, title = 'points')
    every = []
    a = np.radians(s['turn'])
    rot = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    for n in s['sizes']:
        x = rng.uniform(-50.0, 50.0, (n, 3))
        x[:, 1] *= s['squash']
        x[:, :2] = x[:, :2] @ rot.T
        ps.add_patch(x.copy())
        every.append(x)
    every = np.concatenate(every, axis = 0)
    if s['file']:
        ps.write_hdf5()
        ps.create_xml()
        m.store_epc()
        m = ctx.reopen(m)
        ps = rqs.PointSet(m, uuid = ps.uuid)
    ctx.label(s['op'])
    if s['op'] == 'rectangle':
        d1, d2, r = ps.minimum_xy_area_rectangle(delta_theta = s['delta'])
        ok(d1 <= d2 + 1.0e-9, 'sides of rectangle in wrong order')
        ok(-1.0e-6 <= r <= 180.0, f'bearing of rectangle {r}')

        def extents(bearing):
            b = np.radians(bearing)
            u, v = np.array([np.sin(b), np.cos(b)]), np.array([np.cos(b), -np.sin(b)])
            return np.ptp(every[:, :2] @ u), np.ptp(every[:, :2] @ v)

        long, short = extents(r)
        close(long, d2, 1.0e-6, 'extent of points along bearing of longer side')
        close(short, d1, 1.0e-6, 'extent of points across longer side')
        best = min(np.prod(extents(k * s['delta'])) for k in range(int(180.0 / s['delta'])))
        ok(d1 * d2 <= best + 1.0e-6 * max(1.0, best), f'area {d1 * d2} is not the minimum {best}')
        arr_close(ps.full_array_ref(), every, 1.0e-9, 'points modified')
        if len(every) > 2:
            ctx.nontrivial()
        return
    if s['op'] == 'box':
        lo = np.array(s['box'][:3])
        hi = lo + np.array(s['box'][3:])
        keep = np.all((every >= lo) & (every <= hi), axis = 1)
        ps.trim_to_xyz_box(np.array([lo, hi]))
    else:
        x, y, r, n, cw = s['poly']
        ang = np.arange(n) * 2.0 * np.pi / n + 0.137
        ring = np.stack((x + r * np.cos(ang), y + r * np.sin(ang), np.zeros(n)), axis = 1)
        side = []
        for k in range(n):
            e = ring[(k + 1) % n] - ring[k]
            v = every[:, :2] - ring[k, :2]
            side.append((e[0] * v[:, 1] - e[1] * v[:, 0]) / np.linalg.norm(e))
        side = np.min(np.array(side), axis = 0)
        if np.any(np.abs(side) < 1.0e-3):
            return
        keep = side > 0.0
        poly = rql.Polyline(m, set_coord = ring[::-1].copy() if cw else ring, set_crs = crs.uuid, is_closed = True, title = 'area')
        ps.trim_to_xy_polygon(poly)
    eq(ps.patch_count, 1, 'patches of trimmed point set')
    got = ps.full_array_ref()
    eq(got.shape, (int(keep.sum()), 3), 'shape of trimmed points')
    arr_close(got, every[keep], 1.0e-9, 'trimmed points')
    arr_close(ps.single_patch_array_ref(0), every[keep], 1.0e-9, 'single patch of trimmed points')
    if np.any(keep):
        ps.write_hdf5()
        ps.create_xml(title = 'trimmed')
        m.store_epc()
        m2 = ctx.reopen(m)
        arr_close(rqs.PointSet(m2, uuid = ps.uuid).full_array_ref(), every[keep], 1.0e-9, 'trimmed points re-read')
        if not np.all(keep):
            ctx.nontrivial()
