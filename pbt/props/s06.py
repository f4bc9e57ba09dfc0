"""property-based testing: grid skins against faces worked out from corner points, and lines intersected with them here

Corner point grids (faulted, with gaps, pinched out, tilted) and regular grids have their skins made with each option.  Every
triangle of a skin must be part of the expected cell face and every outer, gap and fault face covered; layer, section, column
and cell surfaces likewise.  Random many part lines, starting outside or inside, are intersected with the faces here and the
first crossing, cell, axis, polarity and segment compared; near ties and crossings too near an edge are left out.
"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.surface as rqs
import resqpy.well as rqw
import resqpy.grid_surface as rqgs

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl
from pbt.lib.hits import *

seeds = st.integers(0, 10 ** 6)
GRIDS = gl.grid_specs(max_k = 4, max_ji = 4, undefined = False)


def in_set(p, corners, tol):
    return bool((np.abs(corners - p).max(axis = -1) < tol).any())


def judge_face_tris(tris, q, quad, what, tol):
    """Triangles of one face: all of the expected parts, no more."""
    eq(len(tris), 4 if quad else 2, f'{what}: number of triangles of a face')
    m = q.mean(axis = 0)
    if quad:
        want = [quad_tris(q)]
    else:
        want = [[q[[0, 1, 2]], q[[0, 2, 3]]], [q[[0, 1, 3]], q[[1, 2, 3]]]]
    for w in want:
        left = list(range(len(w)))
        for t in tris:
            for x in left:
                if all(in_set(v, t, tol) for v in w[x]) and all(in_set(v, w[x], tol) for v in t):
                    left.remove(x)
                    break
        if not left:
            return
    fail(f'{what}: triangles do not make up the face with corners {np.round(q, 3).tolist()}: {np.round(np.array(tris), 3).tolist()}')


def make_grid(s, ctx, kw = None):
    m = ctx.new_model('skin')
    crs = gl.make_crs(m, kw)
    cp, active, defined, gaps = gl.corner_model(s)
    g = gl.build(m, s, crs.uuid)
    gl.store(g, title = 'GRID')
    g = grr.Grid(m, uuid = g.uuid)
    eq(sorted(np.where(g.k_gap_after_array)[0].tolist()) if g.k_gaps else [], gaps, 'gaps of the grid')
    return m, crs, g, cp, gaps


def tolerance(cp):
    return 1.0e-6 * (1.0 + float(np.abs(cp).max()))


@check('skin', st.fixed_dictionaries(dict(grid = GRIDS, quad = st.booleans(), single = st.booleans())), quick = 150, thorough = 4000, shards = 2, rule = 'faults or gaps')
def skin(s, ctx):
    m, crs, g, cp, gaps = make_grid(s['grid'], ctx)
    fj, fi = splits(cp)
    if gaps or fj.any() or fi.any():
        ctx.nontrivial()
    tol = tolerance(cp)
    sk = rqgs.GridSkin(g, quad_triangles = s['quad'], use_single_layer_tactics = s['single'])
    nk, nj, ni = cp.shape[:3]
    single = s['single'] and not gaps
    t, p = sk.skin.triangles_and_points()
    found = {}
    for x in range(len(t)):
        surf, local = sk.skin.surface_index_for_triangle_index(x)
        f = sk.skin.surface_list[surf]
        if surf < 6 + 2 * len(gaps):
            a, b = (int(v) for v in f.column_from_triangle_index(local))
        if surf < 6:
            axis, pol = divmod(surf, 2)
            end = [0, (nk, nj, ni)[axis] - 1][pol]
            kji = [(end, a, b), (a, end, b), (a, b, end)][axis]
        elif surf < 6 + 2 * len(gaps):
            gap, base = divmod(surf - 6, 2)
            axis, pol = 0, 1 - base
            kji = (gaps[gap] + base, a, b)
        else:
            continue
        found.setdefault((kji, axis, pol, single and axis > 0), []).append(p[t[x]])
    # fault faces, found by place, as all layers together
    faults = [p[t[x]] for x in range(len(t)) if sk.skin.surface_index_for_triangle_index(x)[0] >= 6 + 2 * len(gaps)]
    want = set()
    for kji, axis, pol in skin_faces(cp, gaps):
        outer = axis == 0 or kji[axis] == (0, cp.shape[axis] - 1)[pol] and not (cp.shape[axis] == 1 and False)
        if not outer:
            continue
        if axis > 0 and single:
            if kji[0]:
                continue
            want.add((kji, axis, pol, True))
        else:
            want.add((kji, axis, pol, False))
    eq(set(found), want, 'faces of the skin')
    for (kji, axis, pol, one), tris in found.items():
        q = face_quad(cp, kji, axis, pol)
        if one:
            base = face_quad(cp, (nk - 1,) + kji[1:], axis, pol)
            q[2:] = base[2:]
        judge_face_tris(tris, q, s['quad'], f"{'KJI'[axis]}{'-+'[pol]} face of {kji}", tol)
    per = 4 if s['quad'] else 2
    qs = []
    for axis, split in ((1, fj), (2, fi)):
        for j, i in np.argwhere(split):
            for pol in (1, 0):
                kji = [0, int(j), int(i)]
                kji[axis] += 1 - pol
                q = face_quad(cp, kji, axis, pol)
                q[2:] = face_quad(cp, [nk - 1] + kji[1:], axis, pol)[2:]
                qs.append((kji[1:], axis, pol, q))
    eq(len(faults), per * len(qs), 'triangles of fault faces')
    for col, axis, pol, q in qs:
        m_ = q.mean(axis = 0)
        near = [x for x in faults if all(in_set(v, np.vstack((q, m_)), tol) for v in x)]
        ok(len(near) >= per, f"fault face {'KJI'[axis]}{'-+'[pol]} of column {col} missing")
    j_cols = sorted(tuple(int(v) for v in c) for c in sk.fault_j_face_cols_ji0) if sk.fault_j_face_cols_ji0 is not None else []
    eq(j_cols, sorted(tuple(int(v) for v in c) for c in np.argwhere(fj)), 'columns with fault on j face')


LINES = st.fixed_dictionaries(dict(knots = st.integers(2, 5), seed = seeds, start = st.sampled_from(['out', 'out', 'in']), style = st.sampled_from(['any', 'down', 'flat'])))


def judge_first(got, hits, faces, what, apart, tol):
    """Compare with nearest crossing; False if too close to call."""
    if not hits:
        ok(got[0] is None, f'{what}: crossing found at {got}')
        eq(tuple(got), (None,) * 5, f'{what}: when there is no crossing')
        return True
    seg, f, xyz, x, slack = hits[0]
    near = [h for h in hits if h[0] <= seg + 1 and np.linalg.norm(h[2] - xyz) < apart]
    if min(h[4] for h in near) < 1.0e-4:
        return False
    same = [h for h in near if np.linalg.norm(h[2] - xyz) < tol]
    if len(same) < len(near):
        return False
    ok(got[0] is not None, f'{what}: no crossing found, expected {np.round(xyz, 3)} into {faces[x]}')
    arr_close(np.asarray(got[0], dtype = float), xyz, tol, f'{what}: place of crossing')
    face = (tuple(int(v) for v in got[1]), int(got[2]), int(got[3]))
    ok(face in [faces[h[3]] for h in same], f'{what}: crossing of {[faces[h[3]] for h in same]} given as {face}')
    eq(int(got[4]), seg, f'{what}: segment')
    return True


@check('first', st.fixed_dictionaries(dict(grid = GRIDS, lines = st.lists(LINES, min_size = 2, max_size = 4), single = st.booleans(), mode = st.sampled_from(['plain', 'start', 'start_xyz', 'nudge', 'exclude']))), quick = 120, thorough = 3000, shards = 4, rule = 'a crossing into a grid with faults or gaps')
def first(s, ctx):
    m, crs, g, cp, gaps = make_grid(s['grid'], ctx)
    tol = tolerance(cp) * 10.0
    sk = rqgs.GridSkin(g, quad_triangles = True, use_single_layer_tactics = s['single'])
    faces = sorted(set(skin_faces(cp, gaps)))
    quads = [face_quad(cp, *f) for f in faces]
    apart = 0.3 if gaps else 0.01
    fj, fi = splits(cp)
    for l in s['lines']:
        rng = np.random.default_rng(l['seed'])
        pts = make_points(l, cp, rng)
        traj = make_trajectory(m, crs, pts)
        before = traj.control_points.copy()
        start, kw, sxyz = 0, {}, None
        if s['mode'] == 'start' and len(pts) > 2:
            start = int(rng.integers(0, len(pts) - 1))
            kw['start'] = start
        elif s['mode'] == 'start_xyz':
            start = int(rng.integers(0, len(pts) - 1))
            sxyz = pts[start] + rng.uniform(0.1, 0.9) * (pts[start + 1] - pts[start])
            kw.update(start = start, start_xyz = sxyz.copy())
        elif s['mode'] == 'nudge':
            start = int(rng.integers(0, len(pts) - 1))
            d = pts[start + 1] - pts[start]
            length = float(np.linalg.norm(d))
            n = float(rng.choice([-0.1, 0.05, 0.4, length * 0.5]))
            if rng.random() < 0.5:
                sxyz = pts[start] + 0.3 * d
                kw['start_xyz'] = sxyz.copy()
                kw['start'] = start
                sxyz = sxyz + n * d / length
            elif start == 0:
                sxyz = pts[0] + n * d / length
            else:
                kw['start'] = start
                sxyz = pts[start] + n * d / length
            kw['nudge'] = n
        hits = hits_of(pts, faces, quads, start, sxyz)
        hits = [h for h in hits if 0.0 <= h[1] <= 1.0 or h[4] < 1.0e-4]
        if s['mode'] == 'exclude':
            if len(hits) < 2 or hits[0][0] != hits[1][0] or np.linalg.norm(hits[0][2] - hits[1][2]) < 0.5 or len(hits) > 2 and np.linalg.norm(hits[2][2] - hits[1][2]) < 0.5 or gaps:
                continue
            a, b = faces[hits[0][3]], faces[hits[1][3]]
            if a[0] == b[0]:
                continue
            kw['exclude_kji0'] = a[0]
            hits = hits[1:]
        got = sk.find_first_intersection_of_trajectory(traj, **kw)
        if judge_first(got, hits, faces, f"{s['mode']}, {'one' if s['single'] else 'many'} layers", apart, tol) and hits and (gaps or fj.any() or fi.any()):
            ctx.nontrivial()
        if hits and faces[hits[0][3]][1] > 0:
            ctx.label('side or fault')
        arr_eq(traj.control_points, before, 'trajectory changed by looking for a crossing')
        if 'start_xyz' in kw and sxyz is not None and s['mode'] == 'start_xyz':
            arr_eq(kw['start_xyz'], sxyz, 'start point changed by looking for a crossing')


@check('regular', st.fixed_dictionaries(dict(n = st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5)), d = st.tuples(st.sampled_from([10.0, 33.0]), st.sampled_from([10.0, 20.0]), st.sampled_from([2.0, 5.0])), crs = st.sampled_from([{}, {'z_inc_down': False}, {'x_offset': 500.0}]), lines = st.lists(LINES, min_size = 2, max_size = 4), layer = st.integers(0, 4), lists = st.booleans())), quick = 150, thorough = 4000,
       rule = 'crossings of side faces')
def regular(s, ctx):
    m = ctx.new_model('regular')
    crs = gl.make_crs(m, s['crs'])
    n, d = tuple(s['n']), np.array(s['d'])
    g = grr.RegularGrid(m, extent_kji = n, dxyz = tuple(s['d']), crs_uuid = crs.uuid, title = 'BLOCK')
    g.create_xml(add_cell_length_properties = False)
    cp = np.zeros(n + (2, 2, 2, 3))
    for ix in np.ndindex(*n, 2, 2, 2):
        cp[ix] = np.array([ix[2] + ix[5], ix[1] + ix[4], ix[0] + ix[3]]) * d
    faces = sorted(set(skin_faces(cp, [])))
    quads = [face_quad(cp, *f) for f in faces]
    tol = tolerance(cp) * 10.0
    simple = rqgs.GridSkin(g, is_regular = True)
    t, p = simple.skin.triangles_and_points()
    eq(len(t), 12, 'triangles of simple skin')
    ext = np.array([n[2], n[1], n[0]]) * d
    tri = p[t]
    ok(((np.abs(tri) < 1.0e-6) | (np.abs(tri - ext) < 1.0e-6)).all(), 'simple skin has points away from the corners of the grid')
    area = np.linalg.norm(np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0]), axis = 1).sum() * 0.5
    close(float(area), 2.0 * float(ext[0] * ext[1] + ext[1] * ext[2] + ext[0] * ext[2]), 1.0e-6, 'area of simple skin', 1.0e-9)
    skins = [('simple', simple), ('full', rqgs.GridSkin(g)), ('layered', rqgs.GridSkin(g, use_single_layer_tactics = False)), ('two triangles', rqgs.GridSkin(g, quad_triangles = False))]
    layer = s['layer'] % n[0]
    trajs = []
    wants = []
    for l in s['lines']:
        rng = np.random.default_rng(l['seed'])
        pts = make_points(l, cp, rng)
        traj = make_trajectory(m, crs, pts)
        hits = [h for h in hits_of(pts, faces, quads) if 0.0 <= h[1] <= 1.0 or h[4] < 1.0e-4]
        if hits and faces[hits[0][3]][1] > 0:
            ctx.nontrivial()
        for what, sk in skins:
            judge_first(sk.find_first_intersection_of_trajectory(traj), hits, faces, what, 0.01, tol)
        for side, pol in (('top', 0), ('base', 1)):
            lf = [((layer, j, i), 0, pol) for j in range(n[1]) for i in range(n[2])]
            lq = [face_quad(cp, *f) for f in lf]
            lh = hits_of(pts, lf, lq)
            if lh and (min(h[4] for h in lh) < 1.0e-4):
                break
            for simple_too in (False, True):
                xyz, knot, col = rqgs.find_first_intersection_of_trajectory_with_layer_interface(traj, g, k0 = layer, ref_k_faces = side, is_regular = simple_too)
                what = f'{side} of layer, regular {simple_too}'
                if not lh:
                    eq((xyz, knot), (None, None), f'{what}: no crossing')
                    eq(tuple(col), (None, None), f'{what}: column where no crossing')
                else:
                    arr_close(np.asarray(xyz), lh[0][2], tol, f'{what}: place')
                    eq(int(knot), lh[0][0], f'{what}: segment')
                    eq(tuple(int(v) for v in col), lf[lh[0][3]][0][1:], f'{what}: column')


@check('surfaces', st.fixed_dictionaries(dict(grid = GRIDS, quad = st.booleans(), lines = st.lists(LINES, min_size = 1, max_size = 3), k = st.integers(0, 3), base = st.booleans(), axis = st.sampled_from('JIij'), slice = st.integers(0, 3), plus = st.booleans(), single = st.booleans(), lists = st.booleans())), quick = 150, thorough = 4000, shards = 2,
       rule = 'faults or gaps')
def surfaces(s, ctx):
    m, crs, g, cp, gaps = make_grid(s['grid'], ctx)
    nk, nj, ni = cp.shape[:3]
    tol = tolerance(cp)
    fj, fi = splits(cp)
    split = fj.any() or fi.any()
    if gaps or split:
        ctx.nontrivial()
    k0 = s['k'] % nk
    pol = int(s['base'])
    side = 'base' if pol else 'top'
    fns = [rqgs.generate_torn_surface_for_layer_interface] + ([] if split else [rqgs.generate_untorn_surface_for_layer_interface])
    per = 4 if s['quad'] else 2
    for fn in fns:
        surf = fn(g, k0 = k0, ref_k_faces = side, quad_triangles = s['quad'])
        t, p = surf.triangles_and_points()
        eq(len(t), per * nj * ni, f'{fn.__name__}: triangles')
        cols = {}
        for x in range(len(t)):
            cols.setdefault(tuple(int(v) for v in surf.column_from_triangle_index(x)), []).append(p[t[x]])
        a = surf.column_from_triangle_index(np.arange(len(t)))
        arr_eq(np.asarray(a), np.array([surf.column_from_triangle_index(x) for x in range(len(t))]).T, 'columns of an array of triangles')
        eq(set(cols), {(j, i) for j in range(nj) for i in range(ni)}, f'{fn.__name__}: columns')
        for (j, i), tris in cols.items():
            judge_face_tris(tris, face_quad(cp, (k0, j, i), 0, pol), s['quad'], f'{fn.__name__} {side} {(j, i)}', tol)
    # sections
    ax = 1 if s['axis'] in 'Jj' else 2
    sl = s['slice'] % cp.shape[ax]
    one = s['single'] and not gaps
    fns = [rqgs.generate_torn_surface_for_x_section] + ([] if g.has_split_coordinate_lines else [rqgs.generate_untorn_surface_for_x_section])
    for fn in fns:
        surf = fn(g, s['axis'], ref_slice0 = sl, plus_face = s['plus'], quad_triangles = s['quad'], as_single_layer = one)
        t, p = surf.triangles_and_points()
        n_other = cp.shape[3 - ax]
        eq(len(t), per * n_other * (1 if one else nk), f'{fn.__name__}: triangles')
        cells = {}
        for x in range(len(t)):
            cells.setdefault(tuple(int(v) for v in surf.column_from_triangle_index(x)), []).append(p[t[x]])
        for (k, o), tris in cells.items():
            kji = (k, sl, o) if ax == 1 else (k, o, sl)
            q = face_quad(cp, kji, ax, int(s['plus']))
            if one:
                q[2:] = face_quad(cp, (nk - 1,) + kji[1:], ax, int(s['plus']))[2:]
            judge_face_tris(tris, q, s['quad'], f'{fn.__name__} {kji}', tol)
    # a column face
    rng = np.random.default_rng(s['grid']['seed'])
    col = (int(rng.integers(0, nj)), int(rng.integers(0, ni)))
    mesh, surf = rqgs.create_column_face_mesh_and_surface(g, col, ax, int(s['plus']), quad_triangles = s['quad'], as_single_layer = s['single'])
    t, p = surf.triangles_and_points()
    eq(len(t), per * (1 if s['single'] else nk), 'triangles of column face')
    by_layer = {}
    for x in range(len(t)):
        by_layer.setdefault(int(surf.column_from_triangle_index(x)[1]), []).append(p[t[x]])
    for k, tris in by_layer.items():
        q = face_quad(cp, (k,) + col, ax, int(s['plus']))
        if s['single']:
            q[2:] = face_quad(cp, (nk - 1,) + col, ax, int(s['plus']))[2:]
        judge_face_tris(tris, q, s['quad'], f'column face {col} layer {k}', tol)
    # lines through a layer
    lf = [((k0, j, i), 0, pol) for j in range(nj) for i in range(ni)]
    lq = [face_quad(cp, *f) for f in lf]
    flat = all(abs(float(np.dot(np.cross(q[1] - q[0], q[2] - q[0]), q[3] - q[0]))) < 1.0e-6 for q in lq)
    quad = s['quad'] or not flat
    trajs, hits = [], []
    for l in s['lines']:
        pts = make_points(l, cp, np.random.default_rng(l['seed']))
        h = hits_of(pts, lf, lq)
        if h and min(x[4] for x in h) < 1.0e-4:
            continue
        trajs.append(make_trajectory(m, crs, pts))
        hits.append(h)
    if not trajs:
        return
    heal = False if split else s['single']
    if s['lists']:
        every = rqgs.find_intersections_of_trajectory_with_layer_interface(trajs, g, k0 = k0, ref_k_faces = side, heal_faults = heal, quad_triangles = quad)
        ones = list(zip(*rqgs.find_first_intersection_of_trajectory_with_layer_interface(trajs, g, k0 = k0, ref_k_faces = side, heal_faults = heal, quad_triangles = quad)))
    else:
        every = [rqgs.find_intersections_of_trajectory_with_layer_interface(x, g, k0 = k0, ref_k_faces = side, heal_faults = heal, quad_triangles = quad) for x in trajs]
        ones = [rqgs.find_first_intersection_of_trajectory_with_layer_interface(x, g, k0 = k0, ref_k_faces = side, heal_faults = heal, quad_triangles = quad) for x in trajs]
    for h, e, o in zip(hits, every, ones):
        if not h:
            eq((e[0], e[1]), (None, None), 'crossings of layer where none')
            eq((o[0], o[1], tuple(o[2])), (None, None, (None, None)), 'first crossing of layer where none')
            continue
        ctx.label('layer crossed')
        eq(sorted(tuple(int(v) for v in c) for c in e[0]), sorted(lf[x[3]][0][1:] for x in h), 'columns where layer crossed')
        want = {}
        for x in h:
            want.setdefault(lf[x[3]][0][1:], []).append(x[2])
        for c, xyz in zip(e[0], e[1]):
            ok(in_set(xyz, np.array(want[tuple(int(v) for v in c)]), tol * 10.0), f'place of crossing of layer in column {c}')
        if len(h) > 1 and h[0][0] == h[1][0] and h[1][1] - h[0][1] < 1.0e-4:
            continue
        arr_close(np.asarray(o[0]), h[0][2], tol * 10.0, 'place of first crossing of layer')
        eq(int(o[1]), h[0][0], 'segment of first crossing of layer')
        eq(tuple(int(v) for v in o[2]), lf[h[0][3]][0][1:], 'column of first crossing of layer')


@check('cells', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 3, max_ji = 3, undefined = False, inactive = False), seed = seeds, quad = st.booleans(), how = st.sampled_from(['knot', 'xyz', 'end of segment']))), quick = 200, thorough = 6000, rule = 'leaving a cell of a grid with noise')
def cells(s, ctx):
    m, crs, g, cp, gaps = make_grid(s['grid'], ctx)
    tol = tolerance(cp) * 10.0
    rng = np.random.default_rng(s['seed'])
    for _ in range(4):
        kji = tuple(int(rng.integers(0, x)) for x in cp.shape[:3])
        c = cp[kji]
        centre = c.reshape((-1, 3)).mean(axis = 0)
        lf = [(kji, axis, pol) for axis in range(3) for pol in (0, 1)]
        lq = [face_quad(cp, *f) for f in lf]
        vol = []
        for x, q in enumerate(lq):
            for tri in quad_tris(q):
                v = float(np.dot(np.cross(tri[1] - tri[0], tri[2] - tri[0]), centre - tri[0]))
                vol.append(v if (lf[x][1] + lf[x][2]) % 2 == 0 else -v)
        vol = np.array(vol)
        thin = np.abs(vol).max()
        lo, hi = c.reshape((-1, 3)).min(axis = 0), c.reshape((-1, 3)).max(axis = 0)
        if (hi - lo).min() < 0.01:
            ok(not rqgs.point_is_within_cell(centre, g, kji), 'point found to be within a cell without thickness') if np.abs(c[0] - c[1]).max() < 1.0e-6 else None
            continue
        signs = np.array([1.0] * 24)
        good = (np.abs(vol) > 1.0e-6 * thin)
        star = bool((vol[good] > 0).all() or (vol[good] < 0).all())
        inside = None
        for _ in range(6):
            x = lo + (hi - lo) * rng.uniform(-0.2, 1.2, 3)
            far = x + np.array([0.123, 0.217, 1.0]) * (np.abs(hi - lo).max() * 5.0)
            h = hits_of(np.array([x, far]), lf, lq)
            if any(v[4] < 1.0e-4 for v in h) or any(np.linalg.norm(v[2] - x) < 1.0e-3 for v in h):
                continue
            within = len(h) % 2 == 1
            to_centre = hits_of(np.array([x, centre]), lf, lq)
            if any(v[4] < 1.0e-4 for v in to_centre):
                continue
            if not star:
                continue
            eq(bool(rqgs.point_is_within_cell(x, g, kji)), within, f'point within cell {kji}')
            if within:
                inside = x
        if inside is None:
            continue
        d = rng.normal(size = 3)
        d /= np.linalg.norm(d)
        step = np.linalg.norm(hi - lo) * 1.5
        pts = np.array([inside - d * step * 0.3, inside, inside + d * step * 0.01, inside + d * step]) if s['how'] != 'xyz' else np.array([inside - d * step, inside + d * step, inside + d * step * 2.0])
        traj = make_trajectory(m, crs, pts)
        before = traj.control_points.copy()
        if s['how'] == 'knot':
            start, sxyz = 1, None
        elif s['how'] == 'xyz':
            start, sxyz = 0, inside
        else:
            start, sxyz = 0, inside  # at end of first segment
        h = hits_of(pts, lf, lq, start if s['how'] != 'end of segment' else 1, sxyz if s['how'] == 'xyz' else None)
        if not h or min(v[4] for v in h) < 1.0e-4 or np.linalg.norm(h[0][2] - inside) < 0.01:
            continue
        if s['grid'].get('noise'):
            ctx.nontrivial()
        given = None if sxyz is None else sxyz.copy()
        xyz, knot, axis, pol = rqgs.find_first_intersection_of_trajectory_with_cell_surface(traj, g, kji, start, start_xyz = given)
        ok(xyz is not None, f'no way found out of cell {kji}')
        arr_close(np.asarray(xyz), h[0][2], tol, 'place where line leaves cell')
        eq((int(knot), int(axis), int(pol)), (h[0][0],) + lf[h[0][3]][1:], 'segment and face where line leaves cell')
        arr_eq(traj.control_points, before, 'trajectory changed')
        if given is not None:
            arr_eq(given, sxyz, 'start point changed')


@check('overlap', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 2, max_ji = 3, undefined = False, inactive = False), seed = seeds, crs = st.sampled_from([None, {'rotation': 40.0}, {'rotation': 110.0, 'x_offset': 1000.0}, {'x_offset': 100.0, 'z_offset': -3.0}, {'xy_units': 'ft', 'z_units': 'ft'}, {'z_inc_down': False}]), place = st.sampled_from(['through', 'beside', 'near']), lazy = st.booleans())), quick = 200, thorough = 5000,
       rule = 'trajectory in another crs')
def overlap(s, ctx):
    m, crs, g, cp, gaps = make_grid(s['grid'], ctx)
    rng = np.random.default_rng(s['seed'])
    lo, hi = cp.reshape((-1, 3)).min(axis = 0), cp.reshape((-1, 3)).max(axis = 0)
    size = np.maximum(hi - lo, 1.0)
    if s['place'] == 'through':
        pts = lo + size * rng.uniform(-0.5, 1.5, (4, 3))
        pts[2] = cp.reshape((-1, 3)).mean(axis = 0)
    elif s['place'] == 'near':
        pts = lo + size * rng.uniform(-1.0, 2.0, (3, 3))
    else:
        pts = lo + size * rng.uniform(0.0, 1.0, (3, 3))
        ax = int(rng.integers(0, 3))
        pts[:, ax] += size[ax] * rng.choice([-1.5, 1.5])
    tp = pts.copy()
    tcrs = crs
    if s['crs'] is not None:
        ctx.nontrivial()
        kw = dict(s['crs'])
        tcrs = gl.make_crs(m, kw)
        crs.convert_array_to(tcrs, tp)  # conversions are judged elsewhere
    traj = make_trajectory(m, tcrs, tp)
    before = traj.control_points.copy()
    got = bool(rqgs.trajectory_grid_overlap(traj, g, lazy = s['lazy']))
    a, b = pts.min(axis = 0), pts.max(axis = 0)
    over = bool((a <= hi).all() and (b >= lo).all())
    if np.abs(np.concatenate((a - hi, b - lo))).min() > 1.0e-3:
        eq(got, over, 'overlap of trajectory and grid')
    arr_eq(traj.control_points, before, 'trajectory changed')
