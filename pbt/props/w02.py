"""property-based testing: blocked wells against the crossings of each cell's surface worked out here

Random many part paths through corner point grids (faulted, with gaps, pinched out, tilted, other crs) and regular grids are
blocked with each option.  The crossings of every cell's 24 triangles give the expected intervals with their cells, faces and
measured depths; where all are in general position the result must be the same, and otherwise weaker rules must hold.  The
result is compared with its access methods, its regular or irregular twin, and with what is read back from storage.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.derived_model as rqdm
import resqpy.well as rqw
import resqpy.grid_surface as rqgs
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl
from pbt.lib.hits import *

seeds = st.integers(0, 10 ** 6)
SHORT = 0.35  # passages shorter than this may be missed
TINY = 0.05  # and after those shorter than this, the wrong cell may be given


def well_points(s, cp):
    """Path starting above the top of the grid."""
    rng = np.random.default_rng(s['seed'])
    lo, hi = cp.reshape((-1, 3)).min(axis = 0), cp.reshape((-1, 3)).max(axis = 0)
    size = np.maximum(hi - lo, 1.0)
    mid = 0.5 * (lo + hi)
    first = mid + size * (rng.random(3) - 0.5) * (2.0 if s['style'] == 'outside' else 0.8)
    first[2] = lo[2] - rng.uniform(0.5, 20.0)
    out = [first]
    for _ in range(s['above']):
        p = out[-1] + (rng.random(3) - 0.5) * size * 0.2
        p[2] = lo[2] - rng.uniform(0.3, 1.0) * (lo[2] - out[-1][2])
        out.append(p)
    if s['style'] == 'outside':  # down alongside, then in from the side
        p = mid + size * np.array([rng.choice([-0.7, 0.7]), rng.uniform(-0.4, 0.4), 0.0])
        p[2] = lo[2] - 0.2
        out.append(p)
        out.append(p + np.array([0.0, 0.0, rng.uniform(0.2, 0.8) * size[2]]))
    for _ in range(s['knots']):
        w = 1.4 if s['style'] == 'wild' else 0.9
        out.append(mid + size * (rng.random(3) - 0.5) * w)
    if s['end'] == 'below':
        p = out[-1].copy()
        p[:2] += (rng.random(2) - 0.5) * 0.2 * size[:2]
        p[2] = hi[2] + 5.0
        out.append(p)
    return np.array(out)


PATH = st.fixed_dictionaries(dict(seed = seeds, above = st.integers(0, 1), knots = st.integers(1, 4), style = st.sampled_from(['tame', 'wild', 'outside']), end = st.sampled_from(['in', 'below'])))


def lengths(pts):
    return np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(pts, axis = 0), axis = 1))))


def passages(cp, pts):
    """Passages of the path through cells as (start, finish, kji, entry face, exit face), in order, with a doubt flag."""
    md = lengths(pts)
    doubt = 0
    out = []
    for kji in np.ndindex(*cp.shape[:3]):
        c = cp[kji]
        if np.abs(c[1, :, :, 2] - c[0, :, :, 2]).max() < 1.0e-6:
            continue
        faces = [(kji, a, p) for a in range(3) for p in range(2)]
        hits = hits_of(pts, faces, [face_quad(cp, *f) for f in faces])
        if any(h[4] < 2.0e-4 for h in hits):
            doubt = 2
        hits = [h for h in hits if h[4] >= 0.0]
        at = [(md[h[0]] + h[1] * (md[h[0] + 1] - md[h[0]]), faces[h[3]][1:]) for h in hits]
        at.sort(key = lambda a: a[0])
        k = 0
        while k < len(at):
            if k + 1 < len(at):
                out.append((at[k][0], at[k + 1][0], kji, at[k][1], at[k + 1][1]))
            else:
                out.append((at[k][0], md[-1], kji, at[k][1], (-1, -1)))
            k += 2
        # end of path within the cell only if an odd number of crossings: one near the end is doubtful
        if at and md[-1] - at[-1][0] < SHORT:
            doubt = max(doubt, 1)
    out.sort(key = lambda p: p[:2])
    return out, doubt


def expected(cp, pts):
    """Intervals as (start, finish, kji or None, entry, exit), with 0 for all clear, 1 for some doubt or 2 for too close to call."""
    ps, doubt = passages(cp, pts)
    res = []
    for p in ps:
        if p[1] - p[0] < SHORT:
            doubt = max(doubt, 2 if p[1] - p[0] < TINY else 1)
        if res:
            gap = p[0] - res[-1][1]
            if gap < -1.0e-3:
                doubt = max(doubt, 1)  # cells overlap
            if gap > 1.0e-3:
                if gap < SHORT:
                    doubt = max(doubt, 2 if gap < TINY else 1)
                res.append((res[-1][1], p[0], None, None, None))
        res.append(p)
    return res, doubt, ps


def judge_blocked(bw, grid, cp, pts, md_scale, tol, what):
    """Compares with expected intervals; returns True if everything could be compared."""
    want, doubt, ps = expected(cp, pts)
    if not want:
        ok(doubt or bw.node_count is None or bw.cell_count in (None, 0), f'{what}: cells blocked when none visited')
        return False
    if bw.node_count is None:
        ok(doubt, f'{what}: not blocked, though {len(ps)} cells are visited')
        return False
    got = read_out(bw, what)
    if got[0][2] is None:  # path goes through part of the surface of the grid where all cells are pinched out
        got = got[1:]
    merged = []
    for x in got:  # neighbouring unblocked intervals are as good as one
        if x[2] is None and merged and merged[-1][2] is None:
            merged[-1] = (merged[-1][0], x[1], None, None, None)
        else:
            merged.append(x)
    got = merged
    # weak rules first
    last = None
    for a, b, kji, en, ex in got:
        ok(b >= a - 1.0e-6, f'{what}: measured depths decrease')
        if kji is None or doubt > 1:
            continue
        mid = 0.5 * (a + b)
        near = [p for p in ps if p[2] == kji and p[0] * md_scale - 0.2 * md_scale <= mid <= p[1] * md_scale + 0.2 * md_scale]
        ok(near, f'{what}: path does not go through cell {kji} between {a} and {b}')
    if not doubt:
        g = [(x[2], x[3], x[4]) for x in got]
        w = [(x[2], x[3], x[4]) for x in want]
        if g != w:
            fail(f'{what}: intervals {[(round(x[0], 2), round(x[1], 2)) + x[2:] for x in got]}, expected {[(round(x[0] * md_scale, 2), round(x[1] * md_scale, 2)) + x[2:] for x in want]}')
        arr_close(np.array([x[:2] for x in got]), np.array([x[:2] for x in want]) * md_scale, tol * md_scale, f'{what}: measured depths of intervals')
    return not doubt


def read_out(bw, what):
    """Intervals from the arrays, after checking that those agree with each other."""
    n, c = bw.node_count, bw.cell_count
    mds, gi, ci, fp = np.asarray(bw.node_mds), np.asarray(bw.grid_indices), np.asarray(bw.cell_indices), np.asarray(bw.face_pair_indices)
    eq((mds.shape, gi.shape, ci.shape, fp.reshape((-1, 2, 2)).shape), ((n,), (n - 1,), (c,), (c, 2, 2)), f'{what}: shapes')
    eq(int((gi >= 0).sum()), c, f'{what}: number of blocked intervals')
    grid = bw.single_grid()
    out, k = [], 0
    for x in range(n - 1):
        if gi[x] < 0:
            out.append((float(mds[x]), float(mds[x + 1]), None, None, None))
        else:
            kji = tuple(int(v) for v in np.unravel_index(int(ci[k]), tuple(grid.extent_kji)))
            f = fp.reshape((-1, 2, 2))[k]
            out.append((float(mds[x]), float(mds[x + 1]), kji, tuple(int(v) for v in f[0]), tuple(int(v) for v in f[1])))
            k += 1
    return out


def judge_access(bw, g, what):
    got = read_out(bw, what)
    cells = [x[2] for x in got if x[2] is not None]
    arr_eq(np.asarray(bw.cell_indices_kji0()), np.array(cells, dtype = int).reshape((-1, 3)), f'{what}: cells')
    ck, gs = bw.cell_indices_and_grid_list()
    arr_eq(np.asarray(ck), np.array(cells, dtype = int).reshape((-1, 3)), f'{what}: cells and grids')
    ok(all(bu.matching_uuids(x.uuid, g.uuid) for x in gs) and len(gs) == len(cells), f'{what}: grids')
    arr_eq(np.asarray(bw.cell_indices_for_grid_uuid(g.uuid)), np.array(cells, dtype = int).reshape((-1, 3)), f'{what}: cells for grid')
    eq(len(bw.cell_indices_for_grid_uuid(bu.new_uuid())), 0, f'{what}: cells for another grid')
    eq([str(u) for u in bw.grid_uuid_list()], [str(g.uuid)], f'{what}: grid uuids')
    eq(bw.number_of_grids(), 1, f'{what}: number of grids')
    eq(list(bw.compressed_grid_indices()), [0] * len(cells), f'{what}: compressed grid indices')
    want, k = [], 0
    for x, iv in enumerate(got):
        want.append(-1 if iv[2] is None else k)
        if iv[2] is not None:
            eq(int(bw.interval_for_cell(k)), x, f'{what}: interval for cell')
            arr_eq(np.array(bw.entry_and_exit_mds(k), dtype = float), np.array(iv[:2]), f'{what}: entry and exit depths')
            k += 1
    eq([int(x) for x in bw.map_cell_and_grid_indices()], want, f'{what}: map of cells to intervals')
    arr_eq(np.asarray(bw.face_pair_array()).reshape((-1, 2, 2)), np.array([[x[3], x[4]] for x in got if x[2] is not None]), f'{what}: face pairs')
    arr_eq(np.asarray(bw.box()), np.array([np.min(cells, axis = 0), np.max(cells, axis = 0)]), f'{what}: box')
    arr_eq(np.asarray(bw.box(g.uuid)), np.array([np.min(cells, axis = 0), np.max(cells, axis = 0)]), f'{what}: box for grid')
    k = 0
    for a, b, kji, en, ex in got:
        if b - a > 1.0e-3:
            c, f = bw.wb_cell_for_md(a + 0.3 * (b - a))
            eq(int(c), -1 if kji is None else k, f'{what}: cell for md')
            close(float(f), 0.3, 1.0e-6, f'{what}: fraction for md')
        if kji is not None:
            k += 1
    eq((bw.wb_cell_for_md(got[0][0] - 1.0), bw.wb_cell_for_md(got[-1][1] + 1.0)), ((-1, 0.0), (-1, 1.0)), f'{what}: cell for md beyond the ends')
    kji, gu = bw.kji0_marker()
    eq((tuple(int(v) for v in kji), str(gu)), (cells[0], str(g.uuid)), f'{what}: first cell')
    iv = [x for x in got if x[2] is not None][0]
    xyz, cu = bw.xyz_marker()
    arr_close(np.asarray(xyz), np.asarray(bw.trajectory.xyz_for_md(0.5 * (iv[0] + iv[1]))), 1.0e-9, f'{what}: marker')
    ok(bu.matching_uuids(cu, bw.trajectory.crs_uuid), f'{what}: crs of marker')


def same_blocked(a, b, what, tol = 1.0e-9):
    eq((a.node_count, a.cell_count), (b.node_count, b.cell_count), f'{what}: counts')
    arr_close(np.asarray(a.node_mds), np.asarray(b.node_mds), tol, f'{what}: measured depths')
    for n in ('grid_indices', 'cell_indices'):
        arr_eq(np.asarray(getattr(a, n)), np.asarray(getattr(b, n)), f'{what}: {n}')
    arr_eq(np.asarray(a.face_pair_indices).reshape((-1, 2, 2)), np.asarray(b.face_pair_indices).reshape((-1, 2, 2)), f'{what}: faces')


def store_and_read(bw, t, ctx, m, g, s, what):
    if s.get('interp'):
        bw.create_feature_and_interpretation()
    bw.write_hdf5()
    bw.create_xml()
    m.store_epc()
    m2 = ctx.reopen(m)
    b2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    same_blocked(b2, bw, what, 1.0e-9)
    ok(bu.matching_uuids(b2.trajectory.uuid, t.uuid), f'{what}: trajectory')
    eq(b2.title, bw.title, f'{what}: title')
    judge_access(b2, g, what)
    if s.get('interp'):
        ok(b2.wellbore_interpretation is not None and bu.matching_uuids(b2.wellbore_interpretation.uuid, bw.wellbore_interpretation.uuid), f'{what}: interpretation')
    else:
        ok(b2.wellbore_interpretation is None, f'{what}: interpretation')
    return b2


TCRS = st.sampled_from([None, None, {'x_offset': 100.0, 'z_offset': -20.0}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'ft'}, {'rotation': 30.0}])


def given_points(m, crs, tcrs_kw, pts):
    """Crs of the trajectory, with the points converted for it."""
    if tcrs_kw is None:
        return crs, pts
    kw = dict(tcrs_kw)
    tcrs = gl.make_crs(m, kw)
    p = pts.copy()
    crs.convert_array_to(tcrs, p)
    return tcrs, p


@check('general', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 4, max_ji = 4, undefined = False), path = PATH, tcrs = TCRS, single = st.booleans(), via = st.sampled_from(['init', 'method', 'function']), interp = st.booleans(), store = st.booleans())), quick = 120, thorough = 3000, shards = 4,
       rule = 'all of three or more intervals compared')
def general(s, ctx):
    m = ctx.new_model('well')
    crs = gl.make_crs(m)
    cp, active, defined, gaps = gl.corner_model(s['grid'])
    g = gl.build(m, s['grid'], crs.uuid)
    gl.store(g, title = 'GRID')
    g = grr.Grid(m, uuid = g.uuid)
    pts = well_points(s['path'], cp)
    if lengths(pts)[-1] < 1.0 or np.linalg.norm(np.diff(pts, axis = 0), axis = 1).min() < 0.5:
        return
    tcrs, tp = given_points(m, crs, s['tcrs'], pts)
    t = make_trajectory(m, tcrs, tp)
    t.write_hdf5()
    t.create_xml()
    before = t.control_points.copy()
    if s['via'] == 'init':
        bw = rqw.BlockedWell(m, grid = g, trajectory = t)
    elif s['via'] == 'method':
        bw = rqw.BlockedWell(m, well_name = 'MINE')
        bw.compute_from_trajectory(t, g, use_single_layer_tactics = s['single'])
    else:
        bw = rqw.BlockedWell(m, well_name = 'W')
        bw.trajectory = t
        got = rqgs.populate_blocked_well_from_trajectory(bw, g, use_single_layer_tactics = s['single'])
        ok(got is bw or got is None, 'returned by function')
        if got is None:
            bw.node_count = None
    arr_eq(t.control_points, before, 'trajectory changed')
    scale = lengths(tp)[-1] / lengths(pts)[-1]
    good = judge_blocked(bw, g, cp, pts, scale, 2.0e-3, 'general')
    if bw.node_count is None or not bw.cell_count:
        return
    if good and bw.node_count > 3:
        ctx.nontrivial()
        if (np.asarray(bw.grid_indices) < 0).any():
            ctx.label('unblocked')
    if s['via'] != 'function':
        eq(bw.title, 'MINE' if s['via'] == 'method' else 'W', 'title')
    judge_access(bw, g, 'made')
    if s['store']:
        store_and_read(bw, t, ctx, m, g, s, 'stored')


@check('regular', st.fixed_dictionaries(dict(n = st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5)), d = st.tuples(st.sampled_from([10.0, 33.0]), st.sampled_from([10.0, 20.0]), st.sampled_from([3.0, 5.0])), crs = st.sampled_from([{}, {'z_inc_down': False}, {'x_offset': 500.0}]), path = PATH, tcrs = TCRS, mirror = st.booleans(), interp = st.booleans())), quick = 90, thorough = 2500, shards = 4, rule = 'all of three or more intervals compared')
def regular(s, ctx):
    m = ctx.new_model('regular')
    crs = gl.make_crs(m, s['crs'])
    n, d = tuple(s['n']), np.array(s['d'])
    up = s['crs'].get('z_inc_down') is False
    if up:
        d[2] = -d[2]
    cp = np.zeros(n + (2, 2, 2, 3))
    for kji in np.ndindex(*n):
        for c in np.ndindex(2, 2, 2):
            cp[kji + c] = d * np.array([kji[2] + c[2], kji[1] + c[1], kji[0] + c[0]])
    pts = well_points(s['path'], cp * (np.array([1.0, 1.0, -1.0]) if up else 1.0))
    if up:
        pts[:, 2] = -pts[:, 2]
    if np.linalg.norm(np.diff(pts, axis = 0), axis = 1).min() < 0.5:
        return
    g = grr.RegularGrid(m, extent_kji = n, dxyz = tuple(d), crs_uuid = crs.uuid, title = 'BLOCK')
    g.create_xml(add_cell_length_properties = False)
    tcrs, tp = given_points(m, crs, s['tcrs'], pts)
    t = make_trajectory(m, tcrs, tp)
    t.write_hdf5()
    t.create_xml()
    scale = lengths(tp)[-1] / lengths(pts)[-1]
    bw = rqw.BlockedWell(m, grid = g, trajectory = t)
    good = judge_blocked(bw, g, cp, pts, scale, 2.0e-3, 'regular')
    # the same cells as corner points
    h = grr.RegularGrid(m, extent_kji = n, dxyz = tuple(d), crs_uuid = crs.uuid, title = 'POINTS', as_irregular_grid = True)
    h.write_hdf5()
    h.create_xml(write_geometry = True)
    h = grr.Grid(m, uuid = h.uuid)
    bh = rqw.BlockedWell(m, grid = h, trajectory = t)
    if good:
        judge_blocked(bh, h, cp, pts, scale, 2.0e-3, 'as corner points')
        same_blocked(bw, bh, 'regular and general', 2.0e-3 * scale)
        if bw.node_count > 3:
            ctx.nontrivial()
    if bw.node_count is None or not bw.cell_count:
        return
    judge_access(bw, g, 'regular')
    store_and_read(bw, t, ctx, m, g, s, 'stored')


@check('options', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 4, max_ji = 4, undefined = False, gaps = False), path = PATH, mode = st.sampled_from(['active', 'lazy', 'no reentry', 'surface']), seed = seeds)), quick = 120, thorough = 3000, shards = 4, rule = 'all of three or more intervals compared, and some left out')
def options(s, ctx):
    m = ctx.new_model('options')
    crs = gl.make_crs(m)
    spec = dict(s['grid'])
    if s['mode'] in ('active', 'surface'):
        spec['inactive'] = 0.3
    cp, active, defined, gaps = gl.corner_model(spec)
    g = gl.build(m, spec, crs.uuid)
    gl.store(g, title = 'GRID')
    g = grr.Grid(m, uuid = g.uuid)
    g.extract_inactive_mask()
    pts = well_points(s['path'], cp)
    if np.linalg.norm(np.diff(pts, axis = 0), axis = 1).min() < 0.5:
        return
    t = make_trajectory(m, crs, pts)
    t.write_hdf5()
    t.create_xml()
    want, doubt, ps = expected(cp, pts)
    if doubt or not want:
        return
    bw = rqw.BlockedWell(m, well_name = 'W')
    if s['mode'] == 'active':
        bw.compute_from_trajectory(t, g, active_only = True)
        want = [x if x[2] is None or active[x[2]] else x[:2] + (None, None, None) for x in want]
    elif s['mode'] == 'lazy':
        bw.compute_from_trajectory(t, g, lazy = True)
        if want[0][3] != (0, 0):
            return
        for k, x in enumerate(want):
            if x[2] is None:
                want = want[:k]
                break
    elif s['mode'] == 'no reentry':
        bw.trajectory = t
        if rqgs.populate_blocked_well_from_trajectory(bw, g, check_for_reentry = False) is None:
            bw.node_count = None
        return_at = None
        for k, x in enumerate(want):
            if x[2] is None:
                f = want[k - 1]
                kji, (a, p) = list(f[2]), f[4]
                kji[a] += 2 * p - 1
                if a == 0 or not 0 <= kji[a] < cp.shape[a]:
                    return_at = k
                    break
        if return_at is not None:
            if s['grid'].get('faults') and any(want[k][2] is None for k in range(return_at)):
                return
            want = want[:return_at]
    else:
        bw.compute_from_trajectory(t, g)
    if bw.node_count is None:
        fail(f"{s['mode']}: not blocked")
    got = read_out(bw, s['mode'])
    if got[0][2] is None and want[0][2] is not None:
        got = got[1:]

    def merge(a):
        out = []
        for x in a:
            if x[2] is None and out and out[-1][2] is None:
                out[-1] = (out[-1][0], x[1], None, None, None)
            else:
                out.append(x)
        return out
    got, want = merge(got), merge(want)
    g_, w_ = [x[2:] for x in got], [x[2:] for x in want]
    if g_ != w_:
        fail(f"{s['mode']}: intervals {[(round(x[0], 2), round(x[1], 2)) + x[2:] for x in got]}, expected {[(round(x[0], 2), round(x[1], 2)) + x[2:] for x in want]}")
    arr_close(np.array([x[:2] for x in got]), np.array([x[:2] for x in want]), 2.0e-3, f"{s['mode']}: measured depths")
    if len(want) > 2 and (s['mode'] != 'active' or any(x[2] is None for x in want)):
        ctx.nontrivial()
    if s['mode'] == 'active' and bw.cell_count:
        same_blocked(store_and_read(bw, t, ctx, m, g, s, 'active only'), bw, 'active only')
    if s['mode'] == 'surface':
        rng = np.random.default_rng(s['seed'])
        kw = {}
        if rng.random() < 0.5:
            kw['active_only'] = True
        if rng.random() < 0.3:
            kw['min_k0'] = 1
        if rng.random() < 0.3:
            kw['max_k0'] = max(0, cp.shape[0] - 2)
        if rng.random() < 0.3:
            kw['depth_limit'] = float(cp[..., 2].mean())
        cells = [x[2] for x in want if x[2] is not None]
        if 'depth_limit' in kw and min(abs(cp[c].reshape((-1, 3)).mean(axis = 0)[2] - kw['depth_limit']) for c in cells) < 1.0e-3:
            return
        cells = [c for c in cells if (not kw.get('active_only') or active[c]) and c[0] >= kw.get('min_k0', 0) and c[0] <= kw.get('max_k0', 99) and
                 ('depth_limit' not in kw or cp[c].reshape((-1, 3)).mean(axis = 0)[2] <= kw['depth_limit'])]
        one = rqgs.generate_surface_for_blocked_well_cells(bw, **kw)
        each = rqgs.generate_surface_for_blocked_well_cells(bw, combined = False, **kw)
        if not cells:
            ok(one is None and (each is None or len(each) == 0), 'surface when no cells chosen')
            return
        eq(len(each), len(cells), 'number of cell surfaces')
        whole = []
        for c, sf in zip(cells, each):
            tr, p = sf.triangles_and_points()
            eq(len(tr), 24, 'triangles of a cell')
            expect = np.array([q for a in range(3) for pol in range(2) for q in quad_tris(face_quad(cp, c, a, pol))])
            whole.append(expect)
            same_triangles(p[tr], expect, f'surface of cell {c}')
        tr, p = one.triangles_and_points()
        same_triangles(p[tr], np.concatenate(whole), 'surface of all cells')


def same_triangles(got, want, what):
    def norm(a):
        c = np.sort(np.round(a, 4).reshape((len(a), 9)).reshape((-1, 3, 3)), axis = 1)
        m = np.round(a.mean(axis = 1), 3) + 0.0
        r = np.round(np.sqrt(((a - a.mean(axis = 1)[:, None]) ** 2).sum(axis = (1, 2))), 3)
        return np.column_stack((m, r))
    eq(len(got), len(want), f'{what}: number of triangles')
    x, y = norm(got), norm(want)
    left = list(range(len(y)))
    for row in x:
        d = np.abs(y[left] - row).max(axis = 1)
        k = int(np.argmin(d))
        ok(d[k] < 0.01, f'{what}: triangle centred at {row[:3]} not expected')
        left.pop(k)


@check('column', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 5, max_ji = 3, undefined = False, faults = False, gaps = False, noise = True), seed = seeds, via = st.sampled_from(['init', 'method', 'cells']), skip = st.booleans())), quick = 120, thorough = 3000, shards = 2, rule = 'some cells left out')
def column(s, ctx):
    m = ctx.new_model('column')
    crs = gl.make_crs(m)
    spec = dict(s['grid'])
    if 'k' in spec.get('flip', ''):
        spec.pop('flip')
    if s['seed'] % 2:
        spec['inactive'] = 0.3
    cp, active, defined, gaps = gl.corner_model(spec)
    g = gl.build(m, spec, crs.uuid)
    gl.store(g, title = 'GRID')
    g = grr.Grid(m, uuid = g.uuid)
    g.extract_inactive_mask()
    rng = np.random.default_rng(s['seed'])
    j, i = int(rng.integers(0, cp.shape[1])), int(rng.integers(0, cp.shape[2]))
    thick = np.array([np.abs(cp[k, j, i, 1] - cp[k, j, i, 0])[..., 2].max() > 1.0e-6 for k in range(cp.shape[0])])
    ks = [k for k in range(cp.shape[0]) if thick[k] and (active[k, j, i] or (s['via'] == 'method' and not s['skip']))]
    if s['via'] == 'cells':
        ks = [k for k in range(cp.shape[0]) if thick[k]]
    if not ks:
        return
    if len(ks) < cp.shape[0]:
        ctx.nontrivial()
    if s['via'] == 'init':
        bw = rqw.BlockedWell(m, grid = g, column_ji0 = (j, i), well_name = 'COL')
    elif s['via'] == 'method':
        bw = rqw.BlockedWell(m, well_name = 'COL')
        bw.set_for_column('COL', g, (j, i), skip_inactive = s['skip'])
    else:
        bw = rqw.BlockedWell(m, well_name = 'COL')
        bw.derive_from_cell_list(np.array([(k, j, i) for k in ks]), 'COL', g)
    got = read_out(bw, 'column')
    if got[0][2] is None:
        got = got[1:]
    eq([x[2] for x in got if x[2] is not None], [(k, j, i) for k in ks], 'cells of the column')
    for x in got:
        ok(x[1] >= x[0] - 1.0e-9, 'measured depths decrease')
        if x[2] is not None:
            eq((x[3], x[4]), ((0, 0), (0, 1)), f'faces for cell {x[2]}')
            for md, kp in ((x[0], 0), (x[1], 1)):
                arr_close(np.asarray(bw.trajectory.xyz_for_md(md)), cp[x[2]][kp].reshape((-1, 3)).mean(axis = 0), 0.051, f'entry or exit of cell {x[2]}')
        else:
            pass
    for a, b in zip(got[:-1], got[1:]):
        close(a[1], b[0], 1.0e-9, 'intervals in turn')
        if a[2] is not None and b[2] is not None:
            ok(np.allclose(cp[a[2]][1].reshape((-1, 3)).mean(axis = 0), cp[b[2]][0].reshape((-1, 3)).mean(axis = 0), atol = 0.05), 'unblocked interval missing')
    eq(bw.title, 'COL', 'title')
    judge_access(bw, g, 'column')
    bw.write_hdf5()
    bw.create_xml()
    m.store_epc()
    m = ctx.reopen(m)
    b2 = rqw.BlockedWell(m, uuid = bw.uuid)
    same_blocked(b2, bw, 'column stored')
    arr_close(np.asarray(b2.trajectory.control_points), np.asarray(bw.trajectory.control_points), 1.0e-9, 'column stored: trajectory')
