"""property-based testing: grid faces for a surface against segment and triangle intersections worked out here

Surfaces in general position (height fields along any axis, spanning the grid or not, in one or two patches, in another crs)
are gridded by each available method with several batch sizes, the same surface object being used in turn.  Every pair of
neighbouring cell centres is intersected with every triangle here; pairs too close to call are left out.  Faces, triangle,
depth, offset, normal and flange values, consistent sides, bisectors and shadows are compared with those expected.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.grid_surface as rqgs
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl

FT = 0.3048
seeds = st.integers(0, 10 ** 6)


@st.composite
def surfaces(draw):
    return dict(axis = draw(st.sampled_from('kkji')), m = draw(st.integers(2, 5)), n = draw(st.integers(2, 5)), rough = draw(st.sampled_from([0.0, 0.15, 0.5])), slope = [draw(fl(-1.5, 1.5, 2)), draw(fl(-1.5, 1.5, 2))], level = draw(fl(0.1, 0.9, 2)),
                extent = draw(st.sampled_from(['span', 'span', 'part', 'within'])), vertical = draw(st.booleans()), patches = draw(st.sampled_from([1, 1, 2])), wind = draw(st.sampled_from(['cw', 'acw', 'mixed'])), seed = draw(seeds))


def build_surface(s, box, unit):
    """Triangles (indices) and points for a height field along an axis, in a box lo, hi; unit is the typical cell size."""
    rng = np.random.default_rng(s['seed'])
    ax = 'ijk'.index(s['axis'])
    u, v = [k for k in range(3) if k != ax]
    lo, hi = box
    size = hi - lo
    m, n = s['m'], s['n']
    if s['extent'] == 'span':
        a, b = lo - 0.317 * size - unit, hi + 0.283 * size + unit
    elif s['extent'] == 'part':
        a, b = lo - 0.3 * size - unit, lo + (0.3 + 0.6 * rng.random()) * size
    else:
        a, b = lo + 0.21 * rng.random() * size, hi - 0.2 * rng.random() * size
    us = np.linspace(a[u], b[u], m) + 0.0137 * unit[u]
    vs = np.linspace(a[v], b[v], n) + 0.0091 * unit[v]
    p = np.empty((m, n, 3))
    for i in range(m):
        for j in range(n):
            p[i, j, u] = us[i]
            p[i, j, v] = vs[j]
    edge = np.zeros((m, n), dtype = bool)
    edge[0], edge[-1], edge[:, 0], edge[:, -1] = True, True, True, True
    shift = rng.uniform(-0.2, 0.2, (m, n, 2)) * np.array([(us[-1] - us[0]) / m, (vs[-1] - vs[0]) / n])
    shift[edge] = 0.0
    curtain = s['vertical'] and ax != 2
    if curtain:
        shift[...] = 0.0
    p[..., u] += shift[..., 0]
    p[..., v] += shift[..., 1]
    mid_u, mid_v = 0.5 * (lo[u] + hi[u]), 0.5 * (lo[v] + hi[v])
    h = lo[ax] + s['level'] * size[ax] + 0.00731 * unit[ax]
    slope = np.array(s['slope']) * (size[ax] + unit[ax]) / (size[[u, v]] + unit[[u, v]])
    if curtain:
        slope[[u, v].index(2)] = 0.0
    rough = rng.uniform(-1.0, 1.0, (m, n)) * s['rough'] * (size[ax] + unit[ax]) * 0.5
    if curtain:
        rough[...] = rough[:, :1] if v == 2 else rough[:1, :]
    p[..., ax] = h + slope[0] * (p[..., u] - mid_u) + slope[1] * (p[..., v] - mid_v) + rough
    p = p.reshape((-1, 3))
    t = []
    for i in range(m - 1):
        for j in range(n - 1):
            q = [i * n + j, i * n + j + 1, (i + 1) * n + j + 1, (i + 1) * n + j]
            if curtain or rng.random() < 0.5:
                t += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
            else:
                t += [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
    t = np.array(t)
    order = rng.permutation(len(t))
    t = t[order]
    if s['wind'] == 'acw':
        t = t[:, ::-1].copy()
    elif s['wind'] == 'mixed':
        f = rng.random(len(t)) < 0.5
        t[f] = t[f][:, ::-1]
    return t, p, curtain


def crossing(c0, c1, tri, eps = 1.0e-5):
    """For segments c0 to c1 (arrays) and one triangle: (crossed, too close to call, fraction along segment)."""
    a, e1, e2 = tri[0], tri[1] - tri[0], tri[2] - tri[0]
    d = c1 - c0
    n = np.cross(e1, e2)
    det = -(d @ n)
    length = np.linalg.norm(d, axis = -1)
    flat = np.abs(det) <= 1.0e-7 * length * np.linalg.norm(n)
    safe = np.where(flat, 1.0, det)
    ao = c0 - a
    dao = np.cross(ao, d)
    u = (dao @ e2) / safe
    v = -(dao @ e1) / safe
    t = (ao @ n) / safe
    slack = np.minimum(np.minimum(u, v), np.minimum(1.0 - u - v, np.minimum(t, 1.0 - t)))
    hit = ~flat & (slack > 0.0)
    # a segment in (or near) the plane of the triangle is only of interest when near the triangle
    near_plane = np.abs(ao @ n) <= 1.0e-6 * length * np.linalg.norm(n)
    doubt = np.where(flat, near_plane, np.abs(slack) < eps)
    return hit, doubt, t


class Expected:
    """Crossed faces of a block of cells with given centres, (nk, nj, ni, 3)."""

    def __init__(self, centres, t, p, only_top = False):
        self.axes = {}
        self.doubt = {}
        self.who = {}  # (axis, k, j, i) -> list of (triangle, xyz)
        for axis in range(3):
            lo = [slice(None)] * 3
            hi = [slice(None)] * 3
            lo[axis] = slice(0, -1)
            hi[axis] = slice(1, None)
            c0, c1 = centres[tuple(lo)], centres[tuple(hi)]
            crossed = np.zeros(c0.shape[:3], dtype = bool)
            doubt = np.zeros(c0.shape[:3], dtype = bool)
            if crossed.size:
                for k, tri in enumerate(p[t]):
                    h, d, f = crossing(c0.reshape((-1, 3)), c1.reshape((-1, 3)), tri)
                    h, d, f = h.reshape(crossed.shape), d.reshape(crossed.shape), f.reshape(crossed.shape)
                    crossed |= h
                    doubt |= d
                    for ijk in np.argwhere(h):
                        ijk = tuple(int(x) for x in ijk)
                        self.who.setdefault((axis,) + ijk, []).append((k, c0[ijk] + f[ijk] * (c1[ijk] - c0[ijk])))
            self.axes[axis] = crossed
            self.doubt[axis] = doubt

    def clear(self):
        return not any(d.any() for d in self.doubt.values())

    def total(self):
        return sum(int(a.sum()) for a in self.axes.values())


def faces_of(gcs, extent, what):
    """List of (axis, k, j, i) for the face below, right... of the lesser cell, in gcs order, with order of the pair."""
    out = []
    codes = {(0, 0): (0, 0), (0, 1): (0, 1), (1, 0): (1, 0), (1, 1): (2, 1), (1, 2): (1, 1), (1, 3): (2, 0)}
    pairs = np.asarray(gcs.cell_index_pairs)
    fps = np.asarray(gcs.face_index_pairs)
    for (c1, c2), (f1, f2) in zip(pairs, fps):
        a, b = np.array(np.unravel_index(int(c1), extent)), np.array(np.unravel_index(int(c2), extent))
        d = b - a
        eq(int(np.abs(d).sum()), 1, f'{what}: steps between cells of a pair')
        axis = int(np.argmax(np.abs(d)))
        less = a if d.sum() > 0 else b
        for cell, f in ((a, f1), (b, f2)):
            side = 1 if (cell == less).all() else 0
            eq(tuple(int(x) for x in gcs.face_index_map_axis_polarity(f)) if hasattr(gcs, 'face_index_map_axis_polarity') else tuple(int(x) for x in gcs.face_index_inverse_map[f]), (axis, side), f'{what}: face code of a pair')
        out.append(((axis,) + tuple(int(x) for x in less), d.sum() > 0))
    return out


def judge_faces(gcs, ex, extent, what, name, ftype, title):
    got = faces_of(gcs, extent, what)
    keys = [k for k, _ in got]
    eq(len(set(keys)), len(keys), f'{what}: repeated faces')
    for axis in range(3):
        a = np.zeros(ex.axes[axis].shape, dtype = bool)
        for k in keys:
            if k[0] == axis:
                a[k[1:]] = True
        wrong = (a != ex.axes[axis]) & ~ex.doubt[axis]
        if wrong.any():
            w = tuple(int(x) for x in np.argwhere(wrong)[0])
            fail(f"{what}: {'extra' if a[w] else 'missing'} {'KJI'[axis]} face at {w} ({int(wrong.sum())} wrong)")
    eq(int(gcs.count), len(keys), f'{what}: count')
    eq(gcs.feature_name_for_feature_index(0), name, f'{what}: feature name')
    eq(set(int(x) for x in np.asarray(gcs.feature_indices)), {0} if keys else set(), f'{what}: feature indices')
    eq(gcs.title, title, f'{what}: title')
    return keys, got


def two_sides(ex, extent):
    """Label of each cell, by spreading from cell to cell where there is no face."""
    lab = np.full(extent, -1, dtype = int)
    n = 0
    for start in np.ndindex(*extent):
        if lab[start] >= 0:
            continue
        lab[start] = n
        stack = [start]
        while stack:
            c = stack.pop()
            for axis in range(3):
                for d in (-1, 1):
                    e = list(c)
                    e[axis] += d
                    e = tuple(e)
                    if not 0 <= e[axis] < extent[axis] or lab[e] >= 0 or ex.axes[axis][min(c, e)]:
                        continue
                    lab[e] = n
                    stack.append(e)
        n += 1
    return lab, n


def shadow_of(ex, extent):
    out = np.zeros(extent, dtype = int)
    f = ex.axes[0]
    for k in range(extent[0]):
        below = f[k:].any(axis = 0)  # a face below, so cell is above it
        above = f[:k].any(axis = 0)
        out[k] = np.where(below & above, 3, np.where(below, 1, np.where(above, 2, 0)))
    return out


REG = st.fixed_dictionaries(dict(n = st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6)), d = st.tuples(st.sampled_from([10.0, 33.0]), st.sampled_from([10.0, 20.0]), st.sampled_from([2.0, 5.0])), crs = st.sampled_from([{}, {'xy_units': 'm', 'z_units': 'ft'}, {'z_inc_down': False}, {'x_offset': 1000.0, 'y_offset': 200.0, 'z_offset': 10.0}]),
                                 surf = surfaces(), other = st.sampled_from([None, None, {'x_offset': 300.0, 'z_offset': -20.0}, {'xy_units': 'ft', 'z_units': 'ft'}, {'z_inc_down': False}])))


def make_surface(m, crs, t, p, patches, title = 'surf'):
    surf = rqs.Surface(m, crs_uuid = crs.uuid, title = title)
    if patches == 2 and len(t) > 1:
        h = len(t) // 2
        surf.set_multi_patch_from_triangles_and_points([(t[:h], p.copy()), (t[h:], p.copy())])
    else:
        surf.set_from_triangles_and_points(t.copy(), p.copy())
    return surf


def setup(s, ctx):
    m = ctx.new_model('faces')
    base = dict(s['crs'])
    crs = rqc.Crs(m, **base)
    crs.create_xml()
    n, d = tuple(s['n']), s['d']
    g = grr.RegularGrid(m, extent_kji = n, dxyz = tuple(d), crs_uuid = crs.uuid, title = 'BLOCK')
    g.create_xml(add_cell_length_properties = False)
    hi = np.array([n[2] * d[0], n[1] * d[1], n[0] * d[2]])
    k, j, i = np.meshgrid(*(np.arange(x) + 0.5 for x in n), indexing = 'ij')
    centres = np.stack((i * d[0], j * d[1], k * d[2]), axis = -1)
    t, p, curtain = build_surface(s['surf'], (np.array(d) * 0.5, hi - np.array(d) * 0.5), np.array(d))
    s_crs, sp = crs, p.copy()
    if s['other'] is not None:
        o = dict(base, **s['other'])
        s_crs = rqc.Crs(m, **o)
        s_crs.create_xml()
        u = {'m': 1.0, 'ft': FT}
        one = {'x_offset': 0.0, 'y_offset': 0.0, 'z_offset': 0.0, 'xy_units': 'm', 'z_units': 'm', 'z_inc_down': True}
        A, B = dict(one, **base), dict(one, **o)
        for ax, off in enumerate(('x_offset', 'y_offset', 'z_offset')):
            un = 'z_units' if ax == 2 else 'xy_units'
            v = (p[:, ax] + A[off]) * u[A[un]]  # in metres
            if ax == 2 and A['z_inc_down'] != B['z_inc_down']:
                v = -v
            sp[:, ax] = v / u[B[un]] - B[off]
    surf = make_surface(m, s_crs, t, sp, s['surf']['patches'])
    return m, crs, g, centres, t, p, sp, surf, s_crs, curtain, n, np.array(d)


def z_factor(s):
    """Multiplier of xy lengths to give z units."""
    return 1.0 / FT if s['crs'].get('z_units') == 'ft' else 1.0


def judge_values(keys, props, ex, t, p, n, d, what, s, curtain_mode = False, flange = None):
    """Triangle, depth, offset, normal vector and flange bool, against any of the crossings of each face."""
    if not props:
        return
    ratio = z_factor(s)

    def moved(w, x):
        """How far the documented agitation, of 5.0e-6 in each of x, y and z, can move the crossing w along axis x."""
        if not s.get('agitate'):
            return 0.0
        a, b, c = p[t[w[0]]]
        nv = np.abs(np.cross(b - a, c - a))
        return 6.0e-6 * nv.sum() / nv[x]

    for name in ('triangle', 'depth', 'offset', 'flange bool'):
        if name in props:
            eq(np.asarray(props[name]).shape, (len(keys),), f'{what}: shape of {name}')
    for q, key in enumerate(keys):
        axis = key[0]
        if ex.doubt[axis][key[1:]]:
            continue
        who = ex.who[key]
        cand = who
        if 'triangle' in props:
            tri = int(props['triangle'][q])
            cand = [w for w in who if w[0] == tri]
            ok(cand, f'{what}: face {key} attributed to triangle {tri}, crossed by {[w[0] for w in who]}')
            if flange is not None and 'flange bool' in props:
                eq(bool(props['flange bool'][q]), bool(flange[tri]), f'{what}: flange bool of face {key}')
        if 'depth' in props and not curtain_mode:
            ok(any(abs(w[1][2] - props['depth'][q]) < 1.0e-3 * d[2] + (moved(w, 2) if axis == 0 else 0.0) for w in cand), f'{what}: depth of face {key} is {props["depth"][q]}, expected {[float(w[1][2]) for w in cand]}')
        if 'offset' in props:
            x = 2 - axis
            want = [(w[1][x] - (key[1 + axis] + 1) * d[x]) * (1.0 if axis == 0 else ratio) for w in cand]
            ok(any(abs(w - props['offset'][q]) < 1.0e-3 * d[x] + moved(c, x) * (1.0 if axis == 0 else ratio) for w, c in zip(want, cand)), f'{what}: offset of face {key} is {props["offset"][q]}, expected {want}')
        if 'normal vector' in props:
            good = False
            for w in cand:
                a, b, c = p[t[w[0]]]
                nv = np.cross(b - a, c - a)
                if ratio != 1.0:  # true normal, in a space with common units
                    e1, e2 = (b - a) * np.array([ratio, ratio, 1.0]), (c - a) * np.array([ratio, ratio, 1.0])
                    nv = np.cross(e1, e2)
                nv = nv / np.linalg.norm(nv)
                got = np.asarray(props['normal vector'][q])
                if min(np.abs(nv - got).max(), np.abs(nv + got).max()) < 1.0e-4 and got[2] <= 1.0e-6:
                    good = True
            ok(good, f'{what}: normal vector of face {key} is {props["normal vector"][q]}')


FTYPES = st.sampled_from(['fault', 'horizon', 'geobody boundary'])


@check('regular', st.tuples(REG, st.fixed_dictionaries(dict(first = st.sampled_from(['optimised', 'dense', 'regular', 'staffa']), batches = st.sampled_from([1, 2, 20, 50]), ftype = FTYPES, agitate = st.sampled_from([None, None, 'fixed', 'random']), titled = st.booleans(), prog = st.booleans(), stored = st.booleans(), flange = st.booleans()))).map(lambda x: {**x[0], **x[1]}),
       quick = 240, thorough = 4000, shards = 4, rule = 'faces in more than one direction')
def regular(s, ctx):
    m, crs, g, centres, t, p, sp, surf, s_crs, curtain, n, d = setup(s, ctx)
    ex = Expected(centres, t, p)
    if sum(bool(a.any()) for a in ex.axes.values()) > 1:
        ctx.nontrivial()
    flange = None
    if s['stored'] or s['flange']:
        surf.write_hdf5()
        surf.create_xml()
        if s['flange']:
            flange = np.random.default_rng(s['surf']['seed']).random(len(t)) < 0.5
            rqp.Property.from_array(m, cached_array = flange.astype(np.int8), source_info = 'test', keyword = 'flange bool', support_uuid = surf.uuid, property_kind = 'flange bool', indexable_element = 'faces', discrete = True, dtype = np.uint8)
        if s['stored']:
            m.store_epc()
            surf = rqs.Surface(m, uuid = surf.uuid)
    modes = ['optimised', 'dense', 'regular', 'staffa']
    k = modes.index(s['first'])
    kw = dict(feature_type = s['ftype'])
    reports = []
    if s['prog']:
        kw['progress_fn'] = reports.append
    span = s['surf']['extent'] == 'span'
    lab, parts = two_sides(ex, n)
    for mode in modes[k:] + modes[:k]:
        what = mode
        props = None
        title = None
        del reports[:]
        if mode == 'staffa':
            gcs = rqgs.find_faces_to_represent_surface_staffa(g, surf, 'thing', **kw)
        else:
            extra = dict(kw)
            if s['titled']:
                title = extra['title'] = 'set of faces'
            if s['agitate']:
                extra.update(agitate = True, random_agitation = s['agitate'] == 'random')
            if mode == 'regular':
                gcs, props = rqgs.find_faces_to_represent_surface_regular(g, surf, 'thing', return_properties = ['offset', 'normal vector'], **extra) if ex.total() else (rqgs.find_faces_to_represent_surface_regular(g, surf, 'thing', **extra), None)
            else:
                fn = rqgs.find_faces_to_represent_surface_regular_optimised if mode == 'optimised' else rqgs.find_faces_to_represent_surface_regular_dense_optimised
                want = ['triangle', 'depth', 'offset', 'grid shadow']
                if flange is not None:
                    want.append('flange bool')
                sealed = parts == 2 and span and ex.clear()
                if sealed:
                    want.append('grid bisector')
                gcs, props = fn(g, surf, 'thing', return_properties = want, n_batches = s['batches'], **extra) if ex.total() and ex.clear() else (fn(g, surf, 'thing', n_batches = s['batches'], **extra), None)
        if s['prog']:
            eq((reports[0], reports[-1]), (0.0, 1.0), f'{what}: first and last progress') if ex.total() else None
            ok(all(0.0 <= x <= 1.0 for x in reports), f'{what}: progress {reports}')
        if ex.total() == 0:
            if ex.clear() and gcs is not None:
                eq(int(gcs.count or 0), 0, f'{what}: faces where surface misses')
            continue
        if gcs is None:
            ok(not ex.clear(), f'{what}: no faces found')
            continue
        keys, _ = judge_faces(gcs, ex, n, what, 'thing', s['ftype'], title or ('thing' if mode != 'staffa' else gcs.title))
        judge_values(keys, props, ex, t, p, n, d, what, s, flange = flange)
        if props and 'grid shadow' in props:
            arr_eq(np.asarray(props['grid shadow']).astype(int), shadow_of(ex, n), f'{what}: grid shadow')
        if props and 'grid bisector' in props:
            ctx.label('bisector')
            judge_bisector(props['grid bisector'], lab, n, False, what)
            gcs, props = fn(g, surf, 'thing', return_properties = ['grid bisector'], raw_bisector = True, n_batches = s['batches'])
            judge_bisector(props['grid bisector'], lab, n, True, f'{what} raw')
    # the surface is still where it was
    now = rqc.Crs(m, uuid = surf.crs_uuid)
    tt, pp = surf.triangles_and_points()
    back = pp.copy()
    now.convert_array_to(s_crs, back)
    if s['surf']['patches'] == 1:
        arr_close(back, sp, 1.0e-4 * float(np.abs(sp).max()), 'surface moved by finding faces')


def judge_bisector(result, lab, n, raw, what, full = False):
    b, is_curtain = result
    b = np.asarray(b)
    if full:
        eq(b.shape, tuple(n), f'{what}: shape of bisector')
        if is_curtain:
            b = b[0]
    first = lab == lab[0, 0, 0]
    layer = np.arange(n[0])[:, None, None] * np.ones(n)
    m0, m1 = float(layer[first].mean()), float(layer[~first].mean())
    same = bool((first == first[:1]).all())
    if abs(m0 - m1) < 0.01 and not same:
        return
    if is_curtain:
        ok(same, f'{what}: bisector given by column for a surface which is not a curtain')
        eq(b.shape, tuple(n[1:]), f'{what}: shape of column bisector')
        b = np.repeat(b[None], n[0], axis = 0)
    else:
        eq(b.shape, tuple(n), f'{what}: shape of bisector')
    if same:
        ok(bool((b == first).all()) or (not raw and bool((b == ~first).all())), f'{what}: bisector does not follow the two sides')
        return
    arr_eq(b.astype(bool), first if raw or m0 < m1 else ~first, f'{what}: bisector')


@check('curtain', st.tuples(REG, st.fixed_dictionaries(dict(axis = st.sampled_from('ji'), batches = st.sampled_from([1, 3, 20]), upright = st.booleans()))).map(lambda x: {**x[0], **x[1]}), quick = 60, thorough = 1200, rule = 'more than one layer and faces found')
def curtain_mode(s, ctx):
    s = dict(s, surf = dict(s['surf'], axis = s['axis'], vertical = s['upright'], rough = min(s['surf']['rough'], 0.15)))
    if not s['upright']:
        s['surf']['extent'] = 'span'
    m, crs, g, centres, t, p, sp, surf, s_crs, curtain, n, d = setup(s, ctx)
    top = Expected(centres[:1], t, p)
    ex = Expected(centres, t, p)
    for axis in (1, 2):
        ex.axes[axis] = np.repeat(top.axes[axis], n[0], axis = 0)
        ex.doubt[axis] = np.repeat(top.doubt[axis], n[0], axis = 0)
    ex.axes[0][...] = False
    ex.doubt[0][...] = False
    ex.who = {(a, k, j, i): v for (a, _, j, i), v in top.who.items() for k in range(n[0])}
    if ex.total() == 0 or not ex.clear():
        return
    if n[0] > 1:
        ctx.nontrivial()
    lab, parts = two_sides(ex, n)
    sealed = parts == 2 and s['surf']['extent'] == 'span'
    want = ['triangle', 'depth', 'offset'] + (['grid bisector'] if sealed else [])
    for mode in ('optimised', 'dense'):
        fn = rqgs.find_faces_to_represent_surface_regular_optimised if mode == 'optimised' else rqgs.find_faces_to_represent_surface_regular_dense_optimised
        gcs, props = fn(g, surf, 'curtain', return_properties = want, n_batches = s['batches'], is_curtain = True)
        keys, _ = judge_faces(gcs, ex, n, mode, 'curtain', 'fault', 'curtain')
        judge_values(keys, props, ex, t, p, n, d, mode, s, curtain_mode = True)
        if sealed:
            ctx.label('bisector')
            b, is_c = props['grid bisector']
            ok(is_c, f'{mode}: bisector not by column')
            arr_eq(np.asarray(b).astype(bool), (lab == lab[0, 0, 0])[0], f'{mode}: column bisector')


@check('sides', REG, quick = 60, thorough = 1200, rule = 'faces in more than one direction')
def sides(s, ctx):
    if s['surf']['axis'] != 'k' or s['other'] is not None and s['other'].get('z_inc_down') is not None:
        s = dict(s, surf = dict(s['surf'], axis = 'k'), other = None)
    s['surf']['extent'] = 'span'
    m, crs, g, centres, t, p, sp, surf, s_crs, curtain, n, d = setup(s, ctx)
    ex = Expected(centres, t, p)
    if ex.total() == 0 or not ex.clear():
        return
    if sum(bool(a.any()) for a in ex.axes.values()) > 1:
        ctx.nontrivial()
    gcs = rqgs.find_faces_to_represent_surface_regular(g, surf, 'sided', consistent_side = True)
    keys, got = judge_faces(gcs, ex, n, 'sided', 'sided', 'fault', 'sided')
    up = set()
    for key, ahead in got:
        axis = key[0]
        tri, xyz = ex.who[key][0]
        if len(ex.who[key]) > 1:
            continue
        a, b, c = p[t[tri]]
        nv = np.cross(b - a, c - a)
        nv = nv if nv[2] > 0.0 else -nv
        step = np.zeros(3)
        step[2 - axis] = 1.0 if ahead else -1.0  # from first cell of pair to second
        up.add(bool(np.dot(nv, step) > 0.0))
    ok(len(up) <= 1, 'first cells of pairs are on both sides of the surface')


@check('irregular', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 4, max_ji = 4, undefined = False, min_ji = 2), crs = st.sampled_from([{}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'ft'}]), surf = surfaces(), other = st.booleans(), mode = st.sampled_from(['auto', 'staffa', 'direct']), ftype = FTYPES)), quick = 80, thorough = 1500, shards = 2,
       rule = 'faces in more than one direction')
def irregular(s, ctx):
    m = ctx.new_model('irregular')
    crs = gl.make_crs(m, s['crs'])
    cp, active, defined, gap_after = gl.corner_model(s['grid'])
    g = gl.build(m, s['grid'], crs.uuid)
    gl.store(g, title = 'GRID')
    g = grr.Grid(m, uuid = g.uuid)
    n = tuple(s['grid']['n'])
    centres = cp.mean(axis = (3, 4, 5))
    lo, hi = centres.reshape((-1, 3)).min(axis = 0), centres.reshape((-1, 3)).max(axis = 0)
    t, p, curtain = build_surface(s['surf'], (lo, hi), np.array(s['grid']['d']))
    sp = p
    s_crs = crs
    if s['other']:
        s_crs = gl.make_crs(m, dict(s['crs'], x_offset = 100.0, z_offset = 7.0))
        sp = p - np.array([100.0, 0.0, 7.0])
    surf = make_surface(m, s_crs, t, sp, s['surf']['patches'])
    ex = Expected(centres, t, p)
    if sum(bool(a.any()) for a in ex.axes.values()) > 1:
        ctx.nontrivial()
    for turn in ('first', 'second'):
        if ex.total() == 0:
            return
        if s['mode'] == 'direct':
            gcs = rqgs.find_faces_to_represent_surface_staffa(g, surf, 'thing', feature_type = s['ftype'])
        else:
            gcs = rqgs.find_faces_to_represent_surface(g, surf, 'thing', mode = s['mode'], feature_type = s['ftype'])
        judge_faces(gcs, ex, n, f'{turn} time', 'thing', s['ftype'], gcs.title)


@check('wrapper', st.tuples(REG, st.fixed_dictionaries(dict(mode = st.sampled_from(['regular', 'regular_dense', 'regular_optimised', 'staffa', 'auto']), ftype = FTYPES))).map(lambda x: {**x[0], **x[1]}), quick = 50, thorough = 800, rule = 'faces found')
def wrapper(s, ctx):
    m, crs, g, centres, t, p, sp, surf, s_crs, curtain, n, d = setup(s, ctx)
    ex = Expected(centres, t, p)
    if ex.total() == 0 or not ex.clear():
        return
    ctx.nontrivial()
    ctx.label(s['mode'])
    for turn in ('first', 'second'):
        gcs = rqgs.find_faces_to_represent_surface(g, surf, 'thing', mode = s['mode'], feature_type = s['ftype'])
        judge_faces(gcs, ex, n, f"{s['mode']}, {turn} time", 'thing', s['ftype'], gcs.title)


@st.composite
def cuts(draw):
    return dict(n = [draw(st.integers(1, 6)) for _ in range(3)], coef = [draw(fl(-2, 2, 2)) for _ in range(3)], level = draw(fl(-0.6, 0.6, 2)), bend = draw(fl(-1, 1, 2)), seed = draw(seeds), none = draw(st.booleans()))


@check('bisector functions', cuts(), quick = 400, thorough = 10000, rule = 'both sides of cut in every direction')
def bisectors(s, ctx):
    n = tuple(s['n'])
    k, j, i = np.meshgrid(*((np.arange(x) + 0.5) / x - 0.5 for x in n), indexing = 'ij')
    a = s['coef'][0] * k + s['coef'][1] * j + s['coef'][2] * i + s['bend'] * (i * j + k * i) > s['level'] * 0.7
    faces = {}

    class E:
        pass
    ex = E()
    ex.axes = {0: a[1:] != a[:-1], 1: a[:, 1:] != a[:, :-1], 2: a[:, :, 1:] != a[:, :, :-1]}
    total = sum(int(x.sum()) for x in ex.axes.values())
    if total == 0:
        return
    if all(x.any() for x in ex.axes.values()):
        ctx.nontrivial()
    arrays = [ex.axes[x] if ex.axes[x].size and not (s['none'] and not ex.axes[x].any()) else None for x in range(3)]
    indices = [np.argwhere(ex.axes[x]).astype(np.int32) if ex.axes[x].any() else None for x in range(3)]
    lab, parts = two_sides(ex, n)
    for raw in (True, False):
        from resqpy.grid_surface._find_faces import bisector_from_face_indices
        for what, fn, args in (('arrays', rqgs.bisector_from_faces, arrays), ('indices', bisector_from_face_indices, indices)):
            if parts == 2:
                judge_bisector(fn(n, *[None if x is None else x.copy() for x in args], raw), lab, n, raw, f'{what} raw {raw}', full = True)
            else:
                continue
    if ex.axes[0].size:
        arr_eq(np.asarray(rqgs.shadow_from_faces(n, ex.axes[0])).astype(int), shadow_of(ex, n), 'shadow')
    # a single layer, as columns
    c = a[0]
    jf, if_ = c[1:] != c[:-1], c[:, 1:] != c[:, :-1]
    E2 = E()
    E2.axes = {0: np.zeros((0,) + n[1:], dtype = bool), 1: jf[None], 2: if_[None]}
    lab2, parts2 = two_sides(E2, (1,) + n[1:])
    arr_eq(np.asarray(rqgs.column_bisector_from_faces(n[1:], jf, if_)).astype(bool), lab2[0] == lab2[0, 0, 0], 'column bisector')
    box = rqgs.get_boundary_dict(arrays[0], arrays[1], arrays[2], n)
    for x, c in enumerate('kji'):
        lo, hi = [], []
        for axis in range(3):
            w = np.argwhere(ex.axes[axis])
            if len(w):
                lo.append(int(w[:, x].min()) - (0 if axis == x else 1))
                hi.append(int(w[:, x].max()) + 1)
        eq((int(box[f'{c}_min']), int(box[f'{c}_max'])), (max(min(lo), 0), min(max(hi), n[x] - 1)), f'{c} range of boundary')
