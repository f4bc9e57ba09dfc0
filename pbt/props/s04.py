"""property-based testing: polylines against shoelace, cumulative length, nearest point and Hermite arithmetic done here

Simple polygons (convex, star shaped, monotone, regular; with straight runs; reversed, started anywhere, moved and scaled;
varying z; crs of either handedness) and open lines: lengths, interpolated and equally spaced points, centres, area, clockwise
sense, convexity, outward normals, inside tests, nearest point, snapping, crossings with other lines, normalised mappings and
their inverses, tangents, splines, scaled, trimmed, shifted, flattened and hull lines are all compared with direct
calculations.  Polyline sets are combined (mixed crs, repeated lines) and split again, in memory and after storing.
"""
import math
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicHermiteSpline
from scipy.spatial import ConvexHull

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl

CRS = [{}, {'axis_order': 'northing easting'}, {'z_inc_down': False}, {'axis_order': 'westing northing', 'z_inc_down': False}, {'axis_order': 'northing westing'}]
LEFT = ('northing easting', 'southing westing', 'westing northing')  # x y axes turn clockwise, seen from above: y is anticlockwise from x in the other orders


def grain(a):
    return np.round(np.asarray(a, dtype = float) * 64.0) / 64.0


@st.composite
def polygons(draw, kinds = ('star', 'monotone', 'convex', 'convex', 'regular', 'square')):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(3 if kind in ('convex', 'regular') else 4, 9))
    s = dict(kind = kind, n = n, seed = draw(st.integers(0, 10 ** 6)), straight = draw(st.sampled_from([0, 0, 1, 2])), rev = draw(st.booleans()), start = draw(st.integers(0, 12)),
             shift = draw(st.sampled_from([[0.0, 0.0], [-40.0, 25.0], [450000.0, 6200000.0]])), scale = draw(st.sampled_from([1.0, 0.25, 16.0])), z = draw(st.sampled_from(['flat', 'vary', 'slope', 'zero'])))
    return s


def shoelace(p):
    q = p - p[0]
    r = np.roll(q, -1, axis = 0)
    return 0.5 * float(np.sum(q[:, 0] * r[:, 1] - r[:, 0] * q[:, 1]))


def vertices(s):
    """xyz of a simple polygon, all x and y being multiples of 1/64 (or 1/256) so that arithmetic on them is exact."""
    rng = np.random.default_rng(s['seed'])
    n = s['n']
    kind = s['kind']
    if kind == 'regular':
        t = np.arange(n) * 2.0 * np.pi / n + rng.random()
        p = np.stack((40.0 * np.cos(t), 40.0 * np.sin(t)), axis = -1)
    elif kind == 'convex':
        gaps = rng.integers(2, 11, n).astype(float)
        t = np.cumsum(gaps) / gaps.sum() * 2.0 * np.pi
        e = rng.uniform(0.1, 1.0)
        a = rng.uniform(0, np.pi)
        x, y = 60.0 * np.cos(t), 60.0 * e * np.sin(t)
        p = np.stack((x * np.cos(a) - y * np.sin(a), x * np.sin(a) + y * np.cos(a)), axis = -1)
    elif kind == 'star':
        gaps = rng.integers(5, 11, n).astype(float)
        t = np.cumsum(gaps) / gaps.sum() * 2.0 * np.pi
        r = rng.uniform(10.0, 60.0, n)
        p = np.stack((r * np.cos(t), r * np.sin(t)), axis = -1)
    elif kind == 'square':  # all edges parallel to the x or y axis: steps on a flat base, then turned by a multiple of ninety degrees
        m = n // 3
        x = np.concatenate(([0.0], np.cumsum(rng.uniform(4.0, 20.0, m))))
        h = rng.permutation(np.arange(1, m + 1)) * 10.0 + rng.uniform(0.0, 5.0)
        top = [(x[c + d], h[c]) for c in range(m) for d in (0, 1)]
        p = np.array([(x[0], 0.0)] + top + [(x[-1], 0.0)])
        for _ in range(int(rng.integers(4))):
            p = np.column_stack((-p[:, 1], p[:, 0]))
    else:
        x = np.cumsum(rng.uniform(4.0, 20.0, n))
        base = np.cumsum(rng.uniform(-25.0, 25.0, n))  # winding strip: no point need see all of it
        top = base[1:-1] + rng.uniform(2.0, 15.0, n - 2)
        lower = np.stack((x, base), axis = -1)
        upper = np.stack((x[1:-1], top), axis = -1)[::-1]
        p = np.concatenate((lower, upper))
    p = grain(p)
    for _ in range(s['straight']):
        k = int(rng.integers(len(p)))
        p = np.insert(p, k + 1, 0.5 * (p[k] + p[(k + 1) % len(p)]), axis = 0)  # exact
    if s['rev']:
        p = p[::-1]
    p = np.roll(p, s['start'], axis = 0) * s['scale'] + np.array(s['shift'])
    if s['z'] == 'flat':
        z = np.full(len(p), 1500.0)
    elif s['z'] == 'vary':
        z = 1000.0 + np.round(rng.uniform(-60.0, 60.0, len(p)), 2) * s['scale']
    elif s['z'] == 'slope':
        z = 1000.0 + 0.5 * (p[:, 0] - p[0, 0])
    else:
        z = np.zeros(len(p))
    return np.column_stack((p, z))


def turns(p):
    a, b, c = p, np.roll(p, -1, axis = 0), np.roll(p, -2, axis = 0)
    return (b[:, 0] - a[:, 0]) * (c[:, 1] - b[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - b[:, 0])


def simple(p):
    """False if any two edges which are not neighbours meet, or neighbours double back."""
    n = len(p)
    for i in range(n):
        a, b = p[i, :2], p[(i + 1) % n, :2]
        if np.all(a == b):
            return False
        for j in range(i + 1, n):
            c, d = p[j, :2], p[(j + 1) % n, :2]
            if j == i + 1 or (i == 0 and j == n - 1):
                shared, u, v = (b, a, d) if j == i + 1 else (a, b, c)
                if n == 3:
                    continue
                cr = (u[0] - shared[0]) * (v[1] - shared[1]) - (u[1] - shared[1]) * (v[0] - shared[0])
                if cr == 0.0 and np.dot(u - shared, v - shared) > 0.0:
                    return False
                continue
            if seg_gap(a, b, c, d) < 1.0e-3:
                return False
    return True


def to_segment(p, a, b):
    v = b - a
    l2 = float(np.dot(v, v))
    f = 0.0 if l2 == 0.0 else min(max(float(np.dot(p - a, v)) / l2, 0.0), 1.0)
    q = a + f * v
    return float(np.hypot(*(p - q))), q


def seg_gap(a, b, c, d):
    def side(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    if side(a, b, c) * side(a, b, d) < 0.0 and side(c, d, a) * side(c, d, b) < 0.0:
        return 0.0
    return min(to_segment(a, c, d)[0], to_segment(b, c, d)[0], to_segment(c, a, b)[0], to_segment(d, a, b)[0])


def segments(p, closed):
    q = np.roll(p, -1, axis = 0)
    return (p, q) if closed else (p[:-1], q[:-1])


def along(p, closed, d, in_xy):
    """Point at distance d along the line."""
    a, b = segments(p, closed)
    w = 2 if in_xy else 3
    for u, v in zip(a, b):
        l = float(np.linalg.norm((v - u)[:w]))
        if d <= l and l > 0.0:
            return u + (v - u) * d / l
        d -= l
    return b[-1]


def inside(p, q):
    c = False
    for a, b in zip(p, np.roll(p, -1, axis = 0)):
        if (a[1] > q[1]) != (b[1] > q[1]) and q[0] < a[0] + (b[0] - a[0]) * (q[1] - a[1]) / (b[1] - a[1]):
            c = not c
    return c


def size_of(p):
    return float(np.max(np.max(p, axis = 0) - np.min(p, axis = 0)))


def make(s, ctx, m = None, title = 'line'):
    m = m or rq.Model(create_basics = True)
    crs = rqc.Crs(m, **s.get('crs', {}))
    crs.create_xml()
    p = vertices(s)
    return m, crs, p, rql.Polyline(m, is_closed = s.get('closed', True), set_coord = p.copy(), set_crs = crs.uuid, title = title)


def with_crs(strategy, **kw):
    return st.tuples(strategy, st.fixed_dictionaries(dict(crs = st.sampled_from(CRS), **kw))).map(lambda t: {**t[0], **t[1]})


closed = st.sampled_from([True, False])


@check('measures', with_crs(polygons(), closed = closed, cache = st.booleans(), f = fl(0, 1, 3), m = st.integers(2, 9), trust = st.sampled_from(['convex first', 'sense first', 'none'])), quick = 300, thorough = 8000, shards = 2,
       rule = 'closed, and concave or with varying z')
def measures(s, ctx):
    m, crs, p, line = make(s, ctx)
    if not simple(p):
        return
    cl = s['closed']
    ctx.label(s['kind'])
    n = len(p)
    size = size_of(p)
    tol = 1.0e-9 * max(size, float(np.abs(p).max()))
    a, b = segments(p, cl)
    for k in range(len(a)):
        close(line.segment_length(k), float(np.linalg.norm(b[k] - a[k])), tol, f'length of segment {k}')
        close(line.segment_length(k, in_xy = True), float(np.linalg.norm((b[k] - a[k])[:2])), tol, f'xy length of segment {k}')
        arr_close(line.segment_midpoint(k), 0.5 * (a[k] + b[k]), tol, f'midpoint of segment {k}')
    if not cl:
        ok(raises(lambda: line.segment_length(n - 1), AssertionError), 'segment after the last point of an open line')
    for in_xy in (False, True):
        w = 2 if in_xy else 3
        lengths = np.linalg.norm((b - a)[:, :w], axis = 1)
        total = float(lengths.sum())
        close(line.full_length(in_xy = in_xy), total, tol, f'full length (in_xy {in_xy})')
        for f in (s['f'], 0.0, 1.0, float(lengths[0] / total)):
            f = min(f, 1.0)
            arr_close(line.interpolated_point(f, in_xy = in_xy), along(p, cl, f * total, in_xy), 1.0e-7 * size + tol, f'point at fraction {f} (in_xy {in_xy})')
        got = line.equidistant_points(s['m'], in_xy = in_xy)
        step = total / (s['m'] if cl else s['m'] - 1)
        arr_close(got, np.array([along(p, cl, k * step, in_xy) for k in range(s['m'])]), 1.0e-7 * size + tol, f'equidistant points (in_xy {in_xy})')
        mid = 0.5 * (a + b)
        want = (mid * lengths[:, None]).sum(axis = 0) / total
        got = line.balanced_centre(in_xy = in_xy, cache = s['cache'])
        arr_close(got[:w], want[:w], 1.0e-7 * size + tol, f'balanced centre (in_xy {in_xy})')
        pts = np.array([along(p, cl, k * total / (20 if cl else 19), in_xy) for k in range(20)])
        got = line.balanced_centre(mode = 'sampled', in_xy = in_xy, cache = s['cache'])
        arr_close(got[:w], pts.mean(axis = 0)[:w], 1.0e-7 * size + tol, f'sampled centre (in_xy {in_xy})')
    if not cl:
        eq(bool(line.is_convex()), False, 'open line said to be convex')
        ok(raises(line.is_clockwise, AssertionError), 'open line given a clockwise sense')
        ok(raises(line.area, AssertionError), 'open line given an area')
        return
    t = turns(p)
    convex = bool(np.all(t >= 0.0) or np.all(t <= 0.0))
    if not convex or s['z'] in ('vary', 'slope'):
        ctx.nontrivial()
    area = shoelace(p[:, :2])
    clockwise = (area > 0.0) if crs.axis_order in LEFT else (area < 0.0)
    for _ in range(2):
        if s['trust'] == 'convex first':
            eq(bool(line.is_convex()), convex, 'is convex')
        eq(bool(line.is_clockwise(trust_metadata = s['trust'] != 'none')), clockwise, 'is clockwise, viewed from above')
        eq(bool(line.is_convex(trust_metadata = s['trust'] != 'none')), convex, 'is convex')
        close(line.area(), abs(area), 1.0e-6 * size * size, 'area')
    sign = -1.0 if area > 0.0 else 1.0
    for k in range(n):
        v = (b[k] - a[k])[:2]
        v = v / np.linalg.norm(v)
        arr_close(line.segment_normal(k), np.array([-v[1] * sign, v[0] * sign, 0.0]), 1.0e-7, f'outward normal of segment {k}')
    arr_eq(line.coordinates, p, 'line altered by queries')


def near(p, q, closed_):
    a, b = segments(p, closed_)
    return [to_segment(q[:2], u[:2], v[:2]) for u, v in zip(a, b)]


@check('nearest', with_crs(polygons(), closed = closed, xy = st.lists(st.tuples(fl(-0.2, 1.2, 3), fl(-0.2, 1.2, 3)), min_size = 1, max_size = 6), f = fl(0, 1, 2), zs = st.booleans()), quick = 300, thorough = 5000,
       rule = 'a point inside and a point outside a closed line')
def nearest(s, ctx):
    m, crs, p, line = make(s, ctx)
    if not simple(p):
        return
    cl = s['closed']
    size = size_of(p)
    tol = 1.0e-8 * size + 1.0e-9 * float(np.abs(p).max())
    lo, hi = p[:, :2].min(axis = 0), p[:, :2].max(axis = 0)
    pts = [lo + np.array(f) * (hi - lo) for f in s['xy']]
    ins = []
    for q in pts:
        if s['zs']:
            q = np.append(q, 77.0)
        n_ = near(p, q, cl)
        d = min(x[0] for x in n_)
        seg, dist = line.closest_segment_and_distance_to_point_xy(q)
        close(dist, d, tol, 'distance to nearest segment')
        close(n_[seg][0], d, tol, f'distance of segment {seg} given as closest')
        for k in range(len(n_)):
            arr_close(np.asarray(line.point_snapped_to_segment_xy(k, q))[:2], n_[k][1], tol * 10.0, f'point snapped to segment {k}')
        if cl and d > 1.0e-3 * size:
            want = inside(p, q)
            ins.append(want)
            for mode in ('crossing', 'winding'):
                eq(bool(line.point_is_inside_xy(q, mode = mode)), want, f'inside by {mode}')
            eq(line.points_are_inside_xy(np.array([[q], [p.mean(axis = 0)[:len(q)]]])).shape, (2, 1), 'shape of inside array')
            eq(bool(line.points_are_inside_xy(np.array([q]))[0]), want, 'inside by array')
    if len(set(ins)) == 2:
        ctx.nontrivial()
    a, b = segments(p, cl)
    for k in range(len(a)):
        for f in (s['f'], 0.0, 1.0):
            if 0.0 < f < 0.01 or 0.99 < f < 1.0:
                continue
            q = a[k] + f * (b[k] - a[k]) if f < 1.0 else b[k]
            arr_close(line.segment_xyz_from_xy(k, float(q[0]), float(q[1])), q, 1.0e-6 * size + tol, f'xyz for xy on segment {k}')
    if not cl:
        ok(raises(lambda: line.point_is_inside_xy(pts[0]), AssertionError), 'inside of an open line')


def cross(a, b, c, d, ray = False):
    """Crossing point of segments (first one may be a ray), None, or False when too close to call."""
    r, t = b - a, d - c
    den = r[0] * t[1] - r[1] * t[0]
    scale = np.hypot(*r) * np.hypot(*t)
    if abs(den) < 1.0e-6 * scale:
        return False if seg_gap(a, b, c, d) < 1.0e-3 * np.hypot(*t) or ray else None
    w = c - a
    u = (w[0] * t[1] - w[1] * t[0]) / den
    v = (w[0] * r[1] - w[1] * r[0]) / den
    e = 1.0e-5
    if u < -e or v < -e or v > 1 + e or (u > 1 + e and not ray):
        return None
    if u < e or v < e or v > 1 - e or (u > 1 - e and not (ray and u > 1 + e)):
        return False
    return a + u * r


@check('crossings', st.tuples(with_crs(polygons(), closed = closed), with_crs(polygons(), closed = closed), st.tuples(fl(-0.3, 1.3, 3), fl(-0.3, 1.3, 3), fl(-0.3, 1.3, 3), fl(-0.3, 1.3, 3)), st.booleans(), st.tuples(fl(-1, 1, 2), fl(-1, 1, 2))).map(lambda t: dict(one = t[0], two = t[1], line = t[2], half = t[3], apart = t[4])),
       quick = 250, thorough = 6000, rule = 'two or more crossings')
def crossings(s, ctx):
    m, crs, p, line = make(s['one'], ctx)
    if not simple(p):
        return
    q = vertices(dict(s['two'], shift = s['one']['shift'], scale = s['one']['scale']))
    q[:, :2] += p[:, :2].mean(axis = 0) - q[:, :2].mean(axis = 0) + np.array(s['apart']) * size_of(p[:, :2])
    cl, cl2 = s['one']['closed'], s['two']['closed']
    other = rql.Polyline(m, is_closed = cl2, set_coord = q.copy(), set_crs = crs.uuid, title = 'other')
    size = size_of(p)
    tol = 1.0e-7 * size + 1.0e-9 * float(np.abs(p).max())
    a, b = segments(p[:, :2], cl)
    c, d = segments(q[:, :2], cl2)
    want = []
    clear = True
    for u, v in zip(a, b):
        for w, x in zip(c, d):
            r = cross(u, v, w, x)
            if r is False:
                clear = False
            elif r is not None:
                want.append(r)
    if clear:
        got = line.xy_crossings(other)
        eq(len(got), len(want), 'number of crossings of two lines')
        if want:
            arr_close(np.array(got), np.array(want), tol, 'crossings of two lines')
        back = other.xy_crossings(line)
        eq(len(back), len(want), 'number of crossings, lines swapped')
        if want:
            arr_close(np.array(sorted((round(float(x), 4), round(float(y), 4)) for x, y in back)), np.array(sorted((round(float(x), 4), round(float(y), 4)) for x, y in want)), 2.0e-4 + tol, 'crossings, lines swapped')
        if len(want) > 1:
            ctx.nontrivial()
    lo, hi = p[:, :2].min(axis = 0), p[:, :2].max(axis = 0)
    e1, e2 = (lo + np.array(s['line'][k:k + 2]) * (hi - lo) for k in (0, 2))
    if np.hypot(*(e2 - e1)) < 1.0e-3 * size:
        return
    rs = [cross(e1, e2, u, v, ray = s['half']) for u, v in zip(a, b)]
    if any(r is False for r in rs):
        return
    seg, x, y = line.first_line_intersection(e1[0], e1[1], e2[0], e2[1], half_segment = s['half'])
    hits = [k for k, r in enumerate(rs) if r is not None]
    if not hits:
        eq((seg, x, y), (None, None, None), 'intersection where there is none')
    else:
        eq(seg, hits[0], 'first segment intersected')
        arr_close(np.array([x, y]), rs[seg], tol, 'point of first intersection')


@check('normalised', with_crs(polygons(kinds = ('convex', 'convex', 'regular')), xn = fl(0, 1, 3), yn = fl(0, 1, 3), mode = st.sampled_from(['perimeter', 'circle', 'square'])), quick = 400, thorough = 6000, rule = 'neither at the centre nor on the rim')
def normalised(s, ctx):
    m, crs, p, line = make(s, ctx)
    if not simple(p) or abs(shoelace(p[:, :2])) < 0.02 * size_of(p[:, :2]) ** 2:
        return
    t = turns(p)
    if not (np.all(t >= 0.0) or np.all(t <= 0.0)):
        return
    mode = s['mode']
    ctx.label(mode)
    xn, yn = s['xn'], s['yn']
    size = size_of(p)
    tol = 1.0e-6 * size + 1.0e-8 * float(np.abs(p).max())
    a, b = segments(p, True)
    lengths = np.linalg.norm(b - a, axis = 1)
    centre = (0.5 * (a + b) * lengths[:, None]).sum(axis = 0)[:2] / lengths.sum()

    def rim(v):
        for u, w in zip(a[:, :2], b[:, :2]):
            e = w - u
            den = v[0] * e[1] - v[1] * e[0]
            if abs(den) < 1.0e-12 * np.hypot(*v) * np.hypot(*e):
                continue
            g = u - centre
            d = (g[0] * e[1] - g[1] * e[0]) / den
            f = (g[0] * v[1] - g[1] * v[0]) / den
            if d > 0.0 and -1.0e-9 <= f <= 1.0 + 1.0e-9:
                return centre + d * v
        return None
    if mode == 'square':
        v = np.array([xn - 0.5, yn - 0.5])
        f = 2.0 * float(np.abs(v).max())
        r = centre if f == 0.0 else rim(v)
    elif mode == 'circle':
        f = math.sqrt(xn)
        r = rim(np.array([math.cos(2.0 * math.pi * yn), math.sin(2.0 * math.pi * yn)]))
    else:
        f = math.sqrt(xn)
        r = along(p, True, (yn % 1.0) * float(np.linalg.norm((b - a)[:, :2], axis = 1).sum()), True)[:2]
    if r is None:
        return
    want = centre + f * (r - centre)
    got = np.array(line.denormalised_xy(xn, yn, mode = mode), dtype = float)
    arr_close(got, want, tol, 'point for normalised values')
    if min(x[0] for x in near(p, want, True)) < 1.0e-4 * size and f < 0.999:
        return
    if f > 0.999:
        got = centre + 0.999 * (r - centre)
        return
    x2, y2 = line.normalised_xy(float(got[0]), float(got[1]), mode = mode)
    ok(-1.0e-12 <= x2 <= 1.0 + 1.0e-12 and -1.0e-12 <= y2 <= 1.0 + 1.0e-12, f'normalised values ({x2}, {y2}) not in range 0 to 1')
    if f < 0.02:
        if mode != 'square':
            close(x2, xn, 1.0e-4, 'normalised x of point at centre')
        else:
            arr_close(np.array([x2, y2]), np.array([xn, yn]), 1.0e-4, 'normalised values of point at centre')
        return
    ctx.nontrivial()
    close(x2, xn, 1.0e-4, 'normalised x of denormalised point')
    dy = abs(y2 - yn)
    ok(min(dy, 1.0 - dy if mode != 'square' else dy) < 1.0e-4, f'normalised y of denormalised point: {y2} for {yn}')
    x2, y2 = min(max(x2, 0.0), 1.0), min(max(y2, 0.0), 1.0)  # rounding
    back = np.array(line.denormalised_xy(x2, y2, mode = mode), dtype = float)
    arr_close(back, got, 1.0e-4 * size + tol, 'point normalised and denormalised')


WEIGHT = {'linear': 1, 'square': 2, 'cube': 3}


def tangents_of(p, closed_, power):
    n = len(p)
    out = np.empty((n, 3))
    for k in range(n):
        v = []
        if k > 0 or closed_:
            v.append(p[k] - p[k - 1])
        if k < n - 1 or closed_:
            v.append(p[(k + 1) % n] - p[k])
        t = sum(u / np.linalg.norm(u) ** power for u in v)
        if np.linalg.norm(t) < 1.0e-6 * sum(np.linalg.norm(u) ** (1 - power) for u in v):
            return None
        out[k] = t / np.linalg.norm(t)
    return out


@check('spline', with_crs(polygons(kinds = ('star', 'monotone', 'convex', 'square')), closed = closed, weight = st.sampled_from(list(WEIGHT)), least = st.integers(1, 4), longest = st.sampled_from([None, 0.1, 0.5]), degrees = st.sampled_from([None, 5.0, 30.0]), own = st.booleans(), title = st.sampled_from([None, 'bendy'])),
       quick = 200, thorough = 5000, rule = 'knots inserted')
def spline(s, ctx):
    m, crs, p, line = make(s, ctx)
    if not simple(p):
        return
    cl = s['closed']
    size = size_of(p)
    tol = 1.0e-7 * size + 1.0e-9 * float(np.abs(p).max())
    unit = tangents_of(p, cl, 1)
    if unit is not None:
        arr_close(line.tangent_vectors(), unit, 1.0e-6, 'tangent vectors of line')
    tv = tangents_of(p, cl, WEIGHT[s['weight']])
    if tv is None:
        return
    arr_close(rql.tangents(p, weight = s['weight'], closed = cl), tv, 1.0e-6, 'tangents of points')
    longest = None if s['longest'] is None else s['longest'] * size
    a, b = segments(p, cl)
    ends = [(k, (k + 1) % len(p)) for k in range(len(a))]
    if s['own']:
        tv = np.roll(tv, 1, axis = 0)
        got = rql.spline(p, tangent_vectors = tv.copy(), min_subdivisions = s['least'], max_segment_length = longest, max_degrees_per_knot = s['degrees'], closed = cl)
    else:
        sp = line.splined(tangent_weight = s['weight'], min_subdivisions = s['least'], max_segment_length = longest, max_degrees_per_knot = s['degrees'], title = s['title'])
        eq(sp.title, s['title'] or line.title, 'title of splined line')
        eq(bool(sp.isclosed), cl, 'splined line closed')
        ok(bu.matching_uuids(sp.crs_uuid, crs.uuid), 'crs of splined line')
        ok(not bu.matching_uuids(sp.uuid, line.uuid), 'splined line has uuid of original')
        got = sp.coordinates
        arr_eq(got, rql.spline(p, tangent_weight = s['weight'], min_subdivisions = s['least'], max_segment_length = longest, max_degrees_per_knot = s['degrees'], closed = cl), 'spline of points')
    want = []

    def angle(u, v):
        return math.degrees(math.acos(max(-1.0, min(1.0, float(np.dot(u, v)) / (np.linalg.norm(u) * np.linalg.norm(v))))))
    for (i, j), u, v in zip(ends, a, b):
        l = float(np.linalg.norm(v - u))
        parts = [float(s['least'])]
        if longest:
            parts.append(l / longest)
        if s['degrees']:
            parts.append((angle(tv[i], v - u) + angle(v - u, tv[j])) / s['degrees'])
        count = max(math.ceil(x) for x in parts)
        if any(abs(x - round(x)) < 1.0e-5 and x > 0.5 and isinstance(x, float) and x != s['least'] for x in parts[1:]):
            return  # count of subdivisions could go either way
        h = CubicHermiteSpline([0.0, 1.0], np.array([u, v]) - u, np.array([tv[i], tv[j]]) * l)
        want.append(u + h(np.arange(count) / count))
        if count > 1:
            ctx.nontrivial()
    if not cl:
        want.append(p[-1:])
    want = np.concatenate(want)
    eq(len(got), len(want), 'number of knots')
    arr_close(got, want, tol * 10.0, 'knots of spline')
    arr_eq(line.coordinates, p, 'line altered by spline')


@check('derived', with_crs(polygons(kinds = ('monotone', 'star', 'convex', 'regular', 'square')), closed = closed, op = st.sampled_from(['hull', 'scaled', 'trimmed', 'shifted', 'flattened', 'regular']), k = st.integers(0, 12), l = st.integers(0, 12), f = fl(-3, 3, 2), ends = st.tuples(st.booleans(), st.booleans(), st.booleans()), xyz = st.tuples(fl(-50, 50, 1), fl(-50, 50, 1), fl(-50, 50, 1)),
       title = st.sampled_from([None, 'derived']), meta = st.sampled_from([None, {'a': 'b'}]), axis = st.sampled_from('xyzZ'), mode = st.sampled_from(['crossing', 'winding']), query = st.booleans()), quick = 250, thorough = 6000, rule = 'hull of concave polygon, or another operation')
def derived(s, ctx):
    m = ctx.new_model('derived')
    m, crs, p, line = make(s, ctx, m)
    if not simple(p):
        return
    line.extra_metadata = {'source': 'pencil'}
    cl = s['closed'] or s['op'] == 'hull'
    line.isclosed = cl
    op = s['op']
    ctx.label(op)
    size = size_of(p)
    tol = 1.0e-7 * size + 1.0e-9 * float(np.abs(p).max())
    title = s['title'] or 'line'
    if s['query']:
        line.is_convex()
        line.balanced_centre()
    source = dict(line.extra_metadata)
    want_meta = s['meta'] if s['meta'] is not None else source
    if op == 'hull':
        if s['query'] and cl:
            line.is_clockwise()
        new = rql.Polyline.convex_hull_from_closed_polyline(line, s['title'], mode = s['mode'])
        eq(new.title, s['title'] or 'line convex hull', 'title of hull')
        h = ConvexHull(p[:, :2])
        close(abs(shoelace(new.coordinates[:, :2])), h.volume, 1.0e-7 * size * size, 'area of hull')
        ok(new.is_convex(trust_metadata = False) and new.isclosed, 'hull is not closed and convex')
        where = [int(np.argmin(np.abs(p - q).max(axis = 1))) for q in new.coordinates]
        arr_eq(new.coordinates, p[where], 'hull point not from the original')
        eq(where, sorted(where), 'order of points in hull')
        ok(set(int(x) for x in h.vertices) <= set(where), 'corner missing from hull')
        if len(where) < len(p):
            ctx.nontrivial()
        arr_eq(line.coordinates, p, 'original altered')
        return
    ctx.nontrivial()
    if op == 'regular':
        n = s['k'] % 8 + 3
        r = abs(s['f']) + 0.5
        c = np.array(s['xyz'])
        new = rql.Polyline.for_regular_polygon(m, n, r, tuple(c), crs.uuid, 'ngon')
        t = np.arange(n) * 2.0 * np.pi / n
        arr_close(new.coordinates, c + np.stack((r * np.sin(t), r * np.cos(t), np.zeros(n)), axis = -1), 1.0e-9, 'regular polygon')
        eq((new.isclosed, new.title), (True, 'ngon'), 'closed and title')
        close(new.area(), 0.5 * n * r * r * math.sin(2.0 * math.pi / n), 1.0e-6, 'area of regular polygon')
        eq(bool(new.is_clockwise()), crs.axis_order not in LEFT, 'sense of regular polygon')
        title, want_meta, cl, want = 'ngon', {}, True, new.coordinates.copy()
    elif op == 'scaled':
        if abs(s['f']) < 0.01:
            return
        new = rql.Polyline.from_scaled_polyline(line, s['f'], title = s['title'], extra_metadata = s['meta'])
        a, b = segments(p, cl)
        lengths = np.linalg.norm(b - a, axis = 1)
        c = (0.5 * (a + b) * lengths[:, None]).sum(axis = 0) / lengths.sum()
        want = c + s['f'] * (p - c)
    elif op == 'trimmed':
        k, l = sorted((s['k'] % (len(p) - 1), s['l'] % (len(p) - 1)))
        want = p[k:l + 2].copy()
        kw = {}
        w = 3 if s['ends'][2] else 2
        if s['ends'][0]:
            kw['start_xyz'] = tuple((0.5 * (p[k] + p[k + 1]))[:w])
            want[0, :w] = kw['start_xyz']
        if s['ends'][1]:
            kw['end_xyz'] = (0.25 * p[l] + 0.75 * p[l + 1])[:w]
            want[-1, :w] = kw['end_xyz']
        new = rql.Polyline.from_trimmed_polyline(line, k, l, title = s['title'], extra_metadata = s['meta'], **kw)
        cl = False
        ok(raises(lambda: rql.Polyline.from_trimmed_polyline(line, 0, len(p) - 1), AssertionError) and (k == 0 or raises(lambda: rql.Polyline.from_trimmed_polyline(line, k, k - 1), AssertionError)), 'segments out of range accepted')
    else:
        line.write_hdf5()
        root = line.create_xml()
        if op == 'shifted':
            new = rql.shift_polyline(m, root, xyz_shift = tuple(s['xyz']), title = s['title'] or '')
            want = p + np.array(s['xyz'])
            title = s['title'] or f"line shifted by xyz({tuple(s['xyz'])})"
        else:
            new = rql.flatten_polyline(m, root, axis = s['axis'], value = s['f'], title = s['title'] or '')
            want = p.copy()
            want[:, 'xyz'.index(s['axis'].lower())] = s['f']
            title = s['title'] or f"line flattened in {s['axis'].lower()} to value {s['f']:.3f}"
        want_meta = None
    arr_close(new.coordinates, want, tol, f'{op} line')
    eq((bool(new.isclosed), new.title), (cl, title), 'closed and title')
    ok(bu.matching_uuids(new.crs_uuid, crs.uuid), 'crs of new line')
    ok(not bu.matching_uuids(new.uuid, line.uuid), 'uuid of original in use')
    arr_eq(line.coordinates, p, 'original altered')
    if want_meta is not None and op != 'regular':
        eq({k: v for k, v in new.extra_metadata.items() if k not in ('is_clockwise', 'is_convex')}, {k: v for k, v in want_meta.items() if k not in ('is_clockwise', 'is_convex')}, 'extra metadata')
    if cl and op in ('scaled', 'shifted'):
        area = shoelace(want[:, :2])
        close(new.area(), abs(area), 1.0e-6 * size_of(want) ** 2, 'area of new line')
        eq(bool(new.is_clockwise()), (area > 0.0) if crs.axis_order in LEFT else (area < 0.0), 'clockwise sense of new line')
    if op == 'trimmed':
        eq(bool(new.is_convex()), False, 'trimmed line convex')
        eq(dict(line.extra_metadata), source, 'extra metadata of original changed')
    close(new.full_length(), float(np.linalg.norm(np.subtract(*segments(want, cl)[::-1]), axis = 1).sum()), tol * 100.0, 'length of new line')
    new.write_hdf5()
    new.create_xml()
    m2 = ctx.reopen(m)
    back = rql.Polyline(m2, uuid = new.uuid)
    arr_close(back.coordinates, want, tol, f'{op} line in file')
    eq((bool(back.isclosed), back.title), (cl, title), 'closed and title in file')


@check('sets', st.fixed_dictionaries(dict(lines = st.lists(with_crs(polygons(), closed = closed), min_size = 1, max_size = 5), mixed = st.booleans(), again = st.sampled_from([None, 0, 0, 1]), how = st.sampled_from(['combine', 'init']), query = st.tuples(fl(-1, 1, 2), fl(-1, 1, 2)), file = st.booleans())), quick = 130, thorough = 3000,
       rule = 'open and closed lines, three or more')
def sets(s, ctx):
    m = ctx.new_model('sets')
    first = dict(s['lines'][0]['crs'], xy_units = 'm')
    crs = rqc.Crs(m, **first)
    crs.create_xml()
    other = rqc.Crs(m, **dict(first, x_offset = 100.0, y_offset = -20.0, z_offset = 5.0))
    other.create_xml()
    twin = rqc.Crs(m, **dict(first, title = 'equivalent'))
    twin.create_xml(reuse = False)
    lines, want, flags = [], [], []
    for k, l in enumerate(s['lines']):
        p = vertices(l)
        c = (crs, other, twin)[k % 3] if s['mixed'] and s['how'] == 'combine' else crs
        lines.append(rql.Polyline(m, is_closed = l['closed'], set_coord = p.copy(), set_crs = c.uuid, title = f'line {k}'))
        want.append(p + np.array([100.0, -20.0, 5.0]) if c is other else p)
        flags.append(l['closed'])
    if s['again'] is not None:
        k = s['again'] % len(lines)
        lines.append(lines[k])
        want.append(want[k])
        flags.append(flags[k])
        ctx.label('line repeated')
    if len(set(flags)) == 2 and len(flags) > 2:
        ctx.nontrivial()
    before = [l.coordinates.copy() for l in lines]
    if s['how'] == 'init':
        ps = rql.PolylineSet(m, polylines = lines, title = 'set')
    else:
        ps = rql.PolylineSet(m, crs_uuid = crs.uuid, title = 'set')
        ps.combine_polylines(lines)
    for l, b in zip(lines, before):
        arr_eq(l.coordinates, b, 'line altered by combining')

    def judge(ps, what):
        ok(bu.matching_uuids(ps.crs_uuid, crs.uuid), f'{what}: crs of set')
        eq([int(x) for x in ps.count_perpol], [len(x) for x in want], f'{what}: points per line')
        arr_close(ps.coordinates, np.concatenate(want), 1.0e-6, f'{what}: coordinates')
        eq([bool(x) for x in ps.closed_array], flags, f'{what}: closed lines')
        ps.bool_array_format()
        if len(set(flags)) == 1:
            eq((bool(ps.boolnotconstant), bool(ps.boolvalue)), (False, flags[0]), f'{what}: constant closed flag')
        else:
            ok(ps.boolnotconstant, f'{what}: closed flag said to be constant')
            arr_eq(np.sort(np.array(ps.indices, dtype = int)), np.where(np.array(flags) != ps.boolvalue)[0], f'{what}: indices of lines with closed flag not {ps.boolvalue}')
        for args in ({}, dict(closed_array = np.array(flags), count_perpol = np.array([len(x) for x in want]), coordinates = np.concatenate(want), crs_uuid = crs.uuid)):
            got = ps.convert_to_polylines(**args)
            eq(len(got), len(want), f'{what}: lines from set')
            for k, l in enumerate(got):
                arr_close(l.coordinates, want[k], 1.0e-6, f'{what}: coordinates of line {k} from set')
                eq((bool(l.isclosed), l.title), (flags[k], f'set {k + 1}'), f'{what}: closed and title of line {k} from set')
                ok(bu.matching_uuids(l.crs_uuid, crs.uuid), f'{what}: crs of line from set')
        again = rql.PolylineSet(ps.model, polylines = got, title = 'again')
        arr_close(again.coordinates, np.concatenate(want), 1.0e-6, f'{what}: coordinates of set combined again')
        eq(([int(x) for x in again.count_perpol], [bool(x) for x in again.closed_array]), ([len(x) for x in want], flags), f'{what}: counts and flags of set combined again')

    judge(ps, 'in memory')
    if not (s['mixed'] and s['how'] == 'combine'):
        size = max(size_of(w[:, :2]) for w in want)
        q = want[0][:, :2].mean(axis = 0) + np.array(s['query']) * size
        if all(simple(w) and min(x[0] for x in near(w, q, True)) > 1.0e-3 * size for w in want):
            hit = [k for k, w in enumerate(want) if flags[k] and inside(w, q)]
            for mode in ('crossing', 'winding'):
                eq(ps.poly_index_containing_point_in_xy(q, mode = mode), hit[0] if hit else None, f'line containing point by {mode}')
    if s['file']:
        ps.write_hdf5()
        ps.create_xml()
        m2 = ctx.reopen(m)
        judge(rql.PolylineSet(m2, uuid = ps.uuid), 'in file')
