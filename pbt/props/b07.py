"""B07: every inclusion method against exact rational arithmetic, away from boundaries.

Polygons (convex, star shaped, self avoiding staircases, random triangles) with integer or decimal vertices, any winding and starting vertex, and points on a
grid of decimals, many sharing a coordinate with vertices; the oracle is the crossing number in Fractions, points within a small distance of the boundary being
left out. The aligned mesh and batched triangle variants are compared with the exact answer for every mesh point and triangle.
"""
import math
from fractions import Fraction as F
import numpy as np
from pbt.core import check, st, ok, eq, arr_eq, arr_close, close
from pbt.lib.gen import seeds, fl
import resqpy.model as rq
import resqpy.olio.point_inclusion as pip
import resqpy.olio.vector_utilities as vec
import resqpy.lines as rql
import resqpy.crs as rqc


def exact_inside(p, poly):
    """Even-odd rule in rational arithmetic; poly: list of (x, y)."""
    x, y = F(p[0]), F(p[1])
    inside = False
    for i in range(len(poly)):
        (x1, y1), (x2, y2) = poly[i - 1], poly[i]
        x1, y1, x2, y2 = F(x1), F(y1), F(x2), F(y2)
        if (y1 > y) != (y2 > y):
            if x < x1 + (y - y1) * (x2 - x1) / (y2 - y1):
                inside = not inside
    return inside


def boundary_distance(p, poly):
    p = np.asarray(p, dtype = float)[:2]
    d = math.inf
    for i in range(len(poly)):
        a, b = np.asarray(poly[i - 1], dtype = float)[:2], np.asarray(poly[i], dtype = float)[:2]
        e = b - a
        l2 = float(e @ e)
        t = 0.0 if l2 == 0.0 else min(1.0, max(0.0, float((p - a) @ e) / l2))
        d = min(d, float(np.linalg.norm(p - (a + t * e))))
    return d


def make_polygon(kind, seed, n, scale):
    """Returns a simple polygon as an (n, 2) array."""
    rng = np.random.default_rng(seed)
    if kind == 'star':
        az = np.sort(rng.choice(720, n, replace = False)) * math.pi / 360
        while np.max(np.diff(np.concatenate((az, [az[0] + 2 * math.pi])))) >= math.pi * 0.99:
            az = np.sort(rng.choice(720, n, replace = False)) * math.pi / 360
        r = rng.uniform(0.2, 1.0, n)
        xy = np.stack((r * np.sin(az), r * np.cos(az)), axis = 1) * 10
    elif kind == 'convex':
        az = np.sort(rng.choice(360, n, replace = False)) * math.pi / 180
        xy = np.stack((np.sin(az), np.cos(az)), axis = 1) * (10, 7)
    elif kind == 'stairs':  # x monotone rectilinear polygon on integers
        m = max(1, n // 2)
        top = rng.integers(1, 8, m)
        pts = [(0, 0), (m, 0)]
        for i in range(m - 1, -1, -1):
            pts += [(i + 1, int(top[i])), (i, int(top[i]))]
        out = []
        for q in pts:
            if not out or out[-1] != q:
                out.append(q)
        xy = np.array(out, dtype = float)
    else:
        xy = rng.integers(-5, 6, (3, 2)).astype(float)
        while abs((xy[1, 0] - xy[0, 0]) * (xy[2, 1] - xy[0, 1]) - (xy[1, 1] - xy[0, 1]) * (xy[2, 0] - xy[0, 0])) < 1:
            xy = rng.integers(-5, 6, (3, 2)).astype(float)
    if seed % 2:
        xy = np.round(xy, 1 if kind in ('star', 'convex') else 6)
        keep = [i for i in range(len(xy)) if tuple(xy[i]) != tuple(xy[i - 1])]
        xy = xy[keep]
    return xy * scale


@st.composite
def polygons(draw):
    return dict(kind = draw(st.sampled_from(['star', 'star', 'convex', 'stairs', 'triangle'])), seed = draw(seeds), n = draw(st.integers(3, 12)),
                scale = draw(st.sampled_from([1.0, 1.0, 100.0, 1e-3])), shift = draw(st.sampled_from([0.0, 0.0, 1000.0, 450000.0])), turn = draw(st.integers(0, 11)),
                flip = draw(st.booleans()), z = draw(st.booleans()), nx = draw(st.integers(1, 6)), ny = draw(st.integers(1, 6)))


@check('polygons', polygons(), quick = 900, thorough = 20000, shards = 3,
       rule = 'a simple polygon of any winding and first vertex with points about it; non-trivial when some points are inside and some outside')
def polygons_(spec, ctx):
    poly = make_polygon(spec['kind'], spec['seed'], spec['n'], spec['scale']) + spec['shift']
    if len(poly) < 3:
        return
    if spec['flip']:
        poly = poly[::-1]
    poly = np.ascontiguousarray(np.roll(poly, spec['turn'], axis = 0))
    rng = np.random.default_rng(spec['seed'] + 1)
    lo, hi = poly.min(axis = 0), poly.max(axis = 0)
    size = float(max(hi - lo))
    # a lattice of points, some columns and rows of which are exactly those of vertices
    xs = np.where(rng.random(spec['nx']) < 0.4, rng.choice(poly[:, 0], spec['nx']), rng.uniform(lo[0] - 0.2 * size, hi[0] + 0.2 * size, spec['nx']))
    ys = np.where(rng.random(spec['ny']) < 0.4, rng.choice(poly[:, 1], spec['ny']), rng.uniform(lo[1] - 0.2 * size, hi[1] + 0.2 * size, spec['ny']))
    pts = np.stack(np.meshgrid(xs, ys), axis = -1)  # (ny, nx, 2)
    if spec['z']:
        pts = np.concatenate((pts, rng.uniform(-1, 1, pts.shape[:-1] + (1,))), axis = -1)
        p3 = np.concatenate((poly, rng.uniform(-1, 1, (len(poly), 1))), axis = 1)
    else:
        p3 = poly
    tol = 1e-9 * (size + abs(spec['shift']))
    flat = pts.reshape(-1, pts.shape[-1])
    clear = np.array([boundary_distance(p, poly) > tol for p in flat])
    want = np.array([exact_inside(p, poly) for p in flat])
    for i in np.where(clear)[0]:
        p = flat[i]
        eq(bool(pip.pip_cn(p, p3)), bool(want[i]), f'pip_cn {p} {poly.tolist()}')
        eq(bool(pip.pip_wn(tuple(p), p3)), bool(want[i]), f'pip_wn {p} {poly.tolist()}')
        eq(bool(pip.pip_cn(p, [tuple(v) for v in p3])), bool(want[i]), 'pip_cn with tuples')
        eq(bool(vec.point_in_polygon(p[0], p[1], poly)), bool(want[i]), f'point_in_polygon {p} {poly.tolist()}')
    keep = pts.copy()
    for arr, shape in ((pts, pts.shape[:-1]), (flat, (len(flat),))):
        got = pip.pip_array_cn(arr, p3)
        eq((got.shape, got.dtype.kind), (shape, 'b'))
        arr_eq(got.reshape(-1)[clear], want[clear], 'pip_array_cn')
    arr_eq(pts, keep, 'points modified')
    eq(pip.pip_array_cn(np.zeros((0, 2)), p3).size, 0)
    # list of indices forms
    num = spec['n']
    got = vec.points_in_polygon(np.ascontiguousarray(flat), poly, spec['nx'], num)
    rows = {tuple(int(v) for v in r) for r in got}
    eq(len(rows), len(got), 'duplicates from points_in_polygon')
    for i in range(len(flat)):
        if clear[i]:
            eq((num, i // spec['nx'], i % spec['nx']) in rows, bool(want[i]), f'points_in_polygon {flat[i]}')
    ok(all(r[0] == num and r[1] < spec['ny'] and r[2] < spec['nx'] for r in rows))
    other = poly + 0.37 * size
    ow = np.array([exact_inside(p, other) for p in flat])
    oc = np.array([boundary_distance(p, other) > tol for p in flat])
    rows = {tuple(int(v) for v in r) for r in vec.points_in_polygons(np.ascontiguousarray(flat), np.stack((poly, other, poly)), spec['nx'])}
    for i in range(len(flat)):
        for k, (w, c) in enumerate(((want, clear), (ow, oc), (want, clear))):
            if c[i]:
                eq((k, i // spec['nx'], i % spec['nx']) in rows, bool(w[i]), f'points_in_polygons {flat[i]} polygon {k}')
    # polyline form, any start and order
    m = rq.Model(create_basics = True)
    crs = rqc.Crs(m)
    crs.create_xml()
    pl = rql.Polyline(m, set_coord = np.concatenate((poly, np.zeros((len(poly), 1))), axis = 1), set_bool = True, set_crs = crs.uuid, title = 'p')
    arr = np.concatenate((pts[..., :2], np.full(pts.shape[:-1] + (1,), 7.0)), axis = -1)
    arr_eq(pl.points_are_inside_xy(arr).reshape(-1)[clear], want[clear], 'points_are_inside_xy')
    for i in np.where(clear)[0][:6]:
        for mode in ('crossing', 'winding'):
            eq(bool(pl.point_is_inside_xy(flat[i], mode = mode)), bool(want[i]), 'point_is_inside_xy ' + mode)
        eq(bool(pl.point_is_inside_xy(flat[i])), bool(want[i]))
    # file form
    if spec['scale'] == 1.0 and spec['shift'] < 999.0 and spec['seed'] % 3 == 0:
        path = ctx.path('poly.txt')
        with open(path, 'w') as fp:
            for v in poly:
                fp.write(f'{v[0] / 2.0!r} {v[1] / 2.0!r} 0.0\n')
            fp.write('999.0 999.0 999.0\n')
        got = pip.points_in_polygon(pts[..., 0], pts[..., 1], path, poly_unit_multiplier = 2.0)
        arr_eq(got.reshape(-1)[clear], want[clear], 'points_in_polygon by file')
        got = pip.points_in_polygon(pts[..., 0] / 2.0, pts[..., 1] / 2.0, path)
        arr_eq(got.reshape(-1)[clear], want[clear], 'points_in_polygon by file')
        ctx.label('file')
    # pixels
    if spec['kind'] in ('convex', 'triangle'):
        o = (lo - rng.uniform(-0.6, 0.6, 2) * size)
        dx, dy = size * rng.uniform(0.05, 0.3, 2)
        nc, nr = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        got = pip.scan(o, nc, nr, dx, dy, poly)
        eq(got.shape, (nr, nc))
        for r in range(nr):
            for c in range(nc):
                p = (o[0] + c * dx, o[1] + r * dy)
                if boundary_distance(p, poly) > tol:
                    eq(bool(got[r, c]), exact_inside(p, poly), f'scan: row {r}, column {c}')
        ctx.label('scan')
    ctx.label(spec['kind'])
    ctx.nontrivial(np.any(want[clear]) and not np.all(want[clear]))


@st.composite
def triangles(draw):
    return dict(seed = draw(seeds), nt = draw(st.integers(0, 45)), nx = draw(st.integers(1, 8)), ny = draw(st.integers(1, 8)), dx = draw(st.sampled_from([1.0, 10.0, 0.3, 100.0])),
                dy = draw(st.sampled_from([1.0, 10.0, 0.7])), grid = draw(st.booleans()), batches = draw(st.integers(1, 50)), proj = draw(st.sampled_from(['xy', 'xz', 'yz'])),
                axes = draw(st.permutations([0, 1, 2])))


@check('triangles', triangles(), quick = 360, thorough = 8000, shards = 2,
       rule = 'a set of triangles over a mesh of points aligned with the axes, by every variant and number of batches; non-trivial when some point is in a triangle')
def triangles_(spec, ctx):
    rng = np.random.default_rng(spec['seed'])
    nx, ny, dx, dy, nt = (spec[k] for k in ('nx', 'ny', 'dx', 'dy', 'nt'))
    if spec['grid']:  # vertices in line with mesh points and with each other
        tri = rng.integers(-2, 2 * max(nx, ny) + 3, (nt, 3, 2)) * 0.5 + rng.choice([0.0, 0.25, 0.5, 1e-7, -1e-7])
    else:
        c = rng.uniform(0, max(nx, ny), (nt, 1, 2))
        tri = c + rng.uniform(-1, 1, (nt, 3, 2)) * rng.choice([0.6, 3.0, 20.0], (nt, 1, 1))
    area = 0.5 * np.abs((tri[:, 1, 0] - tri[:, 0, 0]) * (tri[:, 2, 1] - tri[:, 0, 1]) - (tri[:, 1, 1] - tri[:, 0, 1]) * (tri[:, 2, 0] - tri[:, 0, 0]))
    tri = tri[area > 1e-3] * (dx, dy)
    nt = len(tri)
    xs, ys = dx * (0.5 + np.arange(nx)), dy * (0.5 + np.arange(ny))
    pts = np.stack(np.meshgrid(xs, ys), axis = -1).reshape(-1, 2)
    size = max(nx * dx, ny * dy)
    want, skip = set(), set()
    for t in range(nt):
        lo, hi = tri[t].min(axis = 0) - 1e-6 * size, tri[t].max(axis = 0) + 1e-6 * size
        for i in np.where(np.all((pts >= lo) & (pts <= hi), axis = 1))[0]:
            key = (t, int(i) // nx, int(i) % nx)
            if boundary_distance(pts[i], tri[t]) <= 1e-9 * size:
                skip.add(key)
            elif exact_inside(pts[i], tri[t].tolist()):
                want.add(key)

    def compare(got, name):
        got = np.asarray(got)
        eq(got.shape[1:], (3,), name + ' shape')
        rows = [tuple(int(v) for v in r) for r in got]
        eq(len(set(rows)), len(rows), name + ' duplicates')
        diff = (set(rows) ^ want) - skip
        ok(not diff, name + ' (triangle, y, x) differences', sorted(diff)[:3], tri[sorted(diff)[0][0]] if diff and sorted(diff)[0][0] < nt else None)

    keep = tri.copy()
    compare(vec.points_in_triangles_aligned(nx, ny, dx, dy, tri), 'points_in_triangles_aligned')
    compare(vec.points_in_triangles_aligned_optimised(nx, ny, dx, dy, tri, spec['batches']), 'points_in_triangles_aligned_optimised')
    compare(vec.points_in_triangles_aligned_optimised(nx, ny, dx, dy, tri), 'points_in_triangles_aligned_optimised')
    compare(vec.points_in_triangles_aligned_optimised_serial(nx, ny, dx, dy, tri), 'points_in_triangles_aligned_optimised_serial')
    arr_eq(tri, keep, 'triangles modified')
    if nt:
        compare(vec.points_in_triangles_njit(pts, tri, nx), 'points_in_triangles_njit')
        t = int(rng.integers(nt))
        for row in np.argwhere(np.ones((ny, nx)))[:20]:
            key = (t, int(row[0]), int(row[1]))
            if key not in skip:
                p = pts[row[0] * nx + row[1]]
                eq(bool(vec.point_in_triangle(p[0], p[1], tri[t])), key in want, 'point_in_triangle')
                a, b, c = tri[t]
                if vec.clockwise(a, b, c) > 0:
                    a, b = b, a
                eq(bool(vec.in_triangle(a, b, c, p)), key in want, 'in_triangle')
                eq(bool(vec.in_triangle_edged(a, b, c, p)), key in want, 'in_triangle_edged')
        got = {tuple(int(v) for v in r) for r in vec.points_in_triangle(pts, tri[t], nx, t)}
        ok(not ((got ^ {k for k in want if k[0] == t}) - skip), 'points_in_triangle')
        norm = tri[t] / (dx, dy) - 0.5
        got = {tuple(int(v) for v in r) for r in vec.mesh_points_in_triangle(norm, nx, ny, t)}
        ok(not ((got ^ {k for k in want if k[0] == t}) - skip), 'mesh_points_in_triangle')
        # shared vertex form, any projection
        a0, a1 = 'xyz'.index(spec['proj'][0]), 'xyz'.index(spec['proj'][1])
        p3 = rng.uniform(-1, 1, (3 * nt, 3))
        p3[:, a0], p3[:, a1] = tri.reshape(-1, 2).T
        d3 = rng.uniform(-1, 1, (len(pts), 3))
        d3[:, a0], d3[:, a1] = pts.T
        for edged in (False, True):
            got = vec.points_in_triangles(p3, np.arange(3 * nt).reshape(-1, 3), d3, projection = spec['proj'], edged = edged)
            eq(got.shape, (nt, len(pts)))
            compare([(t, i // nx, i % nx) for t, i in np.argwhere(got)] or np.zeros((0, 3)), f'points_in_triangles edged {edged}')
        if spec['proj'] == 'xy':
            got = vec.points_in_triangles(tri.reshape(-1, 2), np.arange(3 * nt).reshape(-1, 3), pts)
            compare([(t, i // nx, i % nx) for t, i in np.argwhere(got)] or np.zeros((0, 3)), 'points_in_triangles 2D')
    # unified form, with z sampled on the triangles
    ax, ay, az = spec['axes']
    t3 = np.empty((nt, 3, 3))
    t3[..., [ax, ay]] = tri / (dx, dy) - 0.5
    t3[..., az] = rng.uniform(-5, 5, (nt, 3))
    got, z = vec.points_in_triangles_aligned_unified(nx, ny, ax, ay, az, t3, spec['batches'])
    compare(got, 'points_in_triangles_aligned_unified')
    eq(len(z), len(got))
    for (t, y, x), zz in zip(got, z):
        if (int(t), int(y), int(x)) in skip:
            continue
        m = np.ones((3, 3))
        m[:2] = t3[t][:, [ax, ay]].T
        w = np.linalg.solve(m, (x, y, 1.0))
        close(zz, float(w @ t3[t, :, az]), 1e-6 * (1 + np.abs(w).max()), 'z sampled by points_in_triangles_aligned_unified')
    ctx.label('on grid' if spec['grid'] else 'random')
    ctx.nontrivial(bool(want))
