"""Generated lattice point sets and triangle sets; the oracle is exact integer geometry (hull, areas, in-circle determinants) and direct enumeration.

Point sets come on an integer lattice (scaled by a power of two); those with coincident, collinear or cocircular points, which are not in general
position, are judged only for what remains defined.
"""
import itertools, math
import numpy as np
from pbt.core import check, st, ok, eq, close, arr_close, arr_eq, fail, raises
from pbt.lib.gen import seeds, fl
import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.olio.triangulation as tri
import resqpy.olio.vector_utilities as vec


@st.composite
def point_sets(draw, hi = 60):
    return dict(seed = draw(seeds), n = draw(st.integers(3, 9) | st.integers(3, hi)), span = draw(st.sampled_from([8, 40, 1000, 30000])),
                aspect = draw(st.sampled_from([1, 1, 1, 5, 20])), sc = draw(st.sampled_from([1.0, 0.125, 16.0])),
                off = [draw(st.sampled_from([0, 0, 1000, -500000])) for _ in range(2)], d3 = draw(st.booleans()),
                shape = draw(st.sampled_from(['square', 'square', 'ring', 'cluster'])))


def lattice(spec):
    """Distinct integer points (n, 2)."""
    r = np.random.default_rng(spec['seed'])
    n, s = spec['n'], spec['span']
    pts, seen = [], set()
    while len(pts) < n:
        if spec['shape'] == 'ring':
            a = r.random() * 2 * math.pi
            q = (round(s * math.cos(a) * (0.7 + 0.3 * r.random())), round(s * math.sin(a) * (0.7 + 0.3 * r.random())))
        elif spec['shape'] == 'cluster':
            q = tuple(int(v) for v in np.round(r.normal(size = 2) * s / 3))
        else:
            q = tuple(int(v) for v in r.integers(0, s + 1, 2))
        q = (q[0] * spec['aspect'], q[1])
        if q not in seen:
            seen.add(q)
            pts.append(q)
        elif len(seen) > s * s // 4:
            break
    return np.array(pts, dtype = np.int64)


def coords(spec, q):
    p = (q + np.array(spec['off'])) * spec['sc']
    if spec['d3']:
        p = np.concatenate((p, np.random.default_rng(spec['seed'] + 5).random((len(p), 1)) * 100), axis = 1)
    return p


def area2(a, b, c):
    return (b[..., 0] - a[..., 0]) * (c[..., 1] - a[..., 1]) - (b[..., 1] - a[..., 1]) * (c[..., 0] - a[..., 0])


def hull_of(q):
    """Anticlockwise strict hull indices, and whether some other point lies on the hull boundary."""
    o = sorted(range(len(q)), key = lambda i: (q[i][0], q[i][1]))

    def half(idx):
        h = []
        for i in idx:
            while len(h) > 1 and area2(q[h[-2]], q[h[-1]], q[i]) <= 0:
                h.pop()
            h.append(i)
        return h[:-1]

    h = half(o) + half(o[::-1])
    on = False
    for k in range(len(h)):
        a = area2(q[h[k]], q[h[(k + 1) % len(h)]], q)
        on = on or int((a == 0).sum()) > 2
    return h, on


def in_circle(q, t):
    """Matrix (triangles, points): exact in-circle determinant divided by a scale, positive inside; t anticlockwise."""
    a, b, c = (q[t[:, k]][:, None, :].astype(object) for k in range(3))
    d = q[None, :, :].astype(object)
    m = [x - d for x in (a, b, c)]
    s = [x[..., 0]**2 + x[..., 1]**2 for x in m]
    return (m[0][..., 0] * (m[1][..., 1] * s[2] - m[2][..., 1] * s[1]) - m[0][..., 1] * (m[1][..., 0] * s[2] - m[2][..., 0] * s[1]) + s[0] *
            (m[1][..., 0] * m[2][..., 1] - m[2][..., 0] * m[1][..., 1]))


def verify_delaunay(q, t, hull, on_hull, whole, ctx):
    """t must be a valid Delaunay triangulation of the lattice points q (of the whole hull if so required)."""
    ok(t.ndim == 2 and t.shape[1] == 3 and t.dtype.kind in 'iu', 'triangles array', t.shape, t.dtype)
    ok(t.min() >= 0 and t.max() < len(q), 'triangle indices out of range')
    a = area2(q[t[:, 0]], q[t[:, 1]], q[t[:, 2]])
    ok(np.all(a != 0), 'degenerate triangle', t[a == 0])
    tt = t.copy()
    tt[a < 0] = t[a < 0][:, [0, 2, 1]]
    # no overlap: each directed edge at most once, and total area not more than the hull's
    d = [(int(x[i]), int(x[(i + 1) % 3])) for x in tt for i in range(3)]
    eq(len(set(d)), len(d), 'an edge is used twice in the same sense (overlapping triangles)')
    eq(len({tuple(sorted(x)) for x in t.tolist()}), len(t), 'repeated triangle')
    ha = sum(int(area2(q[hull[0]], q[hull[k]], q[hull[k + 1]])) for k in range(1, len(hull) - 1))
    total = int(np.abs(a).sum())
    if whole:
        eq(total, ha, 'triangles do not tile the convex hull: twice their area')
        eq(len(np.unique(t)), len(q), 'number of points used')
        eq(len(t), 2 * len(q) - 2 - sum(1 for x in d if x[::-1] not in set(d)), 'number of triangles (Euler)')
    else:
        ok(total <= ha, 'triangles overlap')
    det = in_circle(q, tt)
    span = int((q.max(axis = 0) - q.min(axis = 0)).max())
    # nearly cocircular sets are beyond floating point
    bad = np.argwhere(det > max(1, span**4 * 1e-9))
    ok(len(bad) == 0, 'a point lies within a circumcircle', [tt[b[0]].tolist() + [int(b[1])] for b in bad[:3]])
    return tt


def boundary_cycle(tt):
    """Clockwise boundary cycle of anticlockwise triangles, as a list, or None when it is not a simple loop."""
    d = {(int(x[i]), int(x[(i + 1) % 3])) for x in tt for i in range(3)}
    nxt = {}
    for a, b in d:
        if (b, a) not in d:
            if b in nxt:
                return None
            nxt[b] = a
    s = next(iter(nxt))
    out, k = [s], nxt[s]
    while k != s:
        out.append(k)
        k = nxt[k]
    return out if len(out) == len(nxt) else None


def same_cycle(a, b):
    a, b = [int(x) for x in a], [int(x) for x in b]
    if sorted(a) != sorted(b):
        return False
    k = b.index(a[0])
    return a == b[k:] + b[:k]


@check('delaunay', point_sets(), quick = 700, thorough = 12000, shards = 3)
def delaunay(spec, ctx):
    """dt() with the scipy algorithm on any point set, and the simple one on smaller sets; general position with 5 or more points."""
    q = lattice(spec)
    if len(q) < 3:
        return
    h, on = hull_of(q)
    if len(h) < 3:
        ctx.label('straight line')
        return
    p = coords(spec, q)
    keep = p.copy()
    t, b = tri.dt(p, algorithm = [None, 'scipy'][spec['seed'] % 2], return_hull = True)
    arr_eq(tri.dt(p), t, 'dt without hull')
    arr_eq(p, keep, 'points were modified')
    # scipy leaves out points or makes slivers only in degenerate situations
    tt = verify_delaunay(q, np.asarray(t), h, on, True, ctx)
    ok(np.array_equal(tt, t), 'triangles are not anticlockwise')
    if not on:
        ok(same_cycle(b, h[::-1]), 'hull is not the clockwise convex hull', list(b), h[::-1])
    if len(q) > 4:
        ctx.nontrivial()
    ctx.label(f'hull {"with collinear points" if on else "strict"}', spec['shape'])
    if len(q) > 22:
        return
    # circumradii: the simple algorithm makes no more than slight concavities, and none where all the circles are small beside its container
    det = in_circle(q, tt)
    general = not on and int((det == 0).sum()) == 3 * len(tt)
    for i, j, k in itertools.combinations(range(len(q)), 3):
        general = general and area2(q[i], q[j], q[k]) != 0
    if not general:
        ctx.label('not in general position')
        return
    f = q.astype(float)
    rad = 0.0
    for x in tt:
        e = [np.linalg.norm(f[x[i]] - f[x[i - 1]]) for i in range(3)]
        rad = max(rad, e[0] * e[1] * e[2] / (2.0 * abs(float(area2(q[x[0]], q[x[1]], q[x[2]])))))
    csf = [100.0, 1000.0][spec['seed'] % 2]
    calls = []
    ts, bs = tri.dt(p, algorithm = 'simple', container_size_factor = csf, return_hull = True, progress_fn = calls.append)
    ok(all(0.0 <= x <= 1.0 for x in calls) and calls == sorted(calls), 'progress values', calls)
    if len(q) == 3:
        tts = verify_delaunay(q, np.asarray(ts), h, on, True, ctx)
    else:
        convex = rad < 0.02 * csf * float(min(f.max(axis = 0) - f.min(axis = 0)))
        tts = verify_delaunay(q, np.asarray(ts), h, on, convex, ctx)
        ctx.label('simple, convex' if convex else 'simple')
        if convex:
            eq({tuple(sorted(x)) for x in tts.tolist()}, {tuple(sorted(x)) for x in tt.tolist()}, 'simple and scipy triangulations')
        cyc = boundary_cycle(tts)
        if cyc is not None and len(np.unique(ts)) == len(q):
            ok(same_cycle(bs, cyc), 'simple: hull is not the clockwise boundary', list(bs), cyc)
    for x in tt[:5]:
        c = tri.ccc(*(p[i] for i in x))
        r = [math.hypot(c[0] - p[i, 0], c[1] - p[i, 1]) for i in x]
        if rad * spec['sc'] < 1e6:
            close(max(r), min(r), 1e-6 * (1 + max(r)), 'circumcentre is not equidistant')


@check('edges', point_sets(40), quick = 500, thorough = 10000, shards = 2)
def edge_functions(spec, ctx):
    """Edge, rim and lookup functions on part of a Delaunay triangulation, with holes and with triangles turned over; some edge is internal."""
    q = lattice(spec)
    if len(q) < 4:
        return
    h, on = hull_of(q)
    if len(h) < 3:
        return
    r = np.random.default_rng(spec['seed'] + 1)
    t = tri.dt(q.astype(float))
    t = t[r.random(len(t)) < r.choice([1.0, 0.9, 0.5])]
    if len(t) == 0:
        return
    for x in t:
        r.shuffle(x)
    keep = t.copy()
    use = {}
    for i, x in enumerate(t.tolist()):
        for e in ((0, 1), (1, 2), (2, 0)):
            use.setdefault(tuple(sorted((x[e[0]], x[e[1]]))), []).append(i)
    ae, ec = tri.edges(t)
    eq([tuple(x) for x in ae.tolist()], sorted(use), 'edges')
    eq(ec.tolist(), [len(use[e]) for e in sorted(use)], 'edge counts')
    rim = [e for e in sorted(use) if len(use[e]) == 1]
    inner = [e for e in sorted(use) if len(use[e]) == 2]
    re_ = tri.rim_edges(ae, ec)
    eq([tuple(x) for x in re_.tolist()], rim, 'rim edges')
    eq([tuple(x) for x in tri.internal_edges(ae, ec).tolist()], inner, 'internal edges')
    for i in range(len(q)):
        eq(tri.triangles_using_point(t, i).tolist(), [k for k, x in enumerate(t.tolist()) if i in x], 'triangles using point')
    for e in list(use)[:20]:
        eq(tri.triangles_using_edge(t, *e).tolist(), use[e], 'triangles using edge')
        eq(tri.triangles_using_edge(t, *e[::-1]).tolist(), use[e], 'triangles using edge')
    te = tri.triangles_using_edges(t, ae)
    eq(te.tolist(), [(use[e] + [-1])[:2] for e in sorted(use)], 'triangles using edges')
    el, pl = tri.rims(re_)
    eq(sorted(int(x) for y in el for x in y), list(range(len(rim))), 'rims: each rim edge once')
    eq(len(el), len(pl), 'number of rims')
    for es, ps in zip(el, pl):
        eq(len(es), len(ps), 'rim lengths')
        for k in range(len(es)):
            eq({int(ps[k]), int(ps[(k + 1) % len(ps)])}, set(rim[int(es[k])]), 'rim edge and points out of step')
    # number of separate loops where no point is shared between loops
    deg = {}
    for a, b in rim:
        deg.setdefault(a, set()).add(b)
        deg.setdefault(b, set()).add(a)
    if all(len(v) == 2 for v in deg.values()):
        seen, n = set(), 0
        for s in deg:
            if s not in seen:
                n += 1
                stack = [s]
                while stack:
                    x = stack.pop()
                    if x not in seen:
                        seen.add(x)
                        stack += deg[x]
        eq(len(el), n, 'number of rims')
        ctx.label(f'{min(n, 3)} rims')
    # orientation
    f = coords(spec, q)
    cw = t.copy()
    out = tri.make_all_clockwise_xy(cw, f)
    ok(out is cw or np.array_equal(out, cw), 'make_all_clockwise_xy is documented as acting in situ')
    ok(np.all(area2(q[cw[:, 0]], q[cw[:, 1]], q[cw[:, 2]]) < 0), 'not all clockwise')
    eq([sorted(x) for x in cw.tolist()], [sorted(x) for x in t.tolist()], 'triangles changed')
    arr_eq(t, keep, 'triangles were modified')
    ctx.nontrivial(len(inner) > 0)
    if any(len(v) > 2 for v in deg.values()):
        ctx.label('rims sharing a point')


@st.composite
def clouds(draw):
    return dict(seed = draw(seeds), shape = draw(st.sampled_from([[30], [7, 9], [1300], [40, 35], [3, 4, 5]])), dip = draw(fl(0, 89, 1)),
                azi = draw(fl(0, 360, 1)), noise = draw(st.sampled_from([0.0, 0.0, 1.0])), at = draw(st.sampled_from([0.0, 1.0e3])),
                rough = draw(st.booleans()), max_dip = draw(st.none() | fl(0, 80, 1)), linalg = draw(st.sampled_from([True, True, False])),
                sample = draw(st.sampled_from([500, 500, None, 20])))


@check('reorient', clouds(), quick = 400, thorough = 6000, shards = 2)
def reorient(spec, ctx):
    """A cloud of points on or about a tilted plane; non-trivial when the plane dips and its normal is recovered."""
    r = np.random.default_rng(spec['seed'])
    n = int(np.prod(spec['shape']))
    local = np.stack((r.random(n) * 200 - 100, r.random(n) * 200 - 100, r.normal(size = n) * spec['noise']), axis = 1)
    d, a = math.radians(spec['dip']), math.radians(spec['azi'])
    nv = np.array([math.sin(d) * math.sin(a), math.sin(d) * math.cos(a), math.cos(d)])
    e1 = np.array([math.cos(a), -math.sin(a), 0.0])
    e2 = np.cross(nv, e1)
    p = (local[:, :1] * e1 + local[:, 1:2] * e2 + local[:, 2:] * nv + np.array([1.0, -2.0, 0.3]) * spec['at']).reshape(tuple(spec['shape']) + (3,))
    keep = p.copy()
    if not spec['linalg'] and n > 200:
        p, keep = p[:1], keep[:1]
    small = p.size < 3 * 20
    out, normal, m = tri.reorient(p, rough = spec['rough'], max_dip = spec['max_dip'], use_linalg = spec['linalg'], sample = spec['sample'])
    arr_eq(p, keep, 'points were modified')
    eq(out.shape, p.shape, 'shape')
    arr_close(m @ m.T, np.eye(3), 1e-9, 'matrix is not orthonormal')
    close(np.linalg.det(m), 1.0, 1e-9, 'matrix is not a proper rotation: determinant')
    arr_close(out, np.einsum('ij,...j->...i', m, p), 1e-9 * (1000 + spec['at']), 'points are not those rotated by the matrix')
    close(np.linalg.norm(normal), 1.0, 1e-9, 'normal length')
    arr_close(m @ normal, [0, 0, 1], 1e-6, 'normal is not turned to the z axis')
    ok(normal[2] >= -1e-9, 'normal vector is not in the positive z hemisphere', normal)
    tilt = math.degrees(math.acos(min(1.0, max(-1.0, normal[2]))))
    if spec['max_dip'] is not None:
        ok(tilt <= spec['max_dip'] + 1e-6, 'dip exceeds the limit', tilt)
    if small:
        return
    # how close the normal should be to the best one
    best = np.linalg.svd(p.reshape(-1, 3) - p.reshape(-1, 3).mean(axis = 0))[2][2]
    best = best if best[2] >= 0 else -best
    bt = math.degrees(math.acos(min(1.0, best[2])))
    off = math.degrees(math.acos(min(1.0, abs(float(best @ normal)))))
    if spec['max_dip'] is not None and tilt >= spec['max_dip'] - 10.0:
        ctx.label('limited')
        if bt > spec['max_dip'] + 3 and spec['linalg'] and spec['noise'] == 0.0:
            close(tilt, spec['max_dip'], 1e-6, 'limited dip')
            # same azimuth as the best normal
            want = np.array([best[0], best[1]]) / np.linalg.norm(best[:2]) * math.sin(math.radians(spec['max_dip']))
            arr_close(normal[:2], want, 1e-6, 'azimuth of limited normal')
            ctx.nontrivial()
        return
    ctx.label('svd' if spec['linalg'] else 'rough' if spec['rough'] else 'fine')
    if spec['linalg']:
        lim = 0.001 if spec['noise'] == 0.0 else 10.0 if spec['sample'] == 20 or p.ndim > 2 else 1.0
        ok(off <= lim, 'normal is away from the best by degrees', off)
        if spec['noise'] == 0.0:
            z = out[..., 2]
            ok(float(z.max() - z.min()) < 1e-6 * (1 + spec['at']), 'flat points are not flat after reorientation', float(z.max() - z.min()))
    elif spec['noise'] == 0.0 and p.size >= 300:
        ok(off <= (10.5 if spec['rough'] else 4.0), 'normal is away from the best by degrees', off)
    if bt > 5:
        ctx.nontrivial()


@st.composite
def seed_sets(draw):
    d = draw(point_sets(25))
    d['span'] = draw(st.sampled_from([40, 1000]))
    d['aspect'] = draw(st.sampled_from([1, 1, 3]))
    d['aoi'] = draw(st.sampled_from(['square', 'circle', 'wide', 'huge', 'huge', 'tight', 'triangle']))
    d['off'] = [0, 0]
    d['d3'] = False
    return d


@check('voronoi', seed_sets(), quick = 300, thorough = 6000, shards = 2)
def voronoi(spec, ctx):
    """Voronoi cells in a convex area of interest: every sampled location is within the cell of its nearest seed and no other; 4 or more seeds."""
    q = lattice(spec)
    if len(q) < 3:
        return
    h, on = hull_of(q)
    if len(h) < 3 or on:
        return
    p = coords(spec, q)
    t, b = tri.dt(p, return_hull = True)
    tt = np.asarray(t)
    det = in_circle(q, tt)
    if int((det == 0).sum()) != 3 * len(tt):
        ctx.label('cocircular')
        return
    lo, hi = p.min(axis = 0), p.max(axis = 0)
    c, w = 0.5 * (lo + hi), (hi - lo)
    kind = spec['aoi']
    if kind == 'circle':
        k = [(math.sin(x), math.cos(x)) for x in np.linspace(0, 2 * math.pi, 13)[:-1]]
        ring = c + np.array(k) * 0.9 * math.hypot(*w)
    elif kind == 'triangle':
        ring = c + np.array([[-3, -1.1], [0.1, 3.2], [3.1, -1.3]]) * w
    else:
        f = dict(square = 0.75, wide = 6.0, huge = 60.0, tight = 0.55)[kind]
        ring = c + np.array([[-1, -1], [-1, 1], [1, 1], [1, -1]]) * f * w
    model = rq.Model(create_basics = True)
    crs = rqc.Crs(model)
    crs.create_xml()
    aoi = rql.Polyline(model, set_coord = np.concatenate((ring, np.zeros((len(ring), 1))), axis = 1), is_closed = True, set_crs = crs.uuid, title = 'aoi')
    assert aoi.is_clockwise()
    if not spec.get('_known') and not all(aoi.point_is_inside_xy(np.array(tri.ccc(*(p[i] for i in x)))) for x in tt):
        # known finding: cells can be wrong where the circumcentre of some triangle is outwith the area of interest
        ctx.label('circumcentre outwith aoi: not judged')
        return
    cc, v = tri.voronoi(p, tt, b, aoi)
    eq(len(v), len(p), 'number of cells')
    for x in v:
        ok(all(0 <= i < len(cc) for i in x), 'cell node index out of range')
        ok(len(x) >= 3 and len(set(x)) == len(x), 'cell nodes', x)
    # clip: all locations within the aoi
    r = np.random.default_rng(spec['seed'] + 3)
    s = ring.min(axis = 0) + r.random((150, 2)) * (ring.max(axis = 0) - ring.min(axis = 0))
    s = np.concatenate((s, lo - 0.3 * w + r.random((150, 2)) * 1.6 * w))
    size = float(w.max())

    def inside(x, poly):
        """Signed clearance of x within a convex clockwise polygon, or by crossing number with clearance."""
        d = np.inf
        odd = False
        for a, e in zip(poly, np.roll(poly, -1, axis = 0)):
            l2 = float((e - a) @ (e - a))
            u = 0.0 if l2 == 0 else min(1.0, max(0.0, float((x - a) @ (e - a)) / l2))
            d = min(d, float(np.linalg.norm(x - a - u * (e - a))))
            if (a[1] > x[1]) != (e[1] > x[1]) and x[0] < a[0] + (x[1] - a[1]) * (e[0] - a[0]) / (e[1] - a[1]):
                odd = not odd
        return d if odd else -d

    polys = [cc[np.array(x)] for x in v]
    n = 0
    for x in s:
        if inside(x, ring) < 1e-6 * size:
            continue
        d = np.sqrt(((p - x)**2).sum(axis = 1))
        o = np.argsort(d)
        if d[o[1]] - d[o[0]] < 1e-6 * size:
            continue
        n += 1
        for i in range(len(p)):
            g = inside(x, polys[i])
            if abs(g) < 1e-7 * size:
                continue
            ok((g > 0) == (i == o[0]), f'location {x.tolist()} nearest seed {o[0]} {"is" if g > 0 else "is not"} in the cell of seed {i}')
    ctx.nontrivial(n > 20 and len(p) > 3)
    ctx.label(kind)


@st.composite
def polygon_sets(draw):
    return dict(seed = draw(seeds), n = draw(st.integers(1, 4)), nodes = [draw(st.integers(3, 7)) for _ in range(4)], dim = draw(st.sampled_from([2, 3])),
                centres = draw(st.booleans()), cw = draw(st.booleans()), count = draw(st.integers(3, 20)), factor = draw(fl(1.5, 20, 1)),
                dist = draw(st.none() | st.sampled_from([1.0, 500.0, 5000.0])), inner = draw(st.booleans()), saucer = draw(st.none() | fl(-80, 80, 1)))


@check('fans_and_rings', polygon_sets(), quick = 300, thorough = 6000)
def fans_and_rings(spec, ctx):
    """Fan triangulation of convex polygons about their centres, and rings of points surrounding a point set."""
    r = np.random.default_rng(spec['seed'])
    pts, v = [], []
    for k in range(spec['n']):
        m = spec['nodes'][k]
        a = np.sort((np.arange(m) + 0.6 * r.random(m)) * 2 * math.pi / m)
        if spec['cw']:
            a = a[::-1]
        v.append([len(pts) + i for i in range(m)])
        for x in a:
            pts.append([10 * k + 3 * math.cos(x), 3 * math.sin(x), r.random()][:spec['dim']])
    p = np.array(pts)
    cen = np.array([p[x].mean(axis = 0) for x in v]) if spec['centres'] else None
    P, T = tri.triangulated_polygons(p, v, centres = cen)
    eq(P.shape, (len(p) + len(v), spec['dim']), 'points shape')
    arr_eq(P[:len(p)], p, 'points')
    if cen is not None:
        arr_eq(P[len(p):], cen, 'centres')
    want = [[len(p) + k, x[i], x[(i + 1) % len(x)]] for k, x in enumerate(v) for i in range(len(x))]
    eq(T.tolist(), want, 'triangles')
    for k, x in enumerate(v):
        tk = np.array([w for w in want if w[0] == len(p) + k])
        s = area2(P[tk[:, 0]], P[tk[:, 1]], P[tk[:, 2]])
        ok(np.all(s < 0) if spec['cw'] else np.all(s > 0), 'centre is not within the polygon, or order is changed')
        full = sum(float(area2(p[x[0]], p[x[i]], p[x[i + 1]])) for i in range(1, len(x) - 1))
        close(float(s.sum()), full, 1e-9, 'area', rel = 1e-9)
    q = np.concatenate((p, np.zeros((len(p), 3 - spec['dim']))), axis = 1) if spec['dim'] == 2 else p
    kw = dict(count = spec['count'], radial_factor = spec['factor'], radial_distance = spec['dist'], inner_ring = spec['inner'], saucer_angle = spec['saucer'])
    ring = tri.surrounding_xy_ring(q, **kw)
    eq(ring.shape, (spec['count'] * (3 if spec['inner'] else 1), 3), 'ring shape')
    c = q.mean(axis = 0)
    dist = np.linalg.norm(ring[:, :2] - c[:2], axis = 1)
    reach = float(np.linalg.norm(q[:, :2] - c[:2], axis = 1).max())
    ok(np.all(dist > reach), 'ring does not surround the points')
    outer = dist[-spec['count']:]
    close(float(outer.max()), float(outer.min()), 1e-6, 'ring is not circular')
    if spec['dist'] is not None:
        ok(outer.min() >= spec['dist'] - 1e-6, 'radial distance not honoured')
    tan = 0.0 if spec['saucer'] is None else math.tan(math.radians(spec['saucer']))
    arr_close(ring[:, 2], c[2] - dist * tan, 1e-6, 'ring depth', rel = 1e-6)
    for part in ([ring[:2 * spec['count']]] if spec['inner'] else []) + [ring[-spec['count']:]]:
        ang = np.sort(np.arctan2(part[:, 1] - c[1], part[:, 0] - c[0]))
        gaps = np.diff(np.concatenate((ang, ang[:1] + 2 * math.pi)))
        arr_close(gaps, np.full(len(part), 2 * math.pi / len(part)), 1e-6, 'ring points are not evenly spread')
    ctx.nontrivial()
    ctx.label('inner ring' if spec['inner'] else 'ring', 'centres given' if spec['centres'] else 'balanced centres')
