"""Generated lines, polylines and triangles on an exact lattice, compared with exact rational arithmetic; metamorphic relations between forms.

Coordinates are integers scaled by a power of two, so that the oracle (python Fractions) sees exactly the numbers given to the code.
Pairs where the line meets the boundary of a triangle, or a segment ends on its plane, are not in general position and are not judged;
parallel pairs are judged (no intersection is to be reported).
"""
from fractions import Fraction as F
import numpy as np
from pbt.core import check, st, ok, eq, close, arr_close, arr_eq, fail, raises
from pbt.lib.gen import seeds
import resqpy.model as rq
import resqpy.olio.intersection as inter

SC = [1.0, 0.125, 64.0]


@st.composite
def scenes(draw):
    return dict(seed = draw(seeds), nt = draw(st.integers(1, 7)), nl = draw(st.integers(1, 5)), span = draw(st.sampled_from([3, 6, 20, 300])),
                sc = draw(st.integers(0, 2)), off = [draw(st.sampled_from([0, 0, -64, 4096])) for _ in range(3)],
                kind = draw(st.sampled_from(['any', 'aimed', 'aimed', 'axis', 'common'])), degenerate = draw(st.integers(0, 9)) == 0,
                start = draw(st.integers(0, 3)))


def build(spec):
    r = np.random.default_rng(spec['seed'])
    s = spec['span']
    t = r.integers(-s, s + 1, (spec['nt'], 3, 3))
    if spec['degenerate']:
        t[0, 2] = 2 * t[0, 1] - t[0, 0]
    p = r.integers(-s, s + 1, (spec['nl'] + 1, 3))
    v = r.integers(-s, s + 1, (spec['nl'], 3))
    for k in range(spec['nl']):
        if not np.any(v[k]):
            v[k, 0] = 1
        if spec['kind'] == 'axis':
            v[k] = 0
            v[k, r.integers(0, 3)] = r.choice([-3, 1, s])
        elif spec['kind'] == 'aimed':
            # towards (about) a point inside one of the triangles
            c = t[r.integers(0, spec['nt'])]
            w = r.dirichlet((1, 1, 1))
            v[k] = np.round(w @ c).astype(int) - p[k]
            v[k] = v[k] * int(r.choice([1, 2, -1])) + r.integers(-1, 2, 3)
            if not np.any(v[k]):
                v[k, 2] = 1
    if spec['kind'] == 'common':
        v[:] = v[0]
    k = SC[spec['sc']]
    o = np.array(spec['off'])
    return (t + o) * k, (p + o) * k, v * k


def exact(p, v, tri):
    """(t, u, v) as Fractions for line p + t v against tri; None if parallel."""
    f = [[F(float(x)) for x in row] for row in (p, v, *tri)]
    p, v, a, b, c = f
    e1 = [b[i] - a[i] for i in range(3)]
    e2 = [c[i] - a[i] for i in range(3)]
    cr = lambda x, y: [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    dot = lambda x, y: sum(x[i] * y[i] for i in range(3))
    n = cr(e1, e2)
    d = -dot(v, n)
    if d == 0:
        return None
    w = [p[i] - a[i] for i in range(3)]
    rv = [-x for x in v]
    return dot(n, w) / d, dot(cr(e2, rv), w) / d, dot(cr(rv, e1), w) / d


M = F(1, 10**9)


def judge(e, segment, l_tol = 0, t_tol = 0):
    """True: intersection; False: none; None: too close to a boundary to be judged."""
    if e is None:
        return False
    t, u, v = e
    lt, tt = F(l_tol), F(t_tol)
    margins = [u + tt, v + tt, 1 + tt - u - v]
    if segment:
        margins += [t + lt, 1 + lt - t]
    if any(m < -M for m in margins):
        return False
    return True if all(m > M for m in margins) else None


def point(p, v, e):
    return np.array([float(F(float(p[i])) + e[0] * F(float(v[i]))) for i in range(3)])


def match(got, want, where, msg, scale):
    """got: point, NaNs or None; want: True/False/None."""
    if want is None:
        return
    none = got is None or bool(np.any(np.isnan(got)))
    if want:
        ok(not none, msg + ': intersection missed', where)
        arr_close(got, where, 1e-9 * scale, msg + ': wrong point')
    else:
        ok(none, msg + ': intersection reported where there is none', got)


@check('line_triangles', scenes(), quick = 2000, thorough = 60000, shards = 4)
def line_triangles(spec, ctx):
    """Every line/triangle pair of a scene through the single, compiled, many-triangle, many-line and listing forms, for unbounded lines and
    segments; at least one pair intersects and one does not."""
    tris, ps, vs = build(spec)
    ps0 = ps[:-1]
    scale = max(1.0, float(np.abs(tris).max()), float(np.abs(ps).max()))
    backup = tris.copy(), ps0.copy(), vs.copy()
    ex = [[exact(ps0[k], vs[k], t) for t in tris] for k in range(len(vs))]
    for seg in (False, True):
        want = [[judge(e, seg) for e in row] for row in ex]
        many = inter.line_set_triangles_intersects(ps0, vs, tris, line_segment = seg)
        eq(many.shape, (len(vs), len(tris), 3), 'line set shape')
        if spec['kind'] == 'common':
            arr_eq(inter.line_set_triangles_intersects(ps0, vs[0], tris, line_segment = seg), many, 'common direction vector form')
        for k in range(len(vs)):
            one = inter.line_triangles_intersects(ps0[k], vs[k], tris, line_segment = seg)
            eq(one.shape, tris.shape[:1] + (3,), 'line triangles shape')
            eq(sorted(inter.intersects_indices(one)), [i for i in range(len(tris)) if not np.isnan(one[i, 0])], 'intersects_indices')
            for i in range(len(tris)):
                e, w = ex[k][i], want[k][i]
                where = None if e is None else point(ps0[k], vs[k], e)
                if w is not None and e is not None:
                    ctx.label('hit' if w else 'miss', 'segment' if seg else 'line')
                    ctx.nontrivial(w)
                a = inter.line_triangle_intersect(ps0[k], vs[k], tris[i], line_segment = seg)
                match(a, w, where, 'line_triangle_intersect', scale)
                b = inter.line_triangle_intersect_numba(ps0[k], vs[k], tris[i], line_segment = seg)
                match(b, w, where, 'line_triangle_intersect_numba', scale)
                match(one[i], w, where, 'line_triangles_intersects', scale)
                match(many[k, i], w, where, 'line_set_triangles_intersects', scale)
                if not seg:
                    pl = inter.line_plane_intersect(ps0[k], vs[k], tris[i])
                    if e is None:
                        ok(pl is None, 'line_plane_intersect: parallel')
                        ctx.label('parallel')
                    else:
                        ok(pl is not None, 'line_plane_intersect: missed')
                        # the relative size of the error grows with the distance along the line
                        arr_close(pl, where, 1e-9 * (scale + float(np.abs(where).max())), 'line_plane_intersect')
        # listing forms agree with the full array
        hit = ~np.isnan(many[:, :, 0])
        ls, ts, xyz = inter.distilled_intersects(many)
        pairs = list(zip(np.asarray(ls).tolist(), np.asarray(ts).tolist()))
        eq(sorted(pairs), [(int(a), int(b)) for a, b in np.argwhere(hit)], 'distilled pairs')
        for (a, b), x in zip(pairs, xyz):
            arr_eq(x, many[a, b], 'distilled point')
        last = inter.last_intersects(many)
        for k in range(len(vs)):
            w = np.where(hit[k])[0]
            arr_eq(last[k], many[k, w[-1]] if len(w) else np.full(3, np.nan), 'last_intersects')
            ti, tp = inter.triangles_for_line(many, k)
            arr_eq(np.asarray(ti), w, 'triangles_for_line')
            arr_eq(tp, many[k, w], 'triangles_for_line points')
        for i in range(len(tris)):
            w = np.where(hit[:, i])[0]
            li, lp = inter.lines_for_triangle(many, i)
            arr_eq(np.asarray(li), w, 'lines_for_triangle')
            arr_eq(lp, many[w, i], 'lines_for_triangle points')
    arr_eq(tris, backup[0], 'triangles argument modified')
    arr_eq(ps0, backup[1], 'points argument modified')
    arr_eq(vs, backup[2], 'vectors argument modified')


@st.composite
def tol_specs(draw):
    d = draw(scenes())
    d['l_tol'] = draw(st.sampled_from([0.0, 0.001, 0.25, 1.0]))
    d['t_tol'] = draw(st.sampled_from([0.0, 0.001, 0.125, 0.5]))
    d['seg'] = draw(st.booleans())
    return d


@check('tolerances', tol_specs(), quick = 1000, thorough = 30000, shards = 1)
def tolerances(spec, ctx):
    """l_tol and t_tol extend a segment and a triangle by the stated fractions, alike in the plain and compiled forms."""
    tris, ps, vs = build(spec)
    scale = max(1.0, float(np.abs(tris).max()), float(np.abs(ps).max()))
    for k in range(len(vs)):
        for i in range(len(tris)):
            e = exact(ps[k], vs[k], tris[i])
            # documented extension: a fraction of the line length, a fraction of the triangle size; a triangle is certainly extended by no
            # more than the fraction measured in its own edge coordinates
            a = inter.line_triangle_intersect(ps[k], vs[k], tris[i], spec['seg'], spec['l_tol'], spec['t_tol'])
            b = inter.line_triangle_intersect_numba(ps[k], vs[k], tris[i], spec['seg'], spec['l_tol'], spec['t_tol'])
            w = judge(e, spec['seg'], spec['l_tol'], spec['t_tol'])
            w0 = judge(e, spec['seg'], spec['l_tol'], 0)
            where = None if e is None else point(ps[k], vs[k], e)
            if w is False or w0 is True:
                for x, n in ((a, 'plain'), (b, 'compiled')):
                    match(x, w, where, f'tolerance {n}', scale)
                if w and judge(e, spec['seg']) is False:
                    ctx.label('found thanks to the line tolerance')
                    ctx.nontrivial()
            elif w is True and max(e[1], e[2]) <= 1 + F(spec['t_tol']) - M:
                # in the rim whichever way the extended triangle's sharp corners are treated
                match(a, True, where, 'tolerance rim', scale)
                match(b, True, where, 'tolerance rim compiled', scale)
                ctx.label('found in the rim')
                ctx.nontrivial()


@check('polyline', scenes(), quick = 1500, thorough = 40000, shards = 2)
def polyline(spec, ctx):
    """Open polylines against triangles: segment by triangle array, and the first crossed segment from any starting point; some segment is crossed."""
    tris, ps, vs = build(spec)
    if spec['kind'] in ('aimed', 'axis'):
        # each segment is aimed through about the middle of some triangle, where not left as a random one
        k = SC[spec['sc']]
        r = np.random.default_rng(spec['seed'] + 1)
        for j in range(1, len(ps)):
            if r.random() < 0.6:
                m = np.round(tris[r.integers(0, len(tris))].mean(axis = 0) / k) * k
                ps[j] = ps[j - 1] + (m - ps[j - 1]) * r.choice([1, 2, 2])
            if not np.any(ps[j] != ps[j - 1]):
                ps[j, 0] += k
    c = len(ps) - 1
    scale = max(1.0, float(np.abs(tris).max()), float(np.abs(ps).max()))
    arr = inter.poly_line_triangles_intersects(ps, tris)
    eq(arr.shape, (c, len(tris), 3), 'shape')
    want = []
    for k in range(c):
        row = []
        for i in range(len(tris)):
            e = exact(ps[k], ps[k + 1] - ps[k], tris[i]) if np.any(ps[k + 1] != ps[k]) else None
            w = judge(e, True)
            row.append((w, None if e is None else point(ps[k], ps[k + 1] - ps[k], e)))
            match(arr[k, i], w, row[-1][1], 'poly_line_triangles_intersects', scale)
        want.append(row)
    if any(w is None for row in want for w, _ in row):
        ctx.label('boundary')
        return
    start = min(spec['start'], c)
    seg, xyz = inter.poly_line_triangles_first_intersect(ps, tris, start = start)
    hits = [k for k in range(start, c) if any(w for w, _ in want[k])]
    if not hits:
        ok(seg is None and xyz is None, 'first intersect reported where there is none', seg, xyz)
        ctx.label('none')
        return
    eq(seg, hits[0], 'first crossed segment')
    ok(any(w and np.allclose(xyz, x, rtol = 0, atol = 1e-9 * scale) for w, x in want[seg]), 'first intersection point is not one of those of the segment', xyz)
    ctx.label('crossed')
    if hits[0] > start:
        ctx.label('first segments not crossed')
    ctx.nontrivial()


@st.composite
def crossings(draw):
    s = draw(st.sampled_from([3, 5, 50, 1000]))
    c = st.integers(-s, s)
    return dict(p = [[draw(c), draw(c)] for _ in range(4)], sc = draw(st.integers(0, 2)), q = [draw(c), draw(c)], z = draw(c))


@check('two_dimensions', crossings(), quick = 5000, thorough = 150000, shards = 2)
def two_dimensions(spec, ctx):
    """Crossing of 2D lines (unbounded, segments including their ends, half bounded), projection and snapping; lines neither parallel nor touching
    only by chance count as non-trivial when the segments cross."""
    k = SC[spec['sc']]
    P = [[F(x) * F(k) for x in p] for p in spec['p']]
    f = [[float(x) for x in p] for p in P]
    (x1, y1), (x2, y2), (x3, y3), (x4, y4) = P
    args = [c for p in f for c in p]
    div = (x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4)
    scale = max(1.0, max(abs(a) for a in args))
    if div == 0:
        for seg in (False, True):
            r = inter.line_line_intersect(*args, line_segment = seg)
            ok(r[0] is None and r[1] is None, 'parallel lines', r)
        ctx.label('parallel')
    else:
        t = ((x1 - x3) * (y3 - y4) - (y1 - y3) * (x3 - x4)) / div
        u = -((x1 - x2) * (y1 - y3) - (y1 - y2) * (x1 - x3)) / div
        X = (float(x1 + t * (x2 - x1)), float(y1 + t * (y2 - y1)))
        size = scale + max(abs(X[0]), abs(X[1]))
        for seg, half in ((False, False), (False, True), (True, False), (True, True)):
            r = inter.line_line_intersect(*args, line_segment = seg, half_segment = half)
            want = (not seg) or (0 <= u <= 1 and 0 <= t and (half or t <= 1))
            if want:
                ok(r[0] is not None and r[1] is not None, 'crossing missed', seg, half, float(t), float(u))
                close(r[0], X[0], 1e-9 * size, 'x')
                close(r[1], X[1], 1e-9 * size, 'y')
                if seg:
                    ctx.nontrivial()
                    ctx.label('half bounded crossing' if half else 'segment crossing')
                    if t in (0, 1) or u in (0, 1):
                        ctx.label('at an end')
            else:
                ok(r[0] is None and r[1] is None, 'crossing reported where there is none', seg, half, float(t), float(u))
                ctx.label('no crossing')
    # projection and snapping
    if (x1, y1) != (x2, y2):
        q = [F(v) * F(k) for v in spec['q']]
        d = (x2 - x1, y2 - y1)
        a = ((q[0] - x1) * d[0] + (q[1] - y1) * d[1]) / (d[0]**2 + d[1]**2)
        for dim in (2, 3):
            ex = [] if dim == 2 else [float(spec['z'])]
            p, l1, l2 = (np.array([float(v) for v in w] + ex) for w in (q, P[0], P[1]))
            if dim == 3:
                l2[2] += 5.0
            g = inter.point_projected_to_line_2d(p, l1, l2)
            want = [float(x1 + a * d[0]), float(y1 + a * d[1])]
            ok(g[0] is not None, 'projection missing')
            arr_close(np.array(g[:2]), want, 1e-9 * (scale + max(map(abs, want))), 'projection')
            b = min(max(a, F(0)), F(1))
            want = [float(x1 + b * d[0]), float(y1 + b * d[1])]
            g = inter.point_snapped_to_line_segment_2d(p, l1, l2)
            ok(len(g) == 2 and g[0] is not None, 'snapped point missing', g)
            arr_close(np.array(g), want, 1e-9 * scale, 'snapped point')
            ctx.label('snapped to an end' if a != b else 'snapped within')
