"""B04: coordinates recomputed from the compass directions, offsets, rotation and units of each crs."""
import math
import numpy as np
from pbt.core import check, st, ok, eq, arr_eq, arr_close, close, fail, refuses
from pbt.lib.gen import seeds, fl, opt
import resqpy.crs as rqc
import resqpy.model as rq
import resqpy.olio.uuid as bu

UNIT = {'m': 1.0, 'ft': 0.3048, 'ft[US]': 1200 / 3937, 'km': 1000.0, 'cm': 0.01, 'in': 0.0254}
TUNIT = {'s': 1.0, 'ms': 1e-3, 'min': 60.0, 'us': 1e-6}
RUNIT = {'dega': math.pi / 180, 'rad': 1.0, 'gon': math.pi / 200, 'mrad': 1e-3}
ORDERS = ("easting northing", "northing easting", "westing southing", "southing westing", "northing westing", "westing northing")
DIR = {'easting': (1, 0), 'westing': (-1, 0), 'northing': (0, 1), 'southing': (0, -1)}
HEADROOM = 1e-9


@st.composite
def crs_specs(draw, time = None, simple = False):
    ru = draw(st.sampled_from(['dega', 'dega', 'rad', 'gon', 'mrad']))
    deg = draw(st.sampled_from([0.0, 0.0, 90.0, 360.0, 30.0, -45.0, 180.0]) | fl(-360, 360, 1))
    rot = round(deg * math.pi / 180 / RUNIT[ru], 6)
    off = (st.just(0.0) | fl(-5000, 5000, 3)) if not draw(st.booleans()) else st.just(0.0)
    t = draw(st.sampled_from([None, None, 's', 'ms', 'min', 'us'])) if time is None else (draw(st.sampled_from(list(TUNIT))) if time else None)
    return dict(x = draw(off), y = draw(off), z = draw(off), rot = rot, ru = ru, xy = draw(st.sampled_from(['m', 'm', 'ft'] + list(UNIT))),
                zu = draw(st.sampled_from(['m', 'm', 'ft'] + list(UNIT))), down = draw(st.booleans()), order = draw(st.sampled_from(ORDERS)), t = t,
                epsg = draw(st.sampled_from([None, None, '23031', '4326'])), title = draw(st.sampled_from(['crs', 'another crs', 'é <&> "x"'])),
                em = draw(st.sampled_from([None, None, {}, {'a': 'b'}, {'a': 'c', 'k 2': 'v&'}])))


def make(model, s, **kw):
    return rqc.Crs(model, x_offset = s['x'], y_offset = s['y'], z_offset = s['z'], rotation = s['rot'], rotation_units = s['ru'], xy_units = s['xy'],
                   z_units = s['zu'], z_inc_down = s['down'], axis_order = s['order'], time_units = s['t'], epsg_code = s['epsg'], title = s['title'],
                   extra_metadata = s['em'], **kw)


def directions(order):
    a, b = order.split()
    return np.array([DIR[a], DIR[b]], dtype = float)  # rows: east, north components of the axes


def ref_global_to_local(s, p, down = True, order = 'easting northing'):
    """p: (N, 3) in parent crs; values in units of the crs."""
    p = np.array(p, dtype = float).reshape(-1, 3)
    en = p[:, :2] @ directions(order)  # east, north
    d = directions(s['order'])
    unrot = en @ d.T - np.array([s['x'], s['y']])  # in local (unrotated) axes, local origin
    back = unrot @ d  # east, north relative to the local origin
    a = s['rot'] * RUNIT[s['ru']]
    c, n = math.cos(a), math.sin(a)
    # each axis turned clockwise (seen from above): direction (e, n) -> (e cos + n sin, n cos - e sin)
    dr = np.stack((d[:, 0] * c + d[:, 1] * n, d[:, 1] * c - d[:, 0] * n), axis = 1)
    xy = back @ dr.T
    z = p[:, 2] * (1.0 if bool(down) == bool(s['down']) else -1.0) - s['z']
    return np.concatenate((xy, z[:, None]), axis = 1)


def ref_local_to_global(s, p, down = True, order = 'easting northing'):
    p = np.array(p, dtype = float).reshape(-1, 3)
    d = directions(s['order'])
    a = s['rot'] * RUNIT[s['ru']]
    c, n = math.cos(a), math.sin(a)
    dr = np.stack((d[:, 0] * c + d[:, 1] * n, d[:, 1] * c - d[:, 0] * n), axis = 1)
    en = p[:, :2] @ dr + np.array([s['x'], s['y']]) @ d
    g = en @ directions(order).T
    z = (p[:, 2] + s['z']) * (1.0 if bool(down) == bool(s['down']) else -1.0)
    return np.concatenate((g, z[:, None]), axis = 1)


def ref_convert(a, b, p):
    g = ref_local_to_global(a, p)
    g[:, :2] *= UNIT[a['xy']] / UNIT[b['xy']]
    g[:, 2] *= (TUNIT[a['t']] / TUNIT[b['t']]) if a['t'] else UNIT[a['zu']] / UNIT[b['zu']]
    return ref_global_to_local(b, g)


def points(seed, shape):
    return np.random.default_rng(seed).uniform(-1000, 1000, tuple(shape) + (3,))


@st.composite
def one_cases(draw):
    return dict(crs = draw(crs_specs()), seed = draw(seeds), shape = draw(st.lists(st.integers(1, 4), min_size = 1, max_size = 4)), down = draw(st.booleans()),
                order = draw(st.sampled_from(ORDERS)), defaults = draw(st.booleans()))


@check('parent', one_cases(), quick = 1500, thorough = 30000, shards = 2,
       rule = 'a crs with any offsets, rotation, axis order, units and z direction against a parent of any axis order and z direction; '
       'non-trivial when the transform is not the identity')
def parent(spec, ctx):
    s = spec['crs']
    crs = make(rq.Model(), s)
    kw = {} if spec['defaults'] else dict(global_z_inc_down = spec['down'], global_axis_order = spec['order'])
    rk = {} if spec['defaults'] else dict(down = spec['down'], order = spec['order'])
    p = points(spec['seed'], spec['shape'])
    flat = p.reshape(-1, 3)
    want = ref_global_to_local(s, flat, **rk)
    a = p.copy()
    crs.global_to_local_array(a, **kw)
    arr_close(a.reshape(-1, 3), want, 1e-4, 'global_to_local_array')
    for n in range(min(3, len(flat))):
        q = crs.global_to_local(tuple(flat[n]) if n else flat[n].copy(), **kw)
        eq(len(q), 3)
        arr_close(q, want[n], 1e-4, 'global_to_local')
        r = crs.local_to_global(q, **kw)
        arr_close(r, flat[n], 1e-6, 'local_to_global after global_to_local')
    crs.local_to_global_array(a, **kw)
    arr_close(a, p, 1e-6, 'local_to_global_array after global_to_local_array')
    want = ref_local_to_global(s, flat, **rk)
    a = p.copy()
    crs.local_to_global_array(a, **kw)
    arr_close(a.reshape(-1, 3), want, 1e-4, 'local_to_global_array')
    arr_close(crs.local_to_global(flat[0].copy(), **kw), want[0], 1e-4, 'local_to_global')
    crs.global_to_local_array(a, **kw)
    arr_close(a, p, 1e-6, 'global_to_local_array after local_to_global_array')
    # handedness: x, y axes seen from above
    d = directions(s['order'])
    clockwise = (d[0, 0] * d[1, 1] - d[0, 1] * d[1, 0]) < 0
    eq(bool(crs.is_right_handed_xy()), bool(clockwise), 'is_right_handed_xy')
    eq(bool(crs.is_right_handed_xyz()), bool(clockwise == bool(s['down'])), 'is_right_handed_xyz')
    eq(crs.resqml_type, 'LocalTime3dCrs' if s['t'] else 'LocalDepth3dCrs')
    # axis switching on its own
    for o1, o2 in ((s['order'], spec['order']), (spec['order'], s['order'])):
        en = flat[:, :2] @ directions(o1) @ directions(o2).T
        arr_close(rqc.switch_axes(o1, o2, flat[0, 0], flat[0, 1]), en[0], 1e-9, f'switch_axes {o1} to {o2}')
        a = p.copy()
        rqc.switch_axes_array(o1, o2, a)
        arr_close(a.reshape(-1, 3)[:, :2], en, 1e-9, f'switch_axes_array {o1} to {o2}')
        arr_eq(a[..., 2], p[..., 2])
    null = s['x'] == s['y'] == s['z'] == 0.0 and abs(s['rot'] * RUNIT[s['ru']]) < 1e-9
    ctx.label('rotated' if crs.rotated else 'not rotated')
    ctx.nontrivial(not null or s['order'] != 'easting northing' or not s['down'])


@st.composite
def two_cases(draw):
    t = draw(st.sampled_from([False, False, True]))
    a, b = draw(crs_specs(time = t)), draw(crs_specs(time = t))
    if draw(st.integers(0, 3)) == 0:
        keep = draw(st.sampled_from(['xy', 'zu', 'down', 'order', 'x', 'rot', 'epsg', 'title']))
        b = dict(a, **{k: v for k, v in b.items() if k == keep or (keep == 'rot' and k == 'ru')})
    return dict(a = a, b = b, seed = draw(seeds), shape = draw(st.lists(st.integers(1, 4), min_size = 1, max_size = 3)))


@check('pair', two_cases(), quick = 1500, thorough = 30000, shards = 2,
       rule = 'conversion between two crs objects by all four methods; non-trivial when the transform moves the points')
def pair(spec, ctx):
    a, b = spec['a'], spec['b']
    m = rq.Model()
    ca, cb = make(m, a), make(m, b)
    p = points(spec['seed'], spec['shape'])
    flat = p.reshape(-1, 3)
    want = ref_convert(a, b, flat)
    size = max(1.0, np.abs(want).max())
    tol = 1e-8 * size + 1e-6 * max(UNIT[a['xy']] / UNIT[b['xy']], UNIT[a['zu']] / UNIT[b['zu']], 1)
    if a['t']:
        tol += 1e-6 * TUNIT[a['t']] / TUNIT[b['t']]
    tol += 1e-4 * max(UNIT[a['xy']] / UNIT[b['xy']], 1)  # nearly null rotations are ignored
    if same(a, b) is not False:
        tol += 0.2  # equivalent to tolerance: arrays are not converted
    arr_close(ca.convert_to(cb, tuple(flat[0])), want[0], tol, 'convert_to')
    arr_close(cb.convert_from(ca, tuple(flat[0])), want[0], tol, 'convert_from')
    for name, fn in (('convert_array_to', lambda x: ca.convert_array_to(cb, x)), ('convert_array_from', lambda x: cb.convert_array_from(ca, x))):
        x = p.copy()
        r = fn(x)
        arr_close(np.asarray(r).reshape(-1, 3), want, tol, name)
        arr_close(x.reshape(-1, 3), want, tol, name + ' (in situ)')
    x = want.reshape(p.shape).copy()
    cb.convert_array_to(ca, x)
    back = 1e-8 * 1e4 + 1e-9 * size * max(UNIT[b['xy']] / UNIT[a['xy']], UNIT[b['zu']] / UNIT[a['zu']], (TUNIT[b['t']] / TUNIT[a['t']]) if a['t'] else 1)
    arr_close(x, p, back + (0.2 if same(a, b) is not False else 0), 'conversion there and back')
    arr_close(ca.convert_to(ca, tuple(flat[0])), flat[0], 0.0, 'conversion to itself')
    x = p.copy()
    ca.convert_array_to(ca, x)
    arr_eq(x, p, 'array conversion to itself')
    if not a['t']:
        c = make(m, dict(b, t = 's'))
        with refuses('conversion between depth and time'):
            ca.convert_to(c, tuple(flat[0]))
        with refuses('array conversion between depth and time'):
            ca.convert_array_to(c, p.copy())
    ctx.label('time' if a['t'] else 'depth', 'mixed units' if a['xy'] != a['zu'] or b['xy'] != b['zu'] else 'same units')
    ctx.nontrivial(np.abs(want - flat).max() > 1e-3)


def same(a, b):
    """The documented equivalence of two parameter sets."""
    if a['t'] != b['t'] or a['xy'] != b['xy'] or a['zu'] != b['zu'] or a['down'] != b['down'] or a['order'] != b['order']:
        return False
    if a['epsg'] and b['epsg'] and a['epsg'] != b['epsg']:
        return False
    if (a['em'] or {}) != (b['em'] or {}):
        return False

    def null(s):
        r = math.degrees(s['rot'] * RUNIT[s['ru']])
        return s['x'] == s['y'] == s['z'] == 0.0 and min(abs(r), abs(r - 360)) < 1e-8

    if null(a) and null(b):
        return True
    d = [abs(a[k] - b[k]) for k in 'xyz'] + [abs(a['rot'] - b['rot'] * RUNIT[b['ru']] / RUNIT[a['ru']])]
    if max(d) < 0.9e-4:
        return True
    if any(v > 2e-4 for v in d):
        if abs(a['rot'] * RUNIT[a['ru']] - b['rot'] * RUNIT[b['ru']]) > 6.2:  # whole turns: either answer is tolerable
            return None
        return False
    return None


@st.composite
def store_cases(draw):
    base = draw(crs_specs())
    specs = [base]
    for _ in range(draw(st.integers(1, 4))):
        s = dict(draw(st.sampled_from(specs)))
        other = draw(crs_specs())
        for k in draw(st.lists(st.sampled_from(sorted(s)), max_size = 2)):
            s[k] = other[k]
            if k in ('rot', 'ru'):
                s['rot'], s['ru'] = other['rot'], other['ru']
        specs.append(s)
    return dict(specs = specs, reuse = draw(st.booleans()), late = draw(st.booleans()))


@check('store', store_cases(), quick = 220, thorough = 4000, shards = 3,
       rule = 'several crs objects differing in few or no parameters, stored, reopened and compared; non-trivial when two of them differ')
def store(spec, ctx):
    m = ctx.new_model()
    specs, made = spec['specs'], []
    for s in specs:
        c = make(m, s)
        if spec['late']:
            c.create_xml(reuse = spec['reuse'], title = s['title'], originator = 'orig')
        else:
            c.create_xml(reuse = spec['reuse'])
        made.append(c)
    for i, a in enumerate(specs):
        for j, b in enumerate(specs[:i]):
            want = same(a, b)
            if want is not None:
                same_uuid = bu.matching_uuids(made[i].uuid, made[j].uuid)
                if not same_uuid:
                    eq(bool(made[i].is_equivalent(made[j])), want, f'is_equivalent {a} {b}')
                    eq(bool(made[j].is_equivalent(made[i])), want, f'is_equivalent {b} {a}')
                    eq(made[i] == made[j], want, 'equality operator')
                    eq(made[i] != made[j], not want, 'inequality operator')
                    if spec['reuse']:
                        ok(not want, 'an equivalent crs was not reused', a, b)
                elif spec['reuse']:
                    ok(want or any(same(a, o) is not False for o in specs[:i]), 'a crs which differs was reused', a, b)
                    ctx.label('reused')
        ok(not made[i].is_equivalent(None))
    eq(len(m.uuids(obj_type = 'LocalDepth3dCrs')) + len(m.uuids(obj_type = 'LocalTime3dCrs')), len({str(c.uuid) for c in made}), 'number of crs parts')
    ok(bu.matching_uuids(m.crs_uuid, made[0].uuid), 'first crs is not the main crs of the model')
    m2 = ctx.reopen(m)
    for n, (c, s) in enumerate(zip(made, specs)):
        d = rqc.Crs(m2, uuid = c.uuid)
        if str(c.uuid) in {str(o.uuid) for o in made[:n]}:
            continue
        eq((d.xy_units, d.z_units, d.time_units, d.rotation_units, d.axis_order, bool(d.z_inc_down)),
           (s['xy'], s['zu'], s['t'], s['ru'], s['order'], s['down']), 'reloaded crs')
        close(d.x_offset, s['x'], 0.5e-3, 'x offset')
        close(d.y_offset, s['y'], 0.5e-3, 'y offset')
        close(d.z_offset, s['z'], 0.5e-4, 'z offset')
        close(d.rotation, s['rot'], 0.6e-6, 'rotation')
        eq(d.epsg_code, s['epsg'], 'epsg code')
        eq(d.title, s['title'], 'title')
        eq(d.extra_metadata or {}, s['em'] or {}, 'extra metadata')
        if spec['late']:
            eq(d.originator, 'orig', 'originator')
        eq(d.resqml_type, c.resqml_type)
        ok(d.is_equivalent(make(m2, s)) and make(m2, s) == d, 'reloaded crs is not equivalent to the original')
        p = points(3, (4,))
        want = ref_global_to_local(s, p)
        d.global_to_local_array(p)
        arr_close(p, want, 0.05 if abs(s['rot']) > 0 else 1e-2, 'conversion by reloaded crs')
    ctx.nontrivial(any(same(a, b) is False for a in specs for b in specs))
