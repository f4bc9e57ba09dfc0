"""property-based testing: generated surfaces, meshes, point sets, tri-meshes, polylines and sets stored, reopened and compared

Objects of each class are made from generated arrays (several patches, all mesh flavours, open and closed lines, several
coordinate reference systems, with and without extra metadata and a represented interpretation), stored, and instantiated from
the reopened file: points, topology, closed flags, crs, role, titles, metadata and interpretation are compared with what was given.
Conversions to another crs are compared point by point with the conversion of single points, before and after storage.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.lines as rql
import resqpy.surface as rqs
import resqpy.grid as grr
import resqpy.organize as rqo
import resqpy.property as rqp
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *

CRS = [
    {}, {'z_inc_down': False}, {'xy_units': 'ft', 'z_units': 'ft', 'x_offset': 100.0, 'y_offset': -20.0, 'z_offset': 5.0},
    {'x_offset': 50.0, 'rotation': 0.3}, {'rotation': -0.5, 'y_offset': 10.0, 'z_units': 'ft'}, {'axis_order': 'northing easting', 'z_inc_down': False}
]
coord = fl(-50.0, 50.0, 3)
point = st.tuples(coord, coord, coord)
meta = st.sampled_from([None, {'a': 'b'}, {'owner': 'somebody else', 'number': '12.5', 'x y': 'true'}])
common = dict(crs = st.integers(0, 5), to = st.integers(0, 5), meta = meta, title = st.sampled_from(['thing', 'a b c', 'x & <y>']), interp = st.sampled_from([None, None, 'horizon', 'fault', 'geobody boundary']),
              own_h5 = st.booleans())


def crs_pair(m, s):
    a = rqc.Crs(m, **CRS[s['crs']], title = 'A')
    a.create_xml()
    b = rqc.Crs(m, **CRS[s['to']], title = 'B')
    b.create_xml()
    return a, b


def moved(a, b, points):
    points = np.asarray(points, dtype = float)
    return np.array([a.convert_to(b, tuple(float(x) for x in p)) for p in points.reshape((-1, 3))]).reshape(points.shape)


def add_interp(obj, s):
    if s['interp']:
        obj.create_interpretation_and_feature(kind = s['interp'], name = 'thing of interest', is_normal = True)


def interp_of(obj):
    root = obj.rep_int_root if hasattr(obj, 'rep_int_root') else obj.represented_interpretation_root
    if root is None:
        return None
    return root.tag.split('}')[-1], root.attrib['uuid']


def same_basics(got, want, s, crs_uuid, m, title = None):
    eq(str(got.uuid), str(want.uuid), 'uuid')
    eq(got.title, s['title'] if title is None else title, 'title')
    wm = dict(s['meta'] or {})
    gm = {k: v for k, v in (got.extra_metadata or {}).items() if k in wm or k not in ('normal vector', 'is_convex', 'is_clockwise', 't side', 'z uom')}
    eq(gm, wm, 'extra metadata')
    eq(str(got.crs_uuid), str(crs_uuid), 'crs uuid')
    eq(interp_of(got), interp_of(want), 'represented interpretation')
    if s['interp']:
        ok(interp_of(got) is not None, 'interpretation lost')
        ok(m.part_for_uuid(interp_of(got)[1]) in m.parts(related_uuid = got.uuid), 'interpretation not related')
    ok(m.part_for_uuid(crs_uuid) in m.parts(related_uuid = got.uuid), 'crs not related')


def reopen(ctx, epc):
    m = ctx.open_model(epc)
    m.h5_set_default_override('dir')  # arrays are in more than one file
    return m


def store(obj, ctx, s, **kw):
    """Write the object, with arrays in the default file or one of its own; returns the reopened model."""
    m = obj.model
    if s['own_h5']:
        f = m.epc_file[:-4] + '_other.h5'
        ext = bu.new_uuid()
        m.h5_set_default_override('dir')
        m.create_hdf5_ext(uuid = ext, file_name = f)
        obj.write_hdf5(file_name = f, mode = 'w')
        obj.create_xml(ext_uuid = ext, **kw)
    else:
        obj.write_hdf5()
        obj.create_xml(**kw)
    m.store_epc()
    return reopen(ctx, m.epc_file)


@st.composite
def patches(draw):
    n = draw(st.integers(3, 7))
    p = draw(st.lists(point, min_size = n, max_size = n))
    t = draw(st.lists(st.lists(st.integers(0, n - 1), min_size = 3, max_size = 3, unique = True), min_size = 1, max_size = 6))
    return dict(p = p, t = t)


def check_surface(got, pats, what):
    eq(got.number_of_patches(), len(pats), f'{what}: number of patches')
    off = 0
    at, ap = [], []
    for i, (t, p) in enumerate(pats):
        gt, gp = got.triangles_and_points(patch = i)
        arr_eq(gt, t, f'{what}: triangles of patch {i}')
        arr_close(gp, p, 1e-6, f'{what}: points of patch {i}')
        eq(int(got.triangle_count(i)), len(t), f'{what}: triangles in patch {i}')
        eq(int(got.node_count(i)), len(p), f'{what}: nodes in patch {i}')
        at.append(np.asarray(t) + off)
        ap.append(p)
        off += len(p)
    gt, gp = got.triangles_and_points(copy = True)
    arr_eq(gt, np.concatenate(at), f'{what}: all triangles')
    arr_close(gp, np.concatenate(ap), 1e-6, f'{what}: all points')
    gt[:] = 0
    gp[:] = -1.0
    gt, gp = got.triangles_and_points()
    arr_eq(gt, np.concatenate(at), f'{what}: all triangles after changing a copy')
    arr_close(gp, np.concatenate(ap), 1e-6, f'{what}: all points after changing a copy')
    eq(int(got.triangle_count()), len(np.concatenate(at)), f'{what}: number of triangles')
    eq(int(got.node_count()), off, f'{what}: number of nodes')


@check('surface', st.fixed_dictionaries(dict(common, patches = st.lists(patches(), min_size = 1, max_size = 4), before = st.booleans(), role = st.sampled_from(['map', 'pick']), normal = st.booleans(), when = st.sampled_from(['made', 'stored']), look = st.booleans())),
       quick = 120, thorough = 1500, shards = 2, rule = 'more than one patch')
def surface(s, ctx):
    m = ctx.new_model('m')
    a, b = crs_pair(m, s)
    pats = [(np.array(x['t'], dtype = int), np.array(x['p'])) for x in s['patches']]
    surf = rqs.Surface(m, crs_uuid = a.uuid, title = s['title'], surface_role = s['role'], extra_metadata = s['meta'])
    if s['before']:
        # the surface held something else before
        surf.set_from_triangles_and_points(np.array([(0, 1, 2)]), np.array([(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)]))
        surf.triangles_and_points()
    if len(pats) == 1 and not s['before']:
        surf.set_from_triangles_and_points(*pats[0])
    else:
        surf.set_multi_patch_from_triangles_and_points(pats)
    check_surface(surf, pats, 'as made')
    add_interp(surf, s)
    v = surf.normal() if s['normal'] else None
    m2 = store(surf, ctx, s)
    got = rqs.Surface(m2, uuid = surf.uuid)
    eq(got.surface_role, s['role'], 'surface role')
    same_basics(got, surf, s, a.uuid, m2)
    check_surface(got, pats, 'from file')
    if v is not None:
        arr_close(got.normal(), v, 1e-9, 'normal vector')
    if len(pats) > 1:
        ctx.nontrivial()
    # conversion to another crs
    want = [(t, moved(a, b, p)) for t, p in pats]
    conv = rqs.Surface(m2, uuid = surf.uuid) if s['when'] == 'stored' else surf
    cm = conv.model
    if s['look']:
        conv.triangles_and_points()
    conv.change_crs(rqc.Crs(cm, uuid = b.uuid))
    eq(str(conv.crs_uuid), str(b.uuid), 'crs after conversion')
    check_surface(conv, want, 'converted')
    if a.is_equivalent(b):
        return
    ok(not bu.matching_uuids(conv.uuid, surf.uuid) or conv is surf, 'uuid not changed')
    if v is not None:
        fresh = rqs.Surface(cm, crs_uuid = b.uuid, title = 'fresh')
        fresh.set_multi_patch_from_triangles_and_points(want)
        p = fresh.unit_adjusted_points()
        sv = np.linalg.svd(p - np.mean(p, axis = 0))[1]
        if sv[1] > 1.0 and sv[2] < 0.01 * sv[1]:
            ctx.label('planar')
            ok(abs(np.dot(conv.normal(), fresh.normal())) > 0.999, f'normal vector after conversion is {conv.normal()} rather than {fresh.normal()}')
    conv.write_hdf5()
    conv.create_xml()
    cm.store_epc()
    m3 = reopen(ctx, cm.epc_file)
    check_surface(rqs.Surface(m3, uuid = conv.uuid), want, 'converted, from file')
    eq(str(rqs.Surface(m3, uuid = conv.uuid).crs_uuid), str(b.uuid), 'crs of converted, from file')
    if s['when'] == 'stored':
        check_surface(rqs.Surface(m3, uuid = got.uuid), pats, 'original, from file')


@check('pointset', st.fixed_dictionaries(dict(common, patches = st.lists(st.lists(point, min_size = 1, max_size = 6), min_size = 1, max_size = 4), flat = st.booleans(), shape = st.booleans(), preload = st.booleans(), when = st.sampled_from(['made', 'stored']), look = st.booleans(),
                                             how = st.sampled_from(['array', 'array', 'polyline', 'polyset']), closed = st.lists(st.booleans(), min_size = 4, max_size = 4), dup = st.booleans())), quick = 130, thorough = 1500, shards = 2, rule = 'more than one patch, or made from lines')
def pointset(s, ctx):
    m = ctx.new_model('m')
    a, b = crs_pair(m, s)
    pats = [np.array(p) for p in s['patches']]
    if s['how'] == 'array':
        if s['flat']:
            for p in pats:
                p[:, 2] = 0.0
        given = [p[:, :2] if s['flat'] else p for p in pats]
        given = [g.reshape((1, len(g), -1)) if s['shape'] else g for g in given]
        ps = rqs.PointSet(m, points_array = given[0], crs_uuid = a.uuid, title = s['title'], extra_metadata = s['meta'])
        for k, g in enumerate(given[1:]):
            if s['look'] and k == 0:
                ps.full_array_ref()
            ps.add_patch(g)
        if len(pats) > 1:
            ctx.nontrivial()
    else:
        ctx.nontrivial()
        pats = [p for p in pats if len(p) > 1]
        if not pats:
            return
        pls = []
        for i, p in enumerate(pats):
            if s['closed'][i] and s['dup'] and len(p) > 2:
                p = np.concatenate((p, p[:1]))
            crs = (a, b)[i % 2] if s['how'] == 'polyset' and s['look'] else a
            pls.append(rql.Polyline(m, set_coord = p, set_crs = crs.uuid, is_closed = s['closed'][i], title = f'line {i}'))
        if s['how'] == 'polyline':
            add_interp(pls[0], s)
            ps = rqs.PointSet(m, polyline = pls[0], title = s['title'], extra_metadata = s['meta'])
            pats = [pls[0].coordinates.copy()]
        else:
            before = [pl.coordinates.copy() for pl in pls]
            pset = rql.PolylineSet(m, title = 'lines')
            if not s['look']:
                pset = rql.PolylineSet(m, polylines = pls, title = 'lines')
            else:
                pset.polys = pls
            add_interp(pset, s)
            ps = rqs.PointSet(m, polyset = pset, title = s['title'], extra_metadata = s['meta'])
            for i, pl in enumerate(pls):
                arr_close(pl.coordinates, before[i], 1e-9, 'coordinates of a polyline used for a point set')
            out = []
            for i, p in enumerate(before):
                p = p[:-1] if s['closed'][i] and np.all(np.isclose(p[0], p[-1])) and len(p) > 1 else p
                out.append(p if not s['look'] or i % 2 == 0 else moved(b, a, p))
            pats = [np.concatenate(out)]
    eq(ps.patch_count, len(pats), 'number of patches')
    whole = np.concatenate(pats)
    arr_close(ps.full_array_ref(), whole, 1e-6, 'points as made')
    if s['how'] == 'array':
        add_interp(ps, s)
    m2 = store(ps, ctx, s)
    got = rqs.PointSet(m2, uuid = ps.uuid, load_hdf5 = s['preload'])
    same_basics(got, ps, s, a.uuid, m2)
    eq(got.patch_count, len(pats), 'number of patches from file')
    for i in reversed(range(len(pats))):
        arr_close(got.single_patch_array_ref(i), pats[i], 1e-6, f'points of patch {i} from file')
    arr_close(got.full_array_ref(), whole, 1e-6, 'points from file')
    conv = rqs.PointSet(m2, uuid = ps.uuid) if s['when'] == 'stored' else ps
    cm = conv.model
    if s['look']:
        conv.full_array_ref()
    conv.change_crs(rqc.Crs(cm, uuid = b.uuid))
    eq(str(conv.crs_uuid), str(b.uuid), 'crs after conversion')
    eq(conv.patch_count, len(pats), 'number of patches converted')
    arr_close(conv.full_array_ref(), moved(a, b, whole), 1e-6, 'converted points')
    for i in range(len(pats)):
        arr_close(conv.single_patch_array_ref(i), moved(a, b, pats[i]), 1e-6, f'converted points of patch {i}')
    if a.is_equivalent(b):
        return
    conv.write_hdf5()
    conv.create_xml()
    cm.store_epc()
    m3 = reopen(ctx, cm.epc_file)
    arr_close(rqs.PointSet(m3, uuid = conv.uuid).full_array_ref(), moved(a, b, whole), 1e-6, 'converted points from file')
    eq(str(rqs.PointSet(m3, uuid = conv.uuid).crs_uuid), str(b.uuid), 'crs of converted from file')
    if s['when'] == 'stored':
        arr_close(rqs.PointSet(m3, uuid = got.uuid).full_array_ref(), whole, 1e-6, 'original points from file')


@st.composite
def mesh_cases(draw):
    out = {k: draw(v) for k, v in common.items()}
    out['nj'], out['ni'] = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    n = out['nj'] * out['ni']
    out['flavour'] = draw(st.sampled_from(['ref&z', 'reg&z', 'regular', 'explicit', 'explicit xy', 'tri', 'tri from', 'column property']))
    out['points'] = draw(st.lists(point, min_size = n, max_size = n))
    out['z'] = draw(st.lists(st.one_of(coord, coord, coord, st.none()), min_size = n, max_size = n))
    out['origin'] = draw(point)
    step = st.sampled_from([(10.0, 0.0, 0.0), (0.0, 25.0, 0.0), (3.0, 4.0, 0.0), (-7.0, 2.0, 0.0), (1.0, 2.0, 2.0), (0.0, -5.0, 0.0)])
    out['steps'] = draw(st.lists(step, min_size = 2, max_size = 2))
    out['role'] = draw(st.sampled_from(['map', 'pick']))
    out['support'] = draw(st.sampled_from(['regular', 'explicit', 'reg&z']))
    out['flat_z'] = draw(st.booleans())
    out['look'] = draw(st.booleans())
    out['side'] = draw(st.sampled_from([10.0, 1.0, 33.3]))
    out['zuom'] = draw(st.sampled_from([None, 'm', 'm2']))
    out['has_origin'] = draw(st.booleans())
    return out


@check('mesh', mesh_cases(), quick = 160, thorough = 2000, shards = 2, rule = 'any flavour but explicit')
def mesh(s, ctx):
    m = ctx.new_model('m')
    a, b = crs_pair(m, s)
    nj, ni = s['nj'], s['ni']
    z = np.array([np.nan if x is None else x for x in s['z']]).reshape((nj, ni))
    pts = np.array(s['points']).reshape((nj, ni, 3))
    steps = np.array(s['steps'])
    jj, ii = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
    lattice = np.array(s['origin']) + ii[..., None] * steps[0] + jj[..., None] * steps[1]
    kw = dict(surface_role = s['role'], crs_uuid = a.uuid, title = s['title'], extra_metadata = s['meta'])
    f = s['flavour']
    ctx.label(f)
    if 'explicit' not in f:
        ctx.nontrivial()
    flat = z.flatten() if s['flat_z'] else z
    xmlkw = {}
    cls = rqs.Mesh
    support = None
    flavour = f
    if f in ('explicit', 'explicit xy'):
        me = rqs.Mesh(m, xyz_values = pts, **kw)
        want = pts
        flavour = 'explicit'
    elif f == 'regular':
        me = rqs.Mesh(m, nj = nj, ni = ni, origin = tuple(s['origin']), dxyz_dij = steps, **kw)
        want = lattice
    elif f == 'reg&z':
        me = rqs.Mesh(m, nj = nj, ni = ni, origin = tuple(s['origin']), dxyz_dij = steps, z_values = flat, **kw)
        want = np.concatenate((lattice[..., :2], z[..., None]), axis = -1)
    elif f == 'ref&z':
        if s['support'] == 'explicit':
            support = rqs.Mesh(m, xyz_values = pts, crs_uuid = a.uuid, title = 'support')
            base = pts
        else:
            skw = dict(z_values = np.zeros((nj, ni))) if s['support'] == 'reg&z' else {}
            support = rqs.Mesh(m, nj = nj, ni = ni, origin = tuple(s['origin']), dxyz_dij = steps, crs_uuid = a.uuid, title = 'support', **skw)
            base = lattice
        sup_want = base.copy()
        if s['support'] == 'reg&z':
            sup_want[..., 2] = 0.0
        support.write_hdf5()
        support.create_xml()
        me = rqs.Mesh(m, nj = nj, ni = ni, z_values = flat, z_supporting_mesh_uuid = support.uuid, **kw)
        want = np.concatenate((base[..., :2], z[..., None]), axis = -1)
    elif f == 'column property':
        zz = np.where(np.isnan(z), 0.0, z)
        g = grr.RegularGrid(m, extent_kji = (1, nj, ni), dxyz = (10.0, 20.0, 5.0), crs_uuid = a.uuid, title = 'grid')
        g.create_xml()
        p = rqp.Property.from_array(m, cached_array = zz, source_info = 'test', keyword = 'DEEP', support_uuid = g.uuid, property_kind = 'depth', indexable_element = 'columns', uom = a.z_units)
        me = rqs.Mesh.from_regular_grid_column_property(m, g.uuid, p.uuid)
        want = np.stack(((ii + 0.5) * 10.0, (jj + 0.5) * 20.0, zz), axis = -1)
        flavour = 'reg&z'
        s = dict(s, title = 'DEEP', role = 'map')
    else:
        cls = rqs.TriMesh
        flavour = 'explicit'
        origin = None
        if s['has_origin']:
            origin = tuple(s['origin'])
        me = rqs.TriMesh(m, t_side = s['side'], nj = nj, ni = ni, origin = origin, z_values = z, z_uom = s['zuom'], **kw)
        x = s['side'] * (ii + 0.5 * (jj % 2))
        y = s['side'] * jj * np.sqrt(3.0) / 2.0
        want = np.stack((x, y, z), axis = -1) + (0.0 if origin is None else np.array(origin))
        if f == 'tri from':
            z2 = z * 2.0 + 1.0
            me = rqs.TriMesh.from_tri_mesh_and_z_values(me, z2, title = s['title'], surface_role = s['role'], extra_metadata = s['meta'])
            want = want.copy()
            want[..., 2] = z2
    add_interp(me, s)
    if s['look'] or f == 'explicit xy':
        arr_close(me.full_array_ref(), want, 1e-6, 'points as made')
    if f == 'explicit xy':
        m.h5_file_name()
        me.write_hdf5(use_xy_only = True)
        me.create_xml(use_xy_only = True)
        m.store_epc()
        m2 = reopen(ctx, m.epc_file)
        want = want[..., :2]
    elif f == 'regular':
        me.create_xml()
        m.store_epc()
        m2 = reopen(ctx, m.epc_file)
    else:
        m2 = store(me, ctx, s)
    got = cls(m2, uuid = me.uuid)
    if f == 'column property':
        ok(m2.uuid_part_dict is not None)
        eq(str(got.crs_uuid), str(a.uuid), 'crs of column property mesh')
    else:
        same_basics(got, me, s, a.uuid, m2)
    eq(got.flavour, flavour, 'flavour')
    eq(got.surface_role, s['role'], 'surface role')
    eq((got.nj, got.ni), (nj, ni), 'extent')
    arr_close(got.full_array_ref(), want, 1e-6, 'points from file')
    if flavour in ('regular', 'reg&z') and f != 'column property':
        arr_close(np.array(got.regular_origin), np.array(s['origin']), 1e-9, 'origin')
        arr_close(got.regular_dxyz_dij, steps, 1e-9, 'steps')
    if cls is rqs.TriMesh:
        close(got.t_side, s['side'], 1e-9, 'triangle side')
        eq(got.z_uom, s['zuom'], 'z uom')
        plain = rqs.Mesh(m2, uuid = me.uuid)
        arr_close(plain.full_array_ref(), want, 1e-6, 'points of tri mesh taken as a mesh')
    if support is not None:
        eq(str(got.ref_uuid), str(support.uuid), 'supporting mesh')
        ok(m2.part_for_uuid(support.uuid) in m2.parts(related_uuid = got.uuid), 'supporting mesh not related')
        arr_close(rqs.Mesh(m2, uuid = support.uuid).full_array_ref(), sup_want, 1e-6, 'points of the supporting mesh')
    # a second generation
    if f not in ('explicit xy', 'column property') and cls is rqs.Mesh and s['crs'] != s['to']:
        again = rqs.Mesh(m2, xyz_values = got.full_array_ref(), crs_uuid = b.uuid, title = 'again')
        again.write_hdf5()
        again.create_xml()
        m2.store_epc()
        arr_close(rqs.Mesh(reopen(ctx, m2.epc_file), uuid = again.uuid).full_array_ref(), want, 1e-6, 'points of explicit version')


lines_ = st.lists(st.fixed_dictionaries(dict(p = st.lists(point, min_size = 2, max_size = 6), closed = st.booleans(), dup = st.booleans())), min_size = 1, max_size = 5)


@check('lines', st.fixed_dictionaries(dict(common, lines = lines_, what = st.sampled_from(['set', 'line', 'set']), flat = st.booleans(), mixed = st.booleans(), save = st.booleans(), shape = st.booleans(), ask = st.booleans())), quick = 150, thorough = 2000, shards = 2, rule = 'a set with open and closed lines, or lines in different crs')
def lines(s, ctx):
    m = ctx.new_model('m')
    a, b = crs_pair(m, s)
    arrays, closed = [], []
    for x in s['lines']:
        p = np.array(x['p'])
        if x['dup'] and x['closed'] and len(p) > 2:
            p = np.concatenate((p, p[:1]))
        if s['flat']:
            p[:, 2] = 0.0
        arrays.append(p)
        closed.append(x['closed'])

    def make(i, crs, kw):
        p = arrays[i][:, :2] if s['flat'] else arrays[i]
        if s['shape']:
            p = p.reshape((1, len(p), -1))
        return rql.Polyline(m, set_coord = p, set_crs = crs.uuid, is_closed = closed[i], **kw)

    if s['what'] == 'line':
        pl = make(0, a, dict(title = s['title'], extra_metadata = s['meta']))
        add_interp(pl, s)
        if s['ask']:
            pl.is_convex()
        m2 = store(pl, ctx, s)
        got = rql.Polyline(m2, uuid = pl.uuid)
        same_basics(got, pl, s, a.uuid, m2)
        eq(bool(got.isclosed), closed[0], 'closed')
        arr_close(got.coordinates, arrays[0], 1e-6, 'coordinates')
        eq(tuple(got.nodepatch), (0, len(arrays[0])), 'node patch')
        if s['ask']:
            eq(got.is_convex(), pl.is_convex(trust_metadata = False), 'convexity from file')
        return
    mixed = s['mixed'] and not a.is_equivalent(b)
    pls = [make(i, b if mixed and i % 2 else a, dict(title = f'line {i}')) for i in range(len(arrays))]
    before = [pl.coordinates.copy() for pl in pls]
    if mixed:
        ps = rql.PolylineSet(m, title = s['title'], extra_metadata = s['meta'], crs_uuid = a.uuid)
        ps.combine_polylines(pls)
    else:
        ps = rql.PolylineSet(m, polylines = pls, title = s['title'], extra_metadata = s['meta'])
    for i, pl in enumerate(pls):
        arr_close(pl.coordinates, before[i], 1e-9, 'coordinates of a polyline combined in a set')
    want = [moved(b, a, p) if mixed and i % 2 else p for i, p in enumerate(arrays)]
    add_interp(ps, s)
    if s['save'] and not s['own_h5'] and not mixed:
        ps.write_hdf5(save_polylines = True)
        ps.create_xml(save_polylines = True)
        m.store_epc()
        m2 = reopen(ctx, m.epc_file)
        for i, pl in enumerate(pls):
            q = rql.Polyline(m2, uuid = pl.uuid)
            arr_close(q.coordinates, arrays[i], 1e-6, f'coordinates of separate polyline {i}')
            eq(bool(q.isclosed), closed[i], f'closed flag of separate polyline {i}')
            eq(q.title, f'line {i}', 'title of separate polyline')
    else:
        m2 = store(ps, ctx, s)
    if len(set(closed)) > 1 or mixed and len(pls) > 1:
        ctx.nontrivial()
    got = rql.PolylineSet(m2, uuid = ps.uuid)
    same_basics(got, ps, s, a.uuid, m2)
    eq(len(got.polys), len(arrays), 'number of lines in set')
    eq([bool(pl.isclosed) for pl in got.polys], closed, 'closed flags')
    eq([bool(x) for x in got.closed_array], closed, 'array of closed flags')
    eq([int(x) for x in got.count_perpol], [len(p) for p in want], 'points per line')
    arr_close(got.coordinates, np.concatenate(want), 1e-6, 'coordinates of set')
    for i, pl in enumerate(got.polys):
        p = want[i]
        if closed[i] and len(p) > 2 and np.all(np.isclose(p[0], p[-1])):
            p = p[:-1]
        arr_close(pl.coordinates, p, 1e-6, f'coordinates of line {i}')
        eq(str(pl.crs_uuid), str(a.uuid), 'crs of line in set')
        eq(interp_of(pl), interp_of(ps), 'interpretation of line in set')
    # a set made from the lines of the stored set, in a new order
    back = rql.PolylineSet(m2, polylines = got.polys[::-1], title = 'reversed')
    back.write_hdf5()
    back.create_xml()
    m2.store_epc()
    again = rql.PolylineSet(reopen(ctx, m2.epc_file), uuid = back.uuid)
    eq([bool(pl.isclosed) for pl in again.polys], closed[::-1], 'closed flags of reversed set')
    for pl, q in zip(again.polys, got.polys[::-1]):
        if not np.all(np.isclose(q.coordinates[0], q.coordinates[-1])):
            arr_close(pl.coordinates, q.coordinates, 1e-6, 'coordinates of reversed set')
