"""property-based testing: generated lattices, tri-meshes, query points and stencils against direct geometry

The four flavours of mesh are made for one lattice, stored, reopened and compared with the points computed from origin and steps.
Tri-mesh location, weights, interpolation, node lookups, triangle numbering, crossings and nodes within triangles are compared with a
brute force search over the equilateral triangles laid out from the definition (not from the library's arrays). Stencils are compared
with a direct weighted sum by hexagonal ring distance in axial coordinates, with undefined values and borders handled as documented.
"""
import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.surface as rqs
import resqpy.property as rqp
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *

R3 = np.sqrt(3.0) / 2.0
nan_same = lambda got, want, tol, msg: (eq(np.shape(got), np.shape(want), msg + ': shape'), arr_eq(np.isnan(got), np.isnan(want), msg + ': undefined values'),
                                       arr_close(np.nan_to_num(got), np.nan_to_num(want), tol, msg))


def new_crs(m, **kw):
    c = rqc.Crs(m, **kw, title = 'crs')
    c.create_xml()
    return c


# -------------------------------------------------------------------------------------------------------------------------- meshes


@st.composite
def lattice_specs(draw):
    step = fl(-20.0, 20.0, 2)
    return dict(nj = draw(st.integers(2, 6)), ni = draw(st.integers(2, 6)), origin = draw(st.tuples(step, step, step)), di = draw(st.tuples(fl(1.0, 20.0, 2), step, step)),
                dj = draw(st.tuples(step, fl(1.0, 20.0, 2), step)), swap = draw(st.booleans()), seed = draw(st.integers(0, 10**6)), flat = draw(st.booleans()), nans = draw(st.integers(0, 2)),
                onto = draw(st.sampled_from(['regular', 'explicit', 'reg&z'])), role = draw(st.sampled_from(['pick', 'map'])), quad = draw(st.booleans()), one = draw(st.sampled_from([False, False, True])))


@check('flavours', lattice_specs(), quick = 60, thorough = 800, rule = 'lattice with sheared or rotated steps')
def flavours(s, ctx):
    m = ctx.new_model('m')
    crs = new_crs(m)
    nj, ni = s['nj'], s['ni']
    di, dj = np.array(s['di']), np.array(s['dj'])
    if s['swap']:
        di, dj = dj, di
    d = np.array([dj, di])
    o = tuple(s['origin'])
    jj, ii = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
    lattice = np.array(o) + jj[..., None] * dj + ii[..., None] * di
    rng = np.random.default_rng(s['seed'])
    z = rng.uniform(-100.0, 100.0, (nj, ni))
    for _ in range(s['nans']):
        z[rng.integers(nj), rng.integers(ni)] = np.nan
    surface = lattice.copy()
    surface[..., 2] = z
    # as dxyz_dij is documented: xyz increment with each step in i (row 0) and j (row 1)
    d_ij = np.array([di, dj])
    kw = dict(nj = nj, ni = ni, crs_uuid = crs.uuid, surface_role = s['role'])
    meshes = {}
    meshes['regular'] = rqs.Mesh(m, mesh_flavour = 'regular', origin = o, dxyz_dij = d_ij.copy(), title = 'regular', **kw)
    meshes['regular'].create_xml()
    zz = z.flatten() if s['flat'] else z.copy()
    meshes['reg&z'] = rqs.Mesh(m, mesh_flavour = 'reg&z', origin = o, dxyz_dij = d_ij.copy(), z_values = zz.copy(), title = 'reg and z', **kw)
    meshes['explicit'] = rqs.Mesh(m, mesh_flavour = 'explicit', xyz_values = surface.copy(), title = 'explicit', **kw)
    for k in ('reg&z', 'explicit'):
        meshes[k].write_hdf5()
        meshes[k].create_xml()
    meshes['ref&z'] = rqs.Mesh(m, mesh_flavour = 'ref&z', z_values = zz.copy(), z_supporting_mesh_uuid = meshes[s['onto']].uuid, title = 'ref and z', **kw)
    meshes['ref&z'].write_hdf5()
    meshes['ref&z'].create_xml()
    want = {k: (lattice if k == 'regular' else surface) for k in meshes}

    def judge(group, when):
        for k, mesh in group.items():
            eq((mesh.nj, mesh.ni), (nj, ni), f'{k} {when}: extent')
            eq(mesh.flavour, k, f'flavour {when}')
            eq(mesh.surface_role, s['role'], f'{k} {when}: surface role')
            nan_same(mesh.full_array_ref(), want[k], 1.0e-6, f'{k} {when}: points')
            ok(bu.matching_uuids(mesh.crs_uuid, crs.uuid), f'{k} {when}: crs')
            ok(not mesh.is_big(), 'small mesh reported big')
            if mesh.nj > 1 and mesh.ni > 1 and not (k != 'regular' and s['nans']):
                surf = mesh.surface(quad_triangles = s['quad'])
                t, p = surf.triangles_and_points()
                eq(len(t), (4 if s['quad'] else 2) * (nj - 1) * (ni - 1), f'{k} {when}: triangles of surface')
                arr_close(p[:nj * ni], want[k].reshape((-1, 3)), 1.0e-6, f'{k} {when}: points of surface')

    judge(meshes, 'in memory')
    m.store_epc()
    m2 = ctx.reopen(m)
    # any order of loading
    keys = list(meshes)
    rng.shuffle(keys)
    judge({k: rqs.Mesh(m2, uuid = meshes[k].uuid) for k in keys}, 'from file')
    if abs(di[1]) + abs(dj[0]) > 0.0:
        ctx.nontrivial()


@st.composite
def column_specs(draw):
    return dict(nj = draw(st.integers(2, 5)), ni = draw(st.integers(2, 5)), nk = draw(st.integers(1, 3)), dx = draw(fl(1.0, 50.0, 1)), dy = draw(fl(1.0, 50.0, 1)),
                origin = draw(opt(st.tuples(fl(-50.0, 50.0, 1), fl(-50.0, 50.0, 1), fl(0.0, 50.0, 1)))), kind = draw(st.sampled_from(['depth', 'discrete', 'saturation', 'thickness ft'])),
                seed = draw(st.integers(0, 10**6)), meta = draw(st.booleans()))


@check('columns', column_specs(), quick = 30, thorough = 400, rule = 'grid with an origin')
def columns(s, ctx):
    m = ctx.new_model('m')
    crs = new_crs(m)
    nk, nj, ni = s['nk'], s['nj'], s['ni']
    g = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = (s['dx'], s['dy'], 3.0), crs_uuid = crs.uuid, title = 'g', **({'origin': tuple(s['origin'])} if s['origin'] else {}))
    g.create_xml(add_cell_length_properties = True)
    rng = np.random.default_rng(s['seed'])
    kind = s['kind']
    a = rng.integers(0, 9, (nj, ni)) if kind == 'discrete' else rng.uniform(0.0, 1.0, (nj, ni))
    p = rqp.Property.from_array(m, a, source_info = 'test', keyword = 'P', support_uuid = g.uuid, property_kind = {'depth': 'depth', 'discrete': 'discrete', 'saturation': 'saturation', 'thickness ft': 'thickness'}[kind],
                                indexable_element = 'columns', discrete = kind == 'discrete', uom = {'depth': 'm', 'discrete': None, 'saturation': 'm3/m3', 'thickness ft': 'ft'}[kind],
                                extra_metadata = {'a': 'b'} if s['meta'] else None)
    m.store_epc()
    m = ctx.reopen(m)
    g = grr.RegularGrid(m, uuid = g.uuid)
    mesh = rqs.Mesh.from_regular_grid_column_property(m, g.uuid, p.uuid)
    c = g.centre_point()
    want = np.empty((nj, ni, 3))
    want[..., :2] = c[0, :, :, :2]
    want[..., 2] = a
    eq(mesh.flavour, 'reg&z', 'flavour')
    arr_close(mesh.full_array_ref(), want, 1.0e-6, 'points of mesh from column property')
    mc = rqc.Crs(m, uuid = mesh.crs_uuid)
    eq(mc.z_units, 'ft' if kind == 'thickness ft' else 'm', 'z units of crs')
    eq(mc.xy_units, 'm', 'xy units of crs')
    eq(rqp.Property(m, uuid = p.uuid).extra_metadata.get('a'), 'b' if s['meta'] else None, 'extra metadata of property')
    mesh.write_hdf5()
    mesh.create_xml()
    m.store_epc()
    m2 = ctx.reopen(m)
    again = rqs.Mesh(m2, uuid = mesh.uuid)
    arr_close(again.full_array_ref(), want, 1.0e-6, 'points of mesh re-read')
    if s['meta']:
        eq(again.extra_metadata.get('a'), 'b', 'extra metadata inherited')
    if s['origin']:
        ctx.nontrivial()


# ---------------------------------------------------------------------------------------------------------------------- tri-meshes


tri_d = dict(nj = st.integers(2, 7), ni = st.integers(2, 7), side = st.sampled_from([10.0, 1.0, 0.25, 3.7]), origin = opt(st.tuples(fl(-50.0, 50.0, 2), fl(-50.0, 50.0, 2), fl(-50.0, 50.0, 2))),
             seed = st.integers(0, 10**6), file = st.booleans(), nans = st.integers(0, 2), z_uom = st.sampled_from([None, 'ft', 'ms']))


def tri_mesh(m, s, crs, ctx, z = None):
    """Returns (model, tri mesh, independent node xyz)."""
    nj, ni = s['nj'], s['ni']
    rng = np.random.default_rng(s['seed'])
    if z is None:
        z = rng.uniform(-100.0, 100.0, (nj, ni))
        for _ in range(s['nans']):
            z[rng.integers(nj), rng.integers(ni)] = np.nan
    o = s['origin']
    tm = rqs.TriMesh(m, t_side = s['side'], nj = nj, ni = ni, origin = o and tuple(o), z_values = z.copy(), z_uom = s['z_uom'], crs_uuid = crs.uuid, title = 'tri')
    want = np.empty((nj, ni, 3))
    for j in range(nj):
        for i in range(ni):
            want[j, i] = (s['side'] * (i + (0.5 if j % 2 else 0.0)), s['side'] * R3 * j, z[j, i])
    if o:
        want += np.array(o)
    if s['file']:
        tm.write_hdf5()
        tm.create_xml()
        m.store_epc()
        m = ctx.reopen(m)
        tm = rqs.TriMesh(m, uuid = tm.uuid)
    nan_same(tm.full_array_ref(), want, 1.0e-6 * max(1.0, s['side']), 'points of tri mesh')
    return m, tm, want, rng


def triangles_of(nj, ni):
    """All triangles as triples of (j, i) nodes, from adjacency of the lattice."""
    out = []
    for j in range(nj - 1):
        for i in range(ni):
            if j % 2 == 0:  # row j unshifted, row j + 1 half a side to the right
                if i + 1 < ni:
                    out.append(((j, i), (j, i + 1), (j + 1, i)))
                if i + 1 < ni:
                    out.append(((j + 1, i), (j + 1, i + 1), (j, i + 1)))
            else:
                if i + 1 < ni:
                    out.append(((j, i), (j, i + 1), (j + 1, i + 1)))
                    out.append(((j + 1, i), (j + 1, i + 1), (j, i)))
    return out


def bary(tri, q):
    a, b, c = tri
    u, v = np.linalg.solve(np.array([b - a, c - a]).T, q - a)
    return np.array([1.0 - u - v, u, v])


@check('locate', st.fixed_dictionaries(tri_d), quick = 60, thorough = 800, rule = 'points in triangles of all four parities, and points outside')
def locate(s, ctx):
    m = ctx.new_model('m')
    crs = new_crs(m)
    m, tm, xyz, rng = tri_mesh(m, s, crs, ctx)
    nj, ni, side = s['nj'], s['ni'], s['side']
    tris = triangles_of(nj, ni)
    eq(len(tris), 2 * (nj - 1) * (ni - 1), 'oracle')
    # numbering
    all_nodes = tm.all_tri_nodes()
    eq(all_nodes.shape, (nj - 1, 2 * (ni - 1), 3, 2), 'shape of all_tri_nodes')
    eq(sorted(tuple(sorted(map(tuple, t.tolist()))) for t in all_nodes.reshape((-1, 3, 2))), sorted(tuple(sorted(t)) for t in tris), 'triangles')
    t, p = tm.triangles_and_points()
    nan_same(p, xyz.reshape((-1, 3)), 1.0e-5, 'points for surface')
    every = [(j, i) for j in range(nj - 1) for i in range(2 * (ni - 1))]
    as_array = tm.tri_nodes_for_tji_array(np.array(every).reshape((nj - 1, 2 * (ni - 1), 2)))
    seen = set()
    for j, i in every:
        index = int(tm.triangle_index_for_tji((j, i)))
        seen.add(index)
        eq(tuple(int(x) for x in tm.tji_for_triangle_index(index)), (j, i), 'triangle numbering not inverted')
        nodes = [tuple(int(y) for y in x) for x in tm.tri_nodes_for_tji((j, i))]
        eq(nodes, [tuple(x) for x in all_nodes[j, i].tolist()], 'nodes of a triangle')
        eq(nodes, [tuple(x) for x in as_array[j, i].tolist()], 'nodes of an array of triangles')
        eq([(int(n) // ni, int(n) % ni) for n in t[index]], nodes, f'triangle {index} of surface')
    eq(seen, set(range(len(tris))), 'triangle indices')
    # location
    lo, hi = xyz[..., :2].reshape((-1, 2)).min(axis = 0), xyz[..., :2].reshape((-1, 2)).max(axis = 0)
    qs = lo - side * 0.7 + rng.uniform(0.0, 1.0, (50, 2)) * (hi - lo + 1.4 * side)
    keep, found = [], []
    flat = {tri: np.array([xyz[n][:2] for n in tri]) for tri in tris}
    for q in qs:
        hit = None
        near = False
        for tri, c in flat.items():
            b = bary(c, q)
            if np.min(b) > -1.0e-4 and np.min(b) < 1.0e-4:
                near = True
            elif np.min(b) > 0.0:
                hit = (tri, b)
        if not near:
            keep.append(q)
            found.append(hit)
    qs = np.array(keep)
    shaped = qs
    if s['file'] and len(qs) % 2 == 0:
        shaped = qs.reshape((2, -1, 2))
    if s['nans']:
        shaped = np.concatenate((shaped, rng.uniform(-9.0, 9.0, shaped.shape[:-1] + (1,))), axis = -1)
    given = shaped.copy()
    tji_a, tc_a = tm.tji_tc_for_xy_array(given)
    ji_a, w_a = tm.ji_and_weights_for_xy_array(given)
    z_a = tm.interpolated_z_array(given)
    tji_b = tm.tji_for_xy_array(given)
    arr_eq(given, shaped, 'query points modified')
    eq(tji_a.shape, shaped.shape[:-1] + (2,), 'shape of located triangles')
    eq(z_a.shape, shaped.shape[:-1], 'shape of interpolated values')
    arr_eq(tji_a, tji_b, 'tji arrays')
    tji_a, tc_a, ji_a, w_a, z_a = tji_a.reshape((-1, 2)), tc_a.reshape((-1, 3)), ji_a.reshape((-1, 3, 2)), w_a.reshape((-1, 3)), z_a.flatten()
    kinds = set()
    for k, q in enumerate(qs):
        tji, tc = tm.tji_tc_for_xy(tuple(q))
        ji, w = tm.ji_and_weights_for_xy(tuple(q))
        z = tm.interpolated_z(tuple(q))
        if found[k] is None:
            ok(tji is None and tc is None and ji is None and w is None and z is None, f'point {q} outside the mesh located in triangle {tji}')
            ok(tm.tji_for_xy(tuple(q)) is None, 'tji for point outside')
            eq(tji_a[k].tolist(), [-1, -1], 'array location of a point outside')
            ok(np.isnan(z_a[k]) and np.all(np.isnan(tc_a[k])) and np.all(np.isnan(w_a[k])), 'array weights of a point outside')
            eq(ji_a[k].tolist(), [[-1, -1]] * 3, 'array nodes of a point outside')
            kinds.add('out')
            continue
        tri, b = found[k]
        ok(tji is not None, f'point {q} not located; expected in triangle {tri}')
        kinds.add((tji[0] % 2, tji[1] % 2))
        weights = dict(zip(tri, b))
        nodes = [tuple(int(y) for y in x) for x in ji]
        eq(sorted(nodes), sorted(tri), f'triangle containing {q}')
        eq(tuple(tm.tji_for_xy(tuple(q))), tuple(tji), 'tji for xy')
        arr_close(w, [weights[n] for n in nodes], 1.0e-6, 'weights')
        arr_close(tc, w, 1.0e-9, 'trilinear coordinates')
        arr_close(np.asarray(w) @ np.array([xyz[n][:2] for n in nodes]), q, 1.0e-6 * max(1.0, side), 'weights do not reproduce the point')
        want_z = sum(weights[n] * xyz[n][2] for n in tri)
        nan_same(np.array(z, dtype = float), np.array(want_z), 1.0e-4, 'interpolated depth')
        eq(tji_a[k].tolist(), [int(x) for x in tji], 'array location')
        eq([tuple(x) for x in ji_a[k].tolist()], nodes, 'array nodes')
        arr_close(w_a[k], w, 1.0e-9, 'array weights')
        arr_close(tc_a[k], w, 1.0e-9, 'array trilinear coordinates')
        nan_same(z_a[k], np.array(want_z), 1.0e-4, 'array interpolated depth')
    # agreement with surface
    surf = rqs.Surface.from_tri_mesh(tm, exclude_nans = True)
    before = dict(tm.extra_metadata)
    st_, sp = surf.triangles_and_points()
    good = [tri for tri in tris if not any(np.isnan(xyz[n][2]) for n in tri)]
    eq(len(st_), len(good), 'triangles of surface without undefined nodes')
    eq(len(sp), int(np.count_nonzero(~np.isnan(xyz[..., 2]))), 'points of surface without undefined nodes')
    eq(sorted(tuple(sorted(map(tuple, np.round(sp[x], 4).tolist()))) for x in st_), sorted(tuple(sorted(map(tuple, np.round(np.array([xyz[n] for n in tri]), 4).tolist()))) for tri in good), 'corners of surface') if side >= 1.0 and s['file'] is False else None
    if len(st_):
        zs = surf.sample_z_at_xy_points(qs)
        for k in range(len(qs)):
            if found[k] is not None and not np.isnan(z_a[k]):
                close(zs[k], z_a[k], 1.0e-3, 'depth of surface')
        if len(sp) > 4:
            _ = surf.normal()
            surf.write_hdf5()
            surf.create_xml()
            eq(dict(tm.extra_metadata), before, 'extra metadata of tri mesh changed by storing its surface')
    # new values
    z2 = rng.uniform(0.0, 1.0, (nj, ni))
    other = rqs.TriMesh.from_tri_mesh_and_z_values(tm, z2.copy(), title = 'b', z_uom = None)
    want = xyz.copy()
    want[..., 2] = z2
    arr_close(other.full_array_ref(), want, 1.0e-5, 'points of tri mesh with new z values')
    eq(other.z_uom, tm.z_uom, 'z uom of tri mesh with new z values')
    ok(tm.is_compatible_with(other) and other.is_compatible_with(tm) and tm.is_compatible_with(tm), 'tri mesh with new z values not compatible')
    o = np.zeros(3) if s['origin'] is None else np.array(s['origin'])
    for kw in (dict(nj = nj + 1), dict(t_side = side * 1.5), dict(origin = tuple(o + np.array([0.0, side, 0.0]))), dict(ni = ni + 1)):
        args = dict(t_side = side, nj = nj, ni = ni, origin = tuple(o), crs_uuid = crs.uuid, title = 'c')
        args.update(kw)
        different = rqs.TriMesh(m, **args)
        ok(not tm.is_compatible_with(different) and not different.is_compatible_with(tm), f'tri mesh with different {list(kw)} compatible')
    same = rqs.TriMesh(m, t_side = side, nj = nj, ni = ni, origin = tuple(o + np.array([0.0, 0.0, 5.0])), crs_uuid = crs.uuid, title = 'c')
    ok(tm.is_compatible_with(same) and same.is_compatible_with(tm), 'tri mesh with the same xy points not compatible')
    if len(kinds) > 3:
        ctx.nontrivial()


def edges_of(nj, ni):
    e = set()
    for t in triangles_of(nj, ni):
        for a in range(3):
            e.add(tuple(sorted((t[a], t[(a + 1) % 3]))))
    return sorted(e)


def same_points(got, want, what, tol):
    eq(len(got), len(want), f'{what}: number of points')
    left = [np.asarray(w) for w in want]
    for g in got:
        d = np.max(np.abs(np.array(left) - g), axis = 1)
        ok(d.min() < tol, f'{what}: unexpected point {g}')
        left.pop(int(np.argmin(d)))


@check('crossings', st.fixed_dictionaries(dict(tri_d, axis = st.integers(0, 2), frac = fl(-0.1, 1.1, 3), own = st.booleans())), quick = 80, thorough = 1000, rule = 'at least three crossings')
def crossings(s, ctx):
    m = ctx.new_model('m')
    crs = new_crs(m)
    m, tm, xyz, rng = tri_mesh(m, s, crs, ctx)
    nj, ni, side = s['nj'], s['ni'], s['side']
    edges = edges_of(nj, ni)
    tol = 1.0e-5 * max(1.0, side)

    def cross(v):
        out = []
        for a, b in edges:
            if v[a] * v[b] < 0.0:
                f = v[a] / (v[a] - v[b])
                out.append(xyz[a] + f * (xyz[b] - xyz[a]))
        return out

    v = rng.uniform(-1.0, 1.0, (nj, ni)) if s['own'] else xyz[..., 2]
    want = cross(v)
    if s['nans']:
        keep = lambda ps: [p for p in ps if not np.any(np.isnan(p))]
    else:
        keep = list
    got = tm.edge_zero_crossings(z_values = v.copy() if s['own'] else None)
    eq(len(got), len(want), 'number of zero crossings')
    same_points(keep(list(got)), keep(want), 'zero crossings', tol)
    axis = s['axis']
    lo, hi = np.nanmin(xyz[..., axis]), np.nanmax(xyz[..., axis])
    value = lo + s['frac'] * (hi - lo) + 0.00137 * side
    d = xyz[..., axis] - value
    if np.nanmin(np.abs(d)) > 1.0e-6 * side:
        want = cross(d)
        got = tm.axial_edge_crossings(axis, value = value)
        eq(len(got), len(want), f'number of crossings in axis {axis} at {value}')
        same_points(keep(list(got)), keep(want), f'crossings in axis {axis}', tol)
        ctx.label(f'axis {axis}')
        if len(want) > 2:
            ctx.nontrivial()


@st.composite
def within_specs(draw):
    s = {k: draw(v) for k, v in tri_d.items()}
    s['n'] = draw(st.integers(1, 4))
    s['size'] = draw(fl(0.2, 4.0, 1))
    return s


@check('within', within_specs(), quick = 60, thorough = 800, rule = 'some node within some triangle')
def within(s, ctx):
    m = ctx.new_model('m')
    crs = new_crs(m)
    m, tm, xyz, rng = tri_mesh(m, s, crs, ctx)
    lo, hi = xyz[..., :2].reshape((-1, 2)).min(axis = 0), xyz[..., :2].reshape((-1, 2)).max(axis = 0)
    t = lo + rng.uniform(-0.1, 1.1, (s['n'], 1, 2)) * (hi - lo) + rng.uniform(-1.0, 1.0, (s['n'], 3, 2)) * s['size'] * s['side']
    given = t.copy()
    got = tm.tri_nodes_in_triangles(given)
    arr_eq(given, t, 'triangles modified')
    got = sorted(tuple(int(x) for x in r) for r in got)
    eq(len(got), len(set(got)), 'repeated entries')
    for k in range(s['n']):
        det = np.cross(t[k, 1] - t[k, 0], t[k, 2] - t[k, 0])
        if abs(det) < 1.0e-2 * s['side']**2:
            continue
        inside = set()
        unsure = set()
        for j in range(s['nj']):
            for i in range(s['ni']):
                b = np.min(bary(t[k], xyz[j, i, :2]))
                if abs(b) < 1.0e-6:
                    unsure.add((j, i))
                elif b > 0.0:
                    inside.add((j, i))
        mine = {(j, i) for kk, j, i in got if kk == k}
        eq(sorted(mine - unsure), sorted(inside), f'nodes within triangle {k}')
        if inside:
            ctx.nontrivial()


# ------------------------------------------------------------------------------------------------------------------------- stencils


@st.composite
def stencil_specs(draw):
    s = {k: draw(v) for k, v in tri_d.items()}
    s['kind'] = draw(st.sampled_from(['pattern', 'constant norm', 'constant', 'linear norm', 'linear', 'gaussian norm', 'gaussian']))
    s['pattern'] = draw(st.lists(fl(-2.0, 5.0, 1), min_size = 2, max_size = 5))
    s['normalize'] = draw(st.sampled_from([None, 1.0, 2.5]))
    s['flat'] = draw(st.booleans())
    s['sigma'] = draw(st.sampled_from([3.0, 1.0, 5.0]))
    s['c'] = draw(fl(0.5, 5.0, 1))
    s['outer'] = draw(fl(0.0, 2.0, 1))
    s['handle'] = draw(st.booleans())
    s['border'] = draw(st.sampled_from([None, 0.0, 7.0]))
    s['preserve'] = draw(st.booleans())
    s['title'] = draw(st.sampled_from([None, 'smoothed']))
    return s


def axial(j, i):
    """Axial hex coordinates of node (j, i) with odd rows shifted half a side to the right."""
    return i - (j - (j & 1)) // 2, j


def ring(a, b):
    qa, ra = axial(*a)
    qb, rb = axial(*b)
    dq, dr = qa - qb, ra - rb
    return max(abs(dq), abs(dr), abs(dq + dr))


@check('stencil', stencil_specs(), quick = 80, thorough = 1000, rule = 'stencil reaching beyond the centre node with a non constant result')
def stencil(s, ctx):
    m = ctx.new_model('m')
    crs = new_crs(m)
    m, tm, xyz, rng = tri_mesh(m, s, crs, ctx)
    n = len(s['pattern'])
    flat = s['flat']
    kind = s['kind']
    given = np.array(s['pattern'], dtype = float)
    ones = np.arange(n)
    norm = None
    if kind == 'pattern':
        norm = s['normalize']
        raw = given.copy()
        counts = np.array([1] + [6 * k for k in range(1, n)])
        total = np.sum(raw * counts) if flat else np.sum(raw)
        if norm is not None and abs(total) < 0.1:
            return
        stc = rqs.TriMeshStencil(given, normalize = norm, normalize_mode_flat = flat)
        arr_eq(given, np.array(s['pattern'], dtype = float), 'pattern modified')
    elif kind == 'constant norm':
        raw, norm = np.ones(n), 1.0
        stc = rqs.TriMeshStencil.for_constant_normalized(n, normalize_mode_flat = flat)
    elif kind == 'constant':
        raw = np.full(n, s['c'])
        stc = rqs.TriMeshStencil.for_constant_unnormalized(n, s['c'])
    elif kind == 'linear norm':
        raw, norm = (n - ones).astype(float), 1.0
        stc = rqs.TriMeshStencil.for_linear_normalized(n, normalize_mode_flat = flat)
    elif kind == 'linear':
        raw = s['c'] + (s['outer'] - s['c']) * ones / (n - 1.0)
        stc = rqs.TriMeshStencil.for_linear_unnormalized(n, s['c'], s['outer'])
    elif kind == 'gaussian norm':
        raw, norm = np.exp(-0.5 * (ones * s['sigma'] / (n - 1.0))**2), 1.0
        stc = rqs.TriMeshStencil.for_gaussian_normalized(n, sigma = s['sigma'], normalize_mode_flat = flat)
    else:
        raw = s['c'] * np.exp(-0.5 * (ones * s['sigma'] / (n - 1.0))**2)
        stc = rqs.TriMeshStencil.for_gaussian_unnormalized(n, s['c'], sigma = s['sigma'])
    w = raw.astype(float).copy()
    counts = np.array([1] + [6 * k for k in range(1, n)], dtype = float)
    if norm is not None:
        if not flat:
            w /= counts
        w *= norm / np.sum(w * counts)
        close(np.sum(w * counts), norm, 1.0e-9, 'oracle')
    arr_close(stc.pattern, w, 1.0e-9, 'stencil pattern')
    # the stencil itself: each ring k has 6k elements of weight w[k]
    vals = np.concatenate([stc.half_hex[jp, :stc.row_length[jp]] for jp in range(n)] + [stc.half_hex[jp, :stc.row_length[jp]] for jp in range(1, n)])
    eq(len(vals), int(counts.sum()), 'number of elements in stencil')
    close(vals.sum(), np.sum(w * counts), 1.0e-9 * max(1.0, np.abs(w * counts).sum()), 'sum of stencil')
    z = xyz[..., 2]
    border = np.nan if s['border'] is None else s['border']
    out = stc.apply(tm, handle_nan = s['handle'], border_value = border, preserve_nan = s['preserve'], title = s['title'])
    nan_same(tm.full_array_ref(), xyz, 1.0e-5, 'tri mesh modified by applying stencil')
    nj, ni = s['nj'], s['ni']
    want = np.full((nj, ni), np.nan)
    unsure = np.zeros((nj, ni), dtype = bool)
    for j in range(nj):
        for i in range(ni):
            a = ws = 0.0
            for jj in range(j - n, j + n + 1):
                for ii in range(i - n - 1, i + n + 2):
                    k = ring((j, i), (jj, ii))
                    if k >= n:
                        continue
                    v = z[jj, ii] if 0 <= jj < nj and 0 <= ii < ni else border
                    if s['handle'] and np.isnan(v):
                        continue
                    a += w[k] * v
                    ws += w[k]
            if s['handle']:
                if abs(ws) < 1.0e-3 * np.abs(w * counts).sum():
                    unsure[j, i] = True
                else:
                    want[j, i] = a / ws
            else:
                want[j, i] = a
    if s['preserve'] and s['handle']:
        want[np.isnan(z)] = np.nan
        unsure[np.isnan(z)] = False
    got = out.full_array_ref()
    gz = got[..., 2].copy()
    gz[unsure] = want[unsure] = 0.0
    arr_close(got[..., :2], xyz[..., :2], 1.0e-5, 'xy of tri mesh')
    nan_same(gz, want, 1.0e-5 * max(1.0, np.nanmax(np.abs(want)) if np.any(~np.isnan(want)) else 1.0), 'stencil applied')
    ok(out.is_compatible_with(tm), 'result not compatible')
    eq(out.title, s['title'] or tm.title, 'title of result')
    eq(out.z_uom, tm.z_uom, 'z uom of result')
    ok(not bu.matching_uuids(out.uuid, tm.uuid), 'uuid of result')
    ctx.label(kind)
    if not np.all(np.isnan(want)):
        ctx.nontrivial()
