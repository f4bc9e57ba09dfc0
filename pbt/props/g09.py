"""property-based differential testing: generated unstructured grids of every shape against direct computation from their cells

Cells (tetrahedra, pyramids, prisms, hexahedra, prisms with any number of sides and mixtures) are made by splitting the
blocks of a mapped lattice, keeping any subset, with cells, faces, nodes and the start and direction of every face
shuffled.  Every query (faces, nodes and edges of cells and faces, cells of faces, external and internal faces of any
subset of cells, centres, normals, areas, volumes, triangulations) is compared with the definition, before and after storage.
Hexahedral grids made from corner point grids, tetrahedral grids made from cells, and vertical prism grids made from
surfaces or seed points are compared with what they were made from.
"""
import math

import numpy as np
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.lines as rql
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.time_series as rts
import resqpy.unstructured as rug
import resqpy.weights_and_measures as wam

from pbt.core import *
from pbt.lib.gen import *
from pbt.lib import grids as gl

CLS = {'tetra': rug.TetraGrid, 'pyramid': rug.PyramidGrid, 'prism': rug.PrismGrid, 'hexa': rug.HexaGrid}
SHAPE = {'tetra': 'tetrahedral', 'pyramid': 'pyramidal', 'prism': 'prism', 'hexa': 'hexahedral', 'ngon': 'polyhedral', 'mixed': 'polyhedral'}
METRE = {'m': 1.0, 'ft': 0.3048, 'cm': 0.01}

# corners of a block are numbered 4 * kp + 2 * jp + ip
HEX = [(0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 5, 4), (2, 3, 7, 6), (0, 2, 6, 4), (1, 3, 7, 5)]


def tet_faces(t):
    a, b, c, d = t
    return [(a, b, c), (a, b, d), (a, c, d), (b, c, d)]


def block_cells(kind, corners, centre):
    """Cells, each a list of faces, each a tuple of nodes in cyclic order, which make up a block."""
    c = [int(x) for x in corners]
    if kind == 'hexa':
        return [[tuple(c[x] for x in f) for f in HEX]]
    if kind == 'pyramid':
        return [[tuple(c[x] for x in f)] + [(c[f[e - 1]], c[f[e]], centre) for e in range(4)] for f in HEX]
    if kind == 'prism':
        r = []
        for t in ((0, 1, 3), (0, 3, 2)):
            r.append([tuple(c[x] for x in t), tuple(c[x + 4] for x in t)] + [(c[t[e - 1]], c[t[e]], c[t[e] + 4], c[t[e - 1] + 4]) for e in range(3)])
        return r
    r = []
    for a in (1, 2, 4):
        for b in (1, 2, 4):
            if a != b:
                r.append(tet_faces((c[0], c[a], c[a + b], c[7])))
    return r


UGRID = dict(n = st.tuples(st.integers(1, 2), st.integers(1, 2), st.integers(1, 2)), kind = st.sampled_from(['tetra', 'pyramid', 'prism', 'hexa', 'ngon', 'mixed']), seed = seeds, keep = st.sampled_from([1.0, 1.0, 0.5, 0.15, 0.0]),
             warp = st.sampled_from(['none', 'none', 'shear', 'taper', 'noise']), origin = st.sampled_from([(0.0, 0.0, 0.0), (1000.0, -2000.0, 2500.0), (455000.0, 6100000.0, 3000.0)]), xy = st.sampled_from(['m', 'm', 'ft', 'cm']), z = st.sampled_from(['', '', 'm', 'ft']), down = st.booleans(),
             axes = st.sampled_from(['easting northing', 'easting northing', 'northing easting']), shuffle = st.booleans(), spare = st.sampled_from([0, 0, 2]), inactive = st.sampled_from([0.0, 0.0, 0.4, 1.0]), sides = st.integers(3, 7))


class Model:
    """The definition of an unstructured grid: points and cells as lists of faces."""

    def __init__(self, s):
        rng = np.random.default_rng(s['seed'])
        kind = s['kind']
        nk, nj, ni = s['n']
        cells = []
        if kind == 'ngon':
            pts = []
            for j in range(nj):
                for i in range(ni):
                    ns = s['sides'] if (i + j) % 2 == 0 else 3 + (s['sides'] + 1) % 5
                    base = len(pts)
                    a = 2.0 * math.pi * (np.arange(ns) + 0.3) / ns
                    for k in range(nk + 1):
                        pts += [(0.5 + i + 0.45 * math.cos(t), 0.5 + j + 0.45 * math.sin(t), float(k)) for t in a]
                    for k in range(nk):
                        u = [base + k * ns + x for x in range(ns)]
                        d = [x + ns for x in u]
                        cells.append([tuple(u), tuple(d)] + [(u[x - 1], u[x], d[x], d[x - 1]) for x in range(ns)])
            pts = np.array(pts)
        else:
            pts = np.stack(np.meshgrid(np.arange(nk + 1.0), np.arange(nj + 1.0), np.arange(ni + 1.0), indexing = 'ij')[::-1], axis = -1).reshape(-1, 3)
            cen = [(i + 0.5, j + 0.5, k + 0.5) for k in range(nk) for j in range(nj) for i in range(ni)]
            nn = len(pts)
            pts = np.concatenate((pts, np.array(cen)))
            b = 0
            for k in range(nk):
                for j in range(nj):
                    for i in range(ni):
                        corners = [((k + kp) * (nj + 1) + j + jp) * (ni + 1) + i + ip for kp in (0, 1) for jp in (0, 1) for ip in (0, 1)]
                        kd = str(rng.choice(['tetra', 'pyramid', 'prism', 'hexa'])) if kind == 'mixed' else kind
                        cells += block_cells(kd, corners, nn + b)
                        b += 1
        if s['warp'] == 'noise' and kind != 'ngon':
            pts = pts + rng.uniform(-0.06, 0.06, pts.shape)
        if s['warp'] == 'taper':
            f = 1.0 + 0.2 * pts[:, 2]
            pts[:, 0] *= f
            pts[:, 1] *= f
        if s['warp'] in ('shear', 'taper', 'noise'):
            pts = pts @ np.array([[1.0, 0.25, 0.1], [-0.3, 0.9, -0.15], [0.2, 0.1, 1.1]])
        pts = pts * np.array([10.0, 14.0, 6.0])
        if s['xy'] == 'cm':
            pts[:, :2 if s['z'] else 3] *= 100.0
        pts = pts + np.array(s['origin'])
        # subset of cells, nodes in use only, perhaps with spares
        cells = [c for c in cells if rng.random() < s['keep']] or [cells[int(rng.integers(0, len(cells)))]]
        if s['shuffle']:
            rng.shuffle(cells)
        used = sorted({x for c in cells for f in c for x in f})
        if s['shuffle']:
            rng.shuffle(used)
        new = {int(o): x for x, o in enumerate(used)}
        self.p = np.concatenate((pts[used], np.round(rng.uniform(0.0, 10.0, (s['spare'], 3)), 2) + np.array(s['origin'])))
        self.face_id, self.faces, self.cells = {}, [], []
        for c in cells:
            cl = []
            for f in c:
                f = tuple(new[int(x)] for x in f)
                key = frozenset(f)
                if key not in self.face_id:
                    if s['shuffle']:
                        r = int(rng.integers(0, len(f)))
                        f = f[r:] + f[:r]
                        if rng.random() < 0.5:
                            f = f[::-1]
                    self.face_id[key] = len(self.faces)
                    self.faces.append(f)
                cl.append(self.face_id[key])
            if s['shuffle']:
                rng.shuffle(cl)
            self.cells.append([int(x) for x in cl])
        if s['shuffle']:
            order = [int(x) for x in rng.permutation(len(self.faces))]
            self.faces = [self.faces[x] for x in order]
            back = {o: x for x, o in enumerate(order)}
            self.cells = [[back[x] for x in c] for c in self.cells]
        self.xy, self.z = s['xy'], s['z'] or s['xy']
        self.rh = (s['axes'] == 'easting northing') != s['down']  # xyz axes are right handed
        self.pu = self.p * np.array([1.0, 1.0, METRE[self.z] / METRE[self.xy]])  # all in xy units
        self.inactive = None
        if s['inactive']:
            self.inactive = rng.random(len(self.cells)) < s['inactive']
        self.kind = kind
        self.planar = s['warp'] != 'noise'
        self.tol = 1e-6 * max(1.0, float(np.max(np.abs(self.pu))) / 1000.0)

    def centre(self, cell):
        return np.mean([np.mean(self.p[list(self.faces[f])], axis = 0) for f in self.cells[cell]], axis = 0)

    def vector_area(self, face, pts = None):
        p = (self.pu if pts is None else pts)[list(self.faces[face])]
        p = p - p[0]
        return 0.5 * sum(np.cross(p[x - 1], p[x]) for x in range(len(p)))

    def right(self, cell):
        c = np.mean([np.mean(self.pu[list(self.faces[f])], axis = 0) for f in self.cells[cell]], axis = 0)
        return [bool((np.dot(self.vector_area(f), np.mean(self.pu[list(self.faces[f])], axis = 0) - c) > 0.0) == self.rh) for f in self.cells[cell]]

    def volumes(self, cell):
        """Least and greatest volume (in xy units) over the ways of splitting faces at their first two nodes."""
        c = np.mean([np.mean(self.pu[list(self.faces[f])], axis = 0) for f in self.cells[cell]], axis = 0)
        lo = hi = 0.0
        for f in self.cells[cell]:
            v = []
            p = self.pu[list(self.faces[f])] - c
            for r in range(2):
                q = np.roll(p, r, axis = 0)
                v.append(abs(sum(np.dot(q[0], np.cross(q[x], q[x + 1])) for x in range(1, len(q) - 1))) / 6.0)
            lo, hi = lo + min(v), hi + max(v)
        return lo, hi

    def areas(self, face):
        p = self.pu[list(self.faces[face])]
        r = []
        for s in range(2 if len(p) == 4 else 1):
            q = np.roll(p, s, axis = 0)
            r.append(0.5 * sum(np.linalg.norm(np.cross(q[x] - q[0], q[x + 1] - q[0])) for x in range(1, len(q) - 1)))
        return r

    def grid(self, m, title = 'ug', cls = None, extra = {}, base = False):
        crs = rqc.Crs(m, xy_units = self.xy, z_units = self.z, z_inc_down = self.down, axis_order = self.axes)
        crs.create_xml()
        if base or self.kind not in CLS:
            g = rug.UnstructuredGrid(m, cell_shape = SHAPE[self.kind], title = title, extra_metadata = extra)
        else:
            g = CLS[self.kind](m, title = title, extra_metadata = extra)
        g.crs_uuid = crs.uuid
        g.set_cell_count(len(self.cells))
        g.face_count, g.node_count = len(self.faces), len(self.p)
        g.points_cached = self.p.copy()
        g.nodes_per_face = np.array([x for f in self.faces for x in f], dtype = int)
        g.nodes_per_face_cl = np.cumsum([len(f) for f in self.faces])
        g.faces_per_cell = np.array([x for c in self.cells for x in c], dtype = int)
        g.faces_per_cell_cl = np.cumsum([len(c) for c in self.cells])
        g.cell_face_is_right_handed = np.array([x for c in range(len(self.cells)) for x in self.right(c)], dtype = bool)
        if self.inactive is not None:
            g.inactive = self.inactive.copy()
            g.all_inactive = bool(np.all(self.inactive))
        return g


def make(s):
    d = Model(s)
    d.down, d.axes = s['down'], s['axes']
    return d


def per_face(d, cells):
    n = {}
    for c in cells:
        for f in d.cells[c]:
            n.setdefault(f, []).append(c)
    return n


def check_faces(g, d, rng):
    nc, nf = len(d.cells), len(d.faces)
    pf = per_face(d, range(nc))
    want = np.full((nf, 2), -1)
    for f, cs in pf.items():
        want[f, :len(cs)] = cs
    arr_eq(g.masked_cells_per_face(np.zeros(nc, dtype = bool)), want, 'cells of the faces')
    arr_eq(g.external_face_indices(), np.where(want[:, 1] < 0)[0], 'external faces')
    arr_eq(g.set_cells_per_face(), want, 'cells of the faces, as kept')
    for share in (0.0, 0.3, 0.7, 1.0):
        mask = rng.random(nc) < share
        keep = mask.copy()
        pf = per_face(d, np.where(~mask)[0])
        arr_eq(g.external_face_indices_for_masked_cells(mask), sorted(f for f, c in pf.items() if len(c) == 1), 'external faces of a subset of the cells')
        arr_eq(g.internal_face_indices_for_masked_cells(mask), sorted(f for f, c in pf.items() if len(c) == 2), 'internal faces of a subset of the cells')
        w = np.full((nf, 2), -1)
        for f, cs in pf.items():
            w[f, :len(cs)] = cs
        arr_eq(g.masked_cells_per_face(mask), w, 'cells of the faces for a subset of the cells')
        arr_eq(mask, keep, 'mask passed as argument')


def check_nodes(g, d):
    nc, nf = len(d.cells), len(d.faces)
    eq((g.cell_count, g.face_count, g.node_count), (nc, nf, len(d.p)), 'counts')
    for f in range(nf):
        nodes = list(d.faces[f])
        eq(int(g.node_count_for_face(f)), len(nodes), f'node count for face {f}')
        arr_eq(g.node_indices_for_face(f), nodes, f'nodes of face {f}')
        g.node_indices_for_face(f)[:] = -7  # a copy, as far as the caller is concerned
        arr_close(g.face_centre_point(f), np.mean(d.p[nodes], axis = 0), d.tol, f'centre of face {f}')
        e = np.array([(nodes[x - 1], nodes[x]) for x in range(len(nodes))])
        arr_eq(g.edges_for_face(f), e, f'edges of face {f}')
        arr_eq(g.edges_for_face_with_node_indices_ordered_within_pairs(f), np.sort(e, axis = 1), f'ordered edges of face {f}')
        if isinstance(g, rug.TetraGrid):
            arr_eq(g.nodes_for_face(f), nodes, f'nodes of tetra face {f}')
    eq(int(g.max_face_count_for_any_cell()), max(len(c) for c in d.cells), 'greatest number of faces of a cell')
    eq(int(g.max_node_count_for_any_face()), max(len(f) for f in d.faces), 'greatest number of nodes of a face')
    for c in range(nc):
        faces, right = list(d.cells[c]), d.right(c)
        if isinstance(g, rug.PyramidGrid):
            q = [x for x in range(5) if len(d.faces[faces[x]]) == 4] + [x for x in range(5) if len(d.faces[faces[x]]) == 3]
            faces, right = [faces[x] for x in q], [right[x] for x in q]
        eq(int(g.face_count_for_cell(c)), len(faces), f'face count for cell {c}')
        arr_eq(g.face_indices_for_cell(c), faces, f'faces of cell {c}')
        g.face_indices_for_cell(c)[:] = -7
        fi, fh = g.face_indices_and_handedness_for_cell(c)
        arr_eq(fi, faces, f'faces of cell {c} with handedness')
        arr_eq(fh, right, f'handedness of the faces of cell {c}')
        if isinstance(g, rug.TetraGrid):
            arr_eq(g.faces_for_cell(c), faces, f'faces of tetra {c}')
            arr_eq(g.determine_cell_face_right_handedness(c), right, f'handedness from geometry of tetra {c}')
        arr_eq(g.distinct_node_indices_for_cell(c), sorted({x for f in faces for x in d.faces[f]}), f'nodes of cell {c}')
        edges = {tuple(sorted((d.faces[f][x - 1], d.faces[f][x]))) for f in faces for x in range(len(d.faces[f]))}
        got = g.distinct_edges_for_cell(c)
        eq(got.shape, (len(edges), 2), f'shape of the edges of cell {c}')
        eq({tuple(int(x) for x in e) for e in got}, edges, f'edges of cell {c}')
        arr_close(g.cell_face_centre_points(c), np.array([np.mean(d.p[list(d.faces[f])], axis = 0) for f in faces]), d.tol, f'centres of the faces of cell {c}')
        arr_close(g.cell_centre_point(c), d.centre(c), d.tol, f'centre of cell {c}')
        arr_close(g.centre_point(c), d.centre(c), d.tol, f'centre_point of cell {c}')
        if isinstance(g, rug.HexaGrid):
            arr_close(g.corner_points(c), d.p[sorted({x for f in faces for x in d.faces[f]})], 0.0, f'corner points of cell {c}')
    want = np.array([d.centre(c) for c in range(nc)])
    arr_close(g.centre_point(), want, d.tol, 'centre points')
    arr_close(g.centre_point(nc - 1), want[-1], d.tol, 'centre point, after caching')
    arr_close(g.xyz_box(), np.stack((np.min(d.p, axis = 0), np.max(d.p, axis = 0))), 1e-9, 'xyz box')
    eq(g.active_cell_count(), nc if d.inactive is None else int(np.sum(~d.inactive)), 'active cell count')
    g.check_indices()
    for n in ('check_tetra', 'check_pyramidal', 'check_prism', 'check_hexahedral'):
        if hasattr(g, n):
            getattr(g, n)()


def check_geometry(g, d, ctx):
    rel = 1e-6 * max(1.0, d.tol / 1e-6) if d.planar else 1e-5
    for f in range(len(d.faces)):
        v = d.vector_area(f)
        size = float(np.linalg.norm(v))
        nodes = list(d.faces[f])
        n = g.face_normal(f)
        close(float(np.linalg.norm(n)), 1.0, 1e-6, f'length of the normal of face {f}')
        keep = g.points_ref().copy()
        pp, flat = g.planar_face_points(f), g.planar_face_points(f, xy_plane = True)
        arr_close(flat[:, 2], np.zeros(len(nodes)), 0.0, f'heights of the points of face {f} laid flat')
        if d.planar or len(nodes) == 3:
            arr_close(n, v / size, 1e-5, f'normal of face {f}')
            arr_close(pp, d.p[nodes], 10.0 * d.tol, f'planar points of face {f}')
            for a in range(len(nodes)):
                for b in range(a):
                    close(float(np.linalg.norm(flat[a] - flat[b])), float(np.linalg.norm(d.pu[nodes[a]] - d.pu[nodes[b]])), 10.0 * d.tol, f'length within face {f} laid flat', 1e-6)
        else:
            close(float(np.dot(n, v / size)), 1.0, 0.02, f'normal of face {f} which is not quite flat')
            q = pp * (d.pu[0] / d.p[0] if False else np.array([1.0, 1.0, METRE[d.z] / METRE[d.xy]]))
            q = q - np.mean(q, axis = 0)
            arr_close(q @ n, np.zeros(len(nodes)), 1e-4 * math.sqrt(size) + 10.0 * d.tol, f'planar points of face {f} relative to the plane')
            ok(np.max(np.abs(pp - d.p[nodes])) < 0.3 * math.sqrt(size) * METRE[d.xy] / min(METRE[d.z], METRE[d.xy]), f'planar points of face {f} far from the face')
        areas = d.areas(f)
        a = float(g.area_of_face(f))
        ok(any(abs(a - x) <= rel * x for x in areas), f'area of face {f} is {a}, expected one of {areas}')
        a = float(g.area_of_face(f, in_plane = True))
        if d.planar or len(nodes) == 3:
            close(a, areas[0], 0.0, f'area of face {f} in its plane', rel)
        else:
            ok(0.5 * max(areas) < a <= min(areas) * (1.0 + rel), f'area of face {f} in plane is {a}, expected close to {areas}')
        t = g.face_triangulation(f, local_nodes = True)
        eq(tuple(t.shape), (len(nodes) - 2, 3), f'shape of the triangulation of face {f}')
        eq(sorted(set(int(x) for x in t.flatten())), list(range(len(nodes))), f'nodes in the triangulation of face {f}')
        eq([sorted(nodes[int(x)] for x in r) for r in t], [sorted(int(x) for x in r) for r in g.face_triangulation(f)], f'triangulation of face {f} in grid nodes')
        close(sum(0.5 * np.linalg.norm(np.cross(flat[r[1]] - flat[r[0]], flat[r[2]] - flat[r[0]])) for r in t), a, 0.0, f'triangles of face {f} do not cover it', 1e-4)
        arr_close(g.points_ref(), keep, 0.0, 'points of the grid after queries')
    same = d.xy == d.z and d.xy in ('m', 'ft')
    unit = 1.0 if same else METRE[d.xy]**3
    cube = METRE[d.xy]**3
    for c in range(len(d.cells)):
        lo, hi = d.volumes(c)
        v = float(g.volume(c))
        ok(lo * unit * (1.0 - rel) <= v <= hi * unit * (1.0 + rel), f'volume of cell {c} is {v}, expected {lo * unit} to {hi * unit}')
        if type(g) in (rug.TetraGrid, rug.PyramidGrid, rug.HexaGrid):
            for u, f in (('m3', 1.0), ('ft3', 0.3048**3)):
                v = float(g.volume(c, required_uom = u))
                ok(lo * cube / f * (1.0 - rel) <= v <= hi * cube / f * (1.0 + rel), f'volume of cell {c} is {v} {u}, expected {lo * cube / f}')
        if type(g) is rug.HexaGrid and d.planar:
            close(float(rug.UnstructuredGrid.volume(g, c)), float(g.volume(c)), 0.0, f'volume of hexahedron {c} by way of tetrahedra', rel)
    if isinstance(g, rug.TetraGrid):
        close(float(g.grid_volume()), sum(d.volumes(c)[0] for c in range(len(d.cells))) * unit, 0.0, 'volume of the grid', rel)


@check('queries', st.fixed_dictionaries(dict(UGRID, how = st.sampled_from(['memory', 'stored']), base = st.sampled_from([False, False, True]), first = st.sampled_from(['nodes', 'faces', 'geometry', 'centre', 'normal', 'edges', 'node_count', 'max']))), quick = 300, thorough = 10000, shards = 4, rule = 'more than one cell')
def queries(spec, ctx):
    d = make(spec)
    rng = np.random.default_rng(spec['seed'] + 1)
    m = ctx.new_model()
    g = d.grid(m, base = spec['base'])
    if len(d.cells) > 1:
        ctx.nontrivial()
    ctx.label(spec['kind'])
    if spec['how'] == 'stored':
        g.write_hdf5()
        g.create_xml()
        m.store_epc()
        m = ctx.reopen(m)
        g = type(g)(m, uuid = g.uuid)
    first = spec['first']
    if first == 'faces':
        check_faces(g, d, rng)
    elif first == 'geometry':
        check_geometry(g, d, ctx)
    elif first == 'centre':
        arr_close(g.face_centre_point(0), np.mean(d.p[list(d.faces[0])], axis = 0), d.tol, 'centre of the first face')
    elif first == 'normal':
        close(float(np.linalg.norm(g.face_normal(len(d.faces) - 1))), 1.0, 1e-6, 'length of a normal')
    elif first == 'edges':
        eq(len(g.edges_for_face(0)), len(d.faces[0]), 'number of edges of a face')
    elif first == 'node_count':
        eq(int(g.node_count_for_face(0)), len(d.faces[0]), 'number of nodes of a face')
    elif first == 'max':
        eq(int(g.max_node_count_for_any_face()), max(len(f) for f in d.faces), 'greatest number of nodes of a face')
    check_nodes(g, d)
    check_faces(g, d, rng)
    check_geometry(g, d, ctx)


@check('storage', st.fixed_dictionaries(dict(UGRID, base = st.sampled_from([False, False, True]), extra = st.sampled_from([{}, {'a': 'b'}]), title = st.sampled_from(['ug', 'my grid', '']), geometry = st.sampled_from([True, True, True, False]), active = st.sampled_from([None, True, False]), props = st.booleans(), again = st.booleans())), quick = 120, thorough = 5000, shards = 2,
       rule = 'more than one cell')
def storage(spec, ctx):
    d = make(spec)
    rng = np.random.default_rng(spec['seed'] + 2)
    m = ctx.new_model()
    g = d.grid(m, title = spec['title'], extra = dict(spec['extra']), base = spec['base'])
    if len(d.cells) > 1:
        ctx.nontrivial()
    nc = len(d.cells)
    imp, vals = None, None
    if spec['props'] and spec['active'] is not False:
        imp = rqp.PropertyCollection()
        imp.set_support(support = g)
        vals = np.round(rng.uniform(0.0, 1.0, nc), 3)
        imp.add_cached_array_to_imported_list(vals, 'here', 'poro', uom = 'm3/m3', property_kind = 'porosity')
    geo = spec['geometry'] or spec['base'] is False and spec['kind'] in CLS
    kw = {} if spec['active'] is None else {'write_active': spec['active']}
    g.write_hdf5(imported_properties = imp, geometry = geo, **kw)
    g.create_xml(write_geometry = geo, **kw)
    if imp is not None:
        imp.imported_list = [e for e in imp.imported_list if e[2] != 'ACTIVE']
        imp.create_xml_for_imported_list_and_add_parts_to_model()
    for _ in range(2 if spec['again'] else 1):
        m.store_epc()
        m = ctx.reopen(m)
    cls = type(g)
    h = cls(m, uuid = g.uuid) if geo else cls(m, uuid = g.uuid, geometry_required = False)
    eq(h.title, spec['title'] or 'ROOT', 'title')
    eq(h.cell_count, nc, 'cell count')
    for k, v in spec['extra'].items():
        eq(h.extra_metadata.get(k), v, 'extra metadata')
    stored = d.inactive is not None and (spec['active'] is True or spec['active'] is None and geo)
    arr_eq(h.extract_inactive_mask(), d.inactive if stored else np.zeros(nc, dtype = bool), 'inactive mask')
    eq(h.active_cell_count(), int(np.sum(~d.inactive)) if stored else nc, 'active cell count')
    eq(bool(h.all_inactive), bool(stored and np.all(d.inactive)), 'all inactive')
    if imp is not None:
        arr_close(h.extract_property_collection().single_array_ref(property_kind = 'porosity'), vals, 1e-7, 'property')
    if not geo:
        ok(h.geometry_root is None and h.node_count is None and h.centre_point() is None, 'geometry where none was stored')
        return
    eq(h.cell_shape, SHAPE[spec['kind']], 'cell shape')
    ok(rqc.Crs(m, uuid = h.extract_crs_uuid()) == rqc.Crs(g.model, uuid = g.crs_uuid), 'crs')
    eq((h.xy_units(), h.z_units()), (d.xy, d.z), 'units')
    h.cache_all_geometry_arrays()
    arr_close(h.points_ref(), d.p, 0.0, 'points')
    for a in ('nodes_per_face', 'nodes_per_face_cl', 'faces_per_cell', 'faces_per_cell_cl', 'cell_face_is_right_handed'):
        arr_eq(getattr(h, a), getattr(g, a), a)
    ok(h.cell_face_is_right_handed.dtype == bool, 'type of the handedness array')
    if spec['base']:
        arr_eq(rug.UnstructuredGrid(m, uuid = g.uuid, cache_geometry = True).points_cached, d.p, 'points when cached on loading')


@check('cell_tetra', st.fixed_dictionaries(dict(UGRID, hand = st.booleans(), stored = st.booleans(), keep_it = st.booleans())), quick = 200, thorough = 8000, shards = 2, rule = 'cell which is not itself a tetrahedron')
def cell_tetra(spec, ctx):
    d = make(spec)
    rng = np.random.default_rng(spec['seed'] + 3)
    m = ctx.new_model()
    g = d.grid(m)
    if spec['stored']:
        g.write_hdf5()
        g.create_xml()
        m.store_epc()
        m = ctx.reopen(m)
        g = type(g)(m, uuid = g.uuid)
    c = int(rng.integers(0, len(d.cells)))
    t = rug.TetraGrid.from_unstructured_cell(g, c, set_handedness = spec['hand'], extra_metadata = {'q': 'r'}, **({'title': 'tets'} if spec['keep_it'] else {}))
    eq(t.title, 'tets' if spec['keep_it'] else f'ug_cell_{c}', 'title')
    faces = d.cells[c]
    nodes = sorted({x for f in faces for x in d.faces[f]})
    tris = sum(len(d.faces[f]) - 2 for f in faces)
    if len(nodes) == 4:
        eq((t.cell_count, t.face_count, t.node_count), (1, 4, 4), 'counts for a single tetrahedron')
        want = d.p[nodes]
    else:
        ctx.nontrivial()
        edges = {tuple(sorted((d.faces[f][x - 1], d.faces[f][x]))) for f in faces for x in range(len(d.faces[f]))}
        diag = sum(len(d.faces[f]) - 3 for f in faces)
        eq((t.cell_count, t.face_count, t.node_count), (tris, tris + len(edges) + diag, len(nodes) + 1), 'counts for the tetrahedra')
        want = np.concatenate((d.p[nodes], d.centre(c).reshape(1, 3)))
    arr_close(t.points_ref(), want, d.tol, 'points of the tetrahedra')
    t.check_tetra()
    t.check_indices()
    # outer faces cover the faces of the cell
    outer = t.external_face_indices()
    eq(len(outer), tris, 'number of outer faces')
    sets = [frozenset(d.faces[f]) for f in faces]
    area = [0.0] * len(faces)
    rev = {x: n for x, n in enumerate(nodes)}
    zf = np.array([1.0, 1.0, METRE[d.z] / METRE[d.xy]])
    for f in outer:
        tn = [int(x) for x in t.nodes_for_face(f)]
        ok(all(x in rev for x in tn), 'centre of the cell in an outer face')
        home = [q for q, s in enumerate(sets) if frozenset(rev[x] for x in tn) <= s]
        ok(len(home) == 1, 'outer face not within one face of the cell')
        p = d.pu[[rev[x] for x in tn]]
        area[home[0]] += 0.5 * float(np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])))
    for q, f in enumerate(faces):
        ok(any(abs(area[q] - x) <= 1e-5 * x for x in d.areas(f)), f'outer faces do not cover face {f} of the cell')
    lo, hi = d.volumes(c)
    unit = 1.0 if d.xy == d.z and d.xy in ('m', 'ft') else METRE[d.xy]**3
    v = float(t.grid_volume())
    rel = 1e-6 * max(1.0, d.tol / 1e-6)
    ok(lo * unit * (1.0 - rel) <= v <= hi * unit * (1.0 + rel), f'volume of the tetrahedra is {v}, expected {lo * unit} to {hi * unit}')
    close(v, float(g.volume(c)), 0.0, 'volume of the tetrahedra and of the cell', rel if d.planar else 0.2)
    if spec['hand']:
        for q in range(t.cell_count):
            pts = want * zf
            tf = [int(x) for x in t.faces_for_cell(q)]
            cen = np.mean(pts[sorted({int(x) for f in tf for x in t.nodes_for_face(f)})], axis = 0)
            r = []
            for f in tf:
                a, b, e = pts[t.nodes_for_face(f)]
                r.append(bool((np.dot(np.cross(b - a, e - a), a - cen) > 0.0) == d.rh))
            arr_eq(t.face_indices_and_handedness_for_cell(q)[1], r, f'handedness of the faces of tetrahedron {q}')
    if spec['stored']:
        t.write_hdf5()
        t.create_xml()
        m.store_epc()
        m = ctx.reopen(m)
        u = rug.TetraGrid(m, uuid = t.uuid)
        eq(u.extra_metadata.get('q'), 'r', 'extra metadata of the tetrahedra')
        close(float(u.grid_volume()), v, 0.0, 'volume of the stored tetrahedra', 1e-9)


PROP = st.fixed_dictionaries(dict(form = st.sampled_from(['cont', 'disc', 'cat', 'count', 'const', 'time', 'facet', 'real', 'bool', 'nodes', 'layers', 'columns', 'faces', 'points']), seed = seeds))


@check('hexa', st.fixed_dictionaries(dict(grid = gl.grid_specs(max_k = 3, max_ji = 3, faults = False, gaps = False), cls = st.sampled_from(['corner', 'corner', 'corner', 'regular']), down = st.booleans(), xy = st.sampled_from(['m', 'ft']), z = st.sampled_from(['', '', 'm', 'ft']), axes = st.sampled_from(['easting northing'] * 3 + ['northing easting']), inherit = st.booleans(),
                                          props = st.lists(PROP, max_size = 4), active = st.sampled_from([None, None, True, False]), title = st.sampled_from([None, 'hex'])) ), quick = 200, thorough = 6000, shards = 4, rule = 'more than one cell')
def hexa(spec, ctx):
    m = ctx.new_model()
    s = spec['grid']
    kw = dict(xy_units = spec['xy'], z_units = spec['z'] or spec['xy'], z_inc_down = spec['down'], axis_order = spec['axes'])
    crs = gl.make_crs(m, kw)
    n = s['n']
    nc = n[0] * n[1] * n[2]
    rh_xyz = (spec['axes'] == 'easting northing') != spec['down']
    cp, active, defined, _ = gl.corner_model(s)
    if spec['cls'] == 'regular':
        g = grr.RegularGrid(m, extent_kji = tuple(n), dxyz = tuple(s['d']), origin = tuple(s['o']), crs_uuid = crs.uuid, title = 'ijk', as_irregular_grid = True)
        g.write_hdf5()
        g.create_xml()
        active = defined = np.ones(n, dtype = bool)
    else:
        lf = gl.handedness(s, spec['down'])
        if spec['axes'] != 'easting northing':
            lf = 'left' if lf == 'right' else 'right'
        g = gl.build(m, s, crs.uuid, ijk_handedness = lf)
        g.title = 'ijk'
        gl.store(g, 'ijk')
    if nc > 1:
        ctx.nontrivial()
    ts = rts.TimeSeries(m, first_timestamp = '2020-01-01', title = 'ts')
    ts.extend_by_days(30)
    ts.create_xml()
    sl = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale', 2: 'coal'}, title = 'facies')
    sl.create_xml()
    vals = {}
    for q, p in enumerate(spec['props']):
        rng = np.random.default_rng(p['seed'])
        t = f'p{q}'
        f = p['form']
        base = dict(source_info = 'gen', keyword = t, support_uuid = g.uuid)
        a = np.round(rng.uniform(0.0, 9.0, n), 3)
        di = rng.integers(0, 3, n)
        if f == 'cont':
            args = dict(cached_array = a, property_kind = 'porosity', uom = 'm3/m3')
        elif f == 'disc':
            a = di
            args = dict(cached_array = di, property_kind = 'index', discrete = True, null_value = -5)
        elif f == 'cat':
            a = di
            args = dict(cached_array = di, property_kind = 'facies', discrete = True, string_lookup_uuid = sl.uuid)
        elif f == 'count':
            a = np.round(rng.uniform(0.0, 9.0, tuple(n) + (3,)), 3)
            args = dict(cached_array = a, property_kind = 'continuous', uom = 'm', count = 3)
        elif f == 'const':
            a = np.full(n, 0.25)
            args = dict(cached_array = None, property_kind = 'porosity', uom = 'm3/m3', const_value = 0.25)
        elif f == 'time':
            args = dict(cached_array = a, property_kind = 'pressure', uom = 'bar', time_series_uuid = ts.uuid, time_index = 1)
        elif f == 'facet':
            args = dict(cached_array = a, property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = 'K')
        elif f == 'real':
            args = dict(cached_array = a, property_kind = 'depth', uom = 'm', realization = 4)
        elif f == 'bool':
            a = rng.random(n) < 0.5
            args = dict(cached_array = a, property_kind = 'discrete', discrete = True)
        elif f == 'points':
            a = np.round(rng.uniform(0.0, 9.0, tuple(n) + (3,)), 3)
            args = dict(cached_array = a, property_kind = 'length', uom = 'm', points = True)
        else:
            shape = {'nodes': (n[0] + 1, n[1] + 1, n[2] + 1), 'layers': (n[0],), 'columns': (n[1], n[2]), 'faces': tuple(n) + (6,)}[f]
            a = np.round(rng.uniform(0.0, 9.0, shape), 3)
            args = dict(cached_array = a, property_kind = 'continuous', uom = 'm', indexable_element = {'faces': 'faces per cell'}.get(f, f))
        rqp.Property.from_array(m, **args, **base)
        vals[t] = (f, a)
    kw = {}
    if spec['active'] is not None:
        kw['write_active'] = spec['active']
    source = grr.Grid(m, uuid = g.uuid)
    h = rug.HexaGrid.from_unsplit_grid(m, g.uuid, inherit_properties = spec['inherit'], title = spec['title'], extra_metadata = {'a': 'b'}, **kw)
    eq(h.title, spec['title'] or 'ijk', 'title')
    pts = source.points_ref(masked = False).reshape(-1, 3)
    # volumes of corner point grids are only available for this order of axes
    vol = source.volume() if not np.any(np.isnan(pts)) and spec['axes'] == 'easting northing' else None
    m.store_epc()
    m = ctx.reopen(m)
    f = rug.HexaGrid(m, uuid = h.uuid)
    source = grr.Grid(m, uuid = g.uuid)
    eq(f.extra_metadata.get('a'), 'b', 'extra metadata')
    eq(f.cell_count, nc, 'cell count')
    eq(f.face_count, (n[0] + 1) * n[1] * n[2] + n[0] * (n[1] + 1) * n[2] + n[0] * n[1] * (n[2] + 1), 'face count')
    arr_close(f.points_ref(), pts, 0.0, 'nodes')
    arr_close(h.points_ref(), pts, 0.0, 'nodes of the grid in memory')
    f.check_hexahedral()
    f.check_indices()
    eq(len(f.external_face_indices()), 2 * (n[0] * n[1] + n[0] * n[2] + n[1] * n[2]), 'number of external faces')
    flat = active.flatten()
    # cells, faces and handedness
    cpf = f.set_cells_per_face()
    unit = METRE[spec['z'] or spec['xy']] / METRE[spec['xy']]
    pinched = bool(s.get('pinch'))
    for c in range(nc):
        k, j, i = np.unravel_index(c, n)
        got = f.corner_points(c)
        if spec['cls'] == 'corner' and defined[k, j, i]:
            arr_close(got.reshape(2, 2, 2, 3), cp[k, j, i], 1e-6, f'corner points of cell {(k, j, i)}')
        arr_close(got.reshape(2, 2, 2, 3), source.corner_points((k, j, i)) if np.all(defined) else got.reshape(2, 2, 2, 3), 1e-9, f'corner points of cell {(k, j, i)} and of the source')
        faces, right = f.face_indices_and_handedness_for_cell(c)
        for q, (ax, pol) in enumerate([(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]):
            nb = [k, j, i]
            nb[ax] += 2 * pol - 1
            other = int(np.ravel_multi_index(nb, n)) if 0 <= nb[ax] < n[ax] else -1
            eq(sorted(int(x) for x in cpf[faces[q]]), sorted([c, other]), f'cells of face {q} of cell {c}')
            sl_ = [slice(None)] * 3
            sl_[ax] = pol
            want = got.reshape(2, 2, 2, 3)[tuple(sl_)].reshape(4, 3)
            nodes = f.node_indices_for_face(faces[q])
            fp = pts[nodes]
            eq(len(set(int(x) for x in nodes)), 4, 'distinct nodes of a face')
            eq(sorted(int(x) for x in nodes), sorted(int(x) for x in np.array(f.distinct_node_indices_for_cell(c)).reshape(2, 2, 2)[tuple(sl_)].flatten()), f'nodes of face {q} of cell {c}')
            if defined[k, j, i] and not pinched and not np.any(np.isnan(pts)):
                z = np.array([1.0, 1.0, unit])
                va = np.cross((fp[2] - fp[0]) * z, (fp[3] - fp[1]) * z)
                eq(bool(right[q]), bool((np.dot(va, (np.mean(fp, axis = 0) - np.mean(got, axis = 0)) * z) > 0.0) == rh_xyz), f'handedness of face {q} of cell {c}')
        if vol is not None and not pinched:
            arr_close(f.centre_point(c), np.mean(got, axis = 0), 1e-6, f'centre of cell {c}')
            v = float(f.volume(c))
            same = kw.get('xy', spec['xy']) == (spec['z'] or spec['xy'])
            close(v, float(vol[k, j, i]) if same else float(source.volume((k, j, i), required_uom = 'm3')), 1e-6, f'volume of cell {c}', 2e-3 if 'noise' in s or 'tilt' in s else 1e-6)
    inherit_active = spec['inherit'] or spec['active'] is True
    if not flat.all() and (inherit_active or (spec['active'] is None and h.inactive is not None and not h.inactive.all())):
        want = ~flat
        got = f.extract_inactive_mask()
        if spec['inherit'] or h.inactive is not None:
            arr_eq(got, want, 'inactive cells')
    elif flat.all():
        ok(not np.any(f.extract_inactive_mask()), 'inactive cells where there were none')
    pc = f.extract_property_collection()
    if not spec['inherit']:
        ok(pc is None or all(pc.citation_title_for_part(p) == 'ACTIVE' for p in pc.parts()), 'properties not asked for')
        return
    spc = source.extract_property_collection()
    for t, (form, a) in vals.items():
        part = pc.singleton(citation_title = t)
        if form in ('layers', 'columns', 'faces'):
            if part is None:
                continue
        if form == 'nodes' and part is None:
            continue
        ok(part is not None, f'no {form} property on the hexahedral grid')
        sp = spc.singleton(citation_title = t)
        for what in ('continuous', 'uom', 'time_index', 'null_value', 'property_kind', 'facet_type', 'facet', 'realization', 'indexable', 'count', 'constant_value', 'string_lookup_uuid', 'points', 'title'):
            fn = {'string_lookup_uuid': 'string_lookup_uuid_for_part', 'points': 'points_for_part', 'title': 'citation_title_for_part'}.get(what, what + '_for_part')
            x, y = getattr(pc, fn)(part), getattr(spc, fn)(sp)
            ok(str(x) == str(y), f'{what} of an inherited {form} property: {x!r}, was {y!r}')
        eq(str(pc.time_series_uuid_for_part(part)), str(spc.time_series_uuid_for_part(sp)), 'time series of an inherited property')
        got = pc.cached_part_array_ref(part)
        want = a.reshape((nc,) + a.shape[3:]) if form not in ('layers', 'columns', 'nodes', 'faces') else a.flatten() if form in ('nodes',) else a.reshape(-1)
        if form == 'bool':
            got = got.astype(bool)
        arr_close(np.array(got, dtype = float).flatten(), np.array(want, dtype = float).flatten(), 1e-6, f'values of an inherited {form} property')
        if form not in ('layers', 'columns', 'faces'):
            eq(tuple(got.shape), tuple(want.shape), f'shape of an inherited {form} property')
    # the source is as it was
    for t, (form, a) in vals.items():
        sp = spc.singleton(citation_title = t)
        arr_close(np.array(spc.cached_part_array_ref(sp), dtype = float).flatten(), np.array(a, dtype = float).flatten(), 1e-6, 'values of a property of the source')


def plane_surface(m, crs, z, grad, sgn, title, ref = (0.0, 0.0)):
    big = np.array([(-411.0, -387.0), (419.0, -403.0), (431.0, 417.0), (-397.0, 409.0)]) + np.array(ref)
    sp = np.concatenate((big, sgn * (z + (big - np.array(ref)) @ grad).reshape(-1, 1)), axis = 1)
    s = rqs.Surface(m, crs_uuid = crs.uuid, title = title)
    s.set_from_triangles_and_points(np.array([(0, 1, 2), (0, 2, 3)]), sp)
    return s


VP = st.fixed_dictionaries(dict(nx = st.integers(1, 3), ny = st.integers(1, 3), drop = st.sampled_from([0.0, 0.3]), seed = seeds, dz = st.lists(st.sampled_from([2.0, 5.0, 20.0]), min_size = 1, max_size = 3), dip = st.sampled_from(['none', 'all', 'each']), down = st.booleans(), u = st.sampled_from(['m', 'ft']), z = st.sampled_from(['', 'm', 'ft']), dim = st.sampled_from([2, 3]),
                                    source = st.sampled_from(['args', 'top', 'top', 'seeds']), part = st.sampled_from([None, None, None, 1]), stored = st.booleans(), extra = st.booleans()))


@check('vertical', VP, quick = 200, thorough = 6000, shards = 2, rule = 'more than one column')
def vertical(spec, ctx):
    rng = np.random.default_rng(spec['seed'])
    m = ctx.new_model()
    zu = spec['z'] or spec['u']
    crs = rqc.Crs(m, xy_units = spec['u'], z_units = zu, z_inc_down = spec['down'])
    crs.create_xml()
    nx, ny = spec['nx'], spec['ny']
    sgn = 1.0 if spec['down'] else -1.0
    x, y = np.meshgrid(np.arange(nx + 1) * 10.0, np.arange(ny + 1) * 8.0)
    p = np.stack((x.flatten(), y.flatten()), axis = -1)
    p += np.round(rng.uniform(-2.0, 2.0, p.shape), 2)
    t = []
    for j in range(ny):
        for i in range(nx):
            q = [j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i]
            r = int(rng.integers(0, 2))
            q = q[r:] + q[:r]
            for tri in ([q[0], q[1], q[2]], [q[0], q[2], q[3]]):
                r = int(rng.integers(0, 3))
                tri = tri[r:] + tri[:r]
                t.append(tri[::-1] if rng.random() < 0.5 else tri)
    t = [x for x in t if rng.random() >= spec['drop']] or t[:1]
    rng.shuffle(t)
    t = np.array(t)
    planes, surfs = [], []
    z, grad = 1000.0, np.zeros(2)
    for q, dz in enumerate([0.0] + list(spec['dz'])):
        z += dz
        if spec['dip'] == 'all' and q == 0:
            grad = np.array([0.1, -0.05])
        elif spec['dip'] == 'each':
            grad = np.round(rng.uniform(-0.01, 0.01, 2), 3)
        planes.append((z, grad))
        surfs.append(plane_surface(m, crs, z, grad, sgn, f's{q}'))
    nk = len(spec['dz'])
    covered = None
    if spec['part'] is not None and nk >= spec['part']:
        # one of the surfaces covers only part of the area: beyond it the nodes are those of the surface above
        zz, gr = planes[spec['part']]
        half = np.array([(-211.0, -187.0), (10.03, -203.0), (10.03, 217.0), (-197.0, 209.0)])
        s = rqs.Surface(m, crs_uuid = crs.uuid, title = 'part')
        s.set_from_triangles_and_points(np.array([(0, 1, 2), (0, 2, 3)]), np.concatenate((half, sgn * (zz + half @ gr).reshape(-1, 1)), axis = 1))
        surfs[spec['part']] = s
        covered = 10.03
    kw = dict(title = 'vpg', extra_metadata = {'own': 'thing'} if spec['extra'] else {})
    src = spec['source']
    tops = None
    if src == 'top':
        used = sorted({int(x) for x in t.flatten()})
        pz = sgn * (1000.0 + np.round(rng.uniform(-0.5, 0.5, len(p)), 2))
        s = rqs.Surface(m, crs_uuid = crs.uuid, title = 'top')
        new = {o: x for x, o in enumerate(used)}
        p, tops = p[used], pz[used]
        t = np.array([[new[int(x)] for x in r] for r in t])
        s.set_from_triangles_and_points(t, np.concatenate((p, tops.reshape(-1, 1)), axis = 1))
        surfs[0] = s
        g = rug.VerticalPrismGrid.from_surfaces(m, surfs, **kw)
    elif src == 'args':
        cp = p if spec['dim'] == 2 else np.concatenate((p, np.zeros((len(p), 1))), axis = 1)
        keep_p, keep_t = cp.copy(), t.copy()
        g = rug.VerticalPrismGrid.from_surfaces(m, surfs, column_points = cp, column_triangles = t, **kw)
        arr_eq(cp, keep_p, 'column points passed as argument')
        arr_eq(t, keep_t, 'column triangles passed as argument')
    else:
        box = np.array([(-20.0, -20.0, 0.0), (10.0 * nx + 20.0, -23.0, 0.0), (10.0 * nx + 25.0, 8.0 * ny + 20.0, 0.0), (-24.0, 8.0 * ny + 21.0, 0.0)])
        aoi = rql.Polyline(m, set_coord = box[::-1].copy(), set_bool = True, set_crs = crs.uuid, title = 'aoi')
        seeds_xy = p if spec['dim'] == 2 else np.concatenate((p, np.full((len(p), 1), 5.0)), axis = 1)
        g = rug.VerticalPrismGrid.from_seed_points_and_surfaces(m, seeds_xy, surfs, aoi, **kw)
        n = g.node_count // (nk + 1)
        q = g.points_ref()[:n, :2]
        tt = g.triangulation()
        arr_close(q[:len(p)] if False else np.array(sorted(map(tuple, np.round(p, 6)))), np.array(sorted(tuple(np.round(q[int(np.argmin(np.linalg.norm(q - x, axis = 1)))], 6)) for x in p)), 1e-5, 'seed points among the nodes')
        # columns tile the area of interest, each triangle being nearest to its own seed
        area = 0.0
        for r in tt:
            a, b, c = q[r]
            w = 0.5 * abs(float(np.cross(b - a, c - a)))
            ok(w > 0.0, 'column of no area')
            area += w
            cen = (a + b + c) / 3.0
            own = [x for x in range(len(p)) if any(np.linalg.norm(q[y] - p[x]) < 1e-5 for y in r)]
            ok(len(own) == 1, 'column which does not have one seed point as a node')
            dist = np.linalg.norm(p - cen, axis = 1)
            ok(dist[own[0]] <= np.min(dist) + 1e-5, 'column nearer to another seed point than its own')
        ba = 0.5 * abs(sum(box[x - 1][0] * box[x][1] - box[x][0] * box[x - 1][1] for x in range(4)))
        close(area, ba, 0.0, 'area of the columns and of the area of interest', 1e-6)
        p, t = q.copy(), tt.copy()
    ncol = len(t)
    if ncol > 1:
        ctx.nontrivial()
    ctx.label(src)
    depth = [planes[0][0] + p @ planes[0][1] if tops is None else sgn * tops]
    for q, (zz, gr) in enumerate(planes[1:], start = 1):
        zq = zz + p @ gr
        if covered is not None and q == spec['part']:
            zq = np.where(p[:, 0] <= covered, zq, depth[-1])
        depth.append(zq)
    depth = np.array(depth)
    if covered is not None and np.any(np.abs(p[:, 0] - covered) < 1e-3):
        return
    pts = np.zeros((nk + 1, len(p), 3))
    pts[:, :, :2] = p
    pts[:, :, 2] = sgn * depth
    used = np.zeros(len(p), dtype = bool)
    used[t.flatten()] = True
    for again in range(2 if spec['stored'] else 1):
        if again:
            g.write_hdf5()
            g.create_xml()
            m.store_epc()
            m = ctx.reopen(m)
            g = rug.VerticalPrismGrid(m, uuid = g.uuid)
            if spec['extra']:
                eq(g.extra_metadata.get('own'), 'thing', 'extra metadata')
        c0 = int(rng.integers(0, ncol * nk))
        k, col = divmod(c0, ncol)
        want = pts[k:k + 2][:, t[col]]
        if again:
            arr_close(g.corner_points(c0), want, 1e-6, 'corner points of a cell of a grid just loaded')
        eq((g.nk, g.cell_count, g.column_count(), g.node_count), (nk, nk * ncol, ncol, (nk + 1) * len(p)), 'layers, cells, columns and nodes')
        got = g.points_ref().reshape(nk + 1, -1, 3)
        arr_close(got[:, used], pts[:, used], 1e-6, 'points of the vertical prisms')
        arr_eq(g.triangulation(), t, 'triangulation')
        arr_eq(g.top_faces(), np.arange(ncol), 'top faces')
        g.check_prism()
        g.check_indices()
        arr_close(g.corner_points(c0), want, 1e-6, 'corner points of a cell')
        all_cp = np.array([pts[c // ncol:c // ncol + 2][:, t[c % ncol]] for c in range(nk * ncol)])
        thick = np.mean(sgn * (all_cp[:, 1, :, 2] - all_cp[:, 0, :, 2]), axis = 1)
        close(float(g.thickness(c0)), thick[c0], 1e-6, 'thickness of a cell')
        arr_close(np.array(g.cell_centre_point(c0)).reshape(3), np.mean(all_cp[c0].reshape(6, 3), axis = 0), 1e-6, 'centre of a cell')
        eq(np.array(g.cell_centre_point(c0)).shape, (3,), 'shape of the centre of a cell')
        eq(np.array(g.centre_point(c0)).shape, (3,), 'shape of the centre point of a cell')
        arr_close(g.cell_centre_point(), np.mean(all_cp.reshape(-1, 6, 3), axis = 1), 1e-6, 'centres of all cells')
        arr_close(g.corner_points(), all_cp, 1e-6, 'corner points of all cells')
        arr_close(g.thickness(), thick, 1e-6, 'thickness of all cells')
        arr_close(g.corner_points(c0), want, 1e-6, 'corner points of a cell, after caching')
        close(float(g.thickness(c0)), thick[c0], 1e-6, 'thickness of a cell, after caching')
        arr_close(g.centre_point(), np.mean(all_cp.reshape(-1, 6, 3), axis = 1), 1e-6, 'centre points')
        arr_close(g.centre_point(c0), np.mean(all_cp[c0].reshape(6, 3), axis = 0), 1e-6, 'centre point after caching')
        cpf = g.set_cells_per_face()
        edges = {tuple(sorted((int(r[x - 1]), int(r[x])))) for r in t for x in range(3)}
        eq(g.face_count, ncol * (nk + 1) + len(edges) * nk, 'face count')
        for c in range(nk * ncol):
            k, col = divmod(c, ncol)
            faces = g.face_indices_for_cell(c)
            base = [int(x) for x in t[col]]
            want_n = [sorted(x + k * len(p) for x in base), sorted(x + (k + 1) * len(p) for x in base)]
            eq([sorted(int(x) for x in g.node_indices_for_face(f)) for f in faces[:2]], want_n, f'nodes of top and base of cell {c}')
            for e, f in enumerate(faces[2:]):
                a, b = base[e - 1], base[e]
                nodes = [int(x) for x in g.node_indices_for_face(f)]
                eq(sorted(nodes), sorted([a + k * len(p), b + k * len(p), a + (k + 1) * len(p), b + (k + 1) * len(p)]), f'nodes of side {e} of cell {c}')
                cyc = [x % len(p) for x in nodes]
                ok((cyc[0] == cyc[3] and cyc[1] == cyc[2]) or (cyc[0] == cyc[1] and cyc[2] == cyc[3]), f'nodes of side {e} of cell {c} not in cyclic order')
                nb = [q for q in range(ncol) if q != col and {a, b} <= set(int(x) for x in t[q])]
                eq(sorted(int(x) for x in cpf[f]), sorted([c] + ([nb[0] + k * ncol] if nb else [-1])), f'cells of side {e} of cell {c}')
            eq(sorted(int(x) for x in cpf[faces[0]]), sorted([c, c - ncol if k else -1]), f'cells of the top of cell {c}')
        if covered is None and float(np.min(np.diff(depth[:, used], axis = 0))) > 0.5:
            cube = 1.0 if spec['u'] == zu else METRE[spec['u']]**2 * METRE[zu]
            for c in {0, c0, nk * ncol - 1}:
                q = all_cp[c]
                h = np.abs(q[1, :, 2] - q[0, :, 2])
                if np.linalg.norm(q[0, 0, :2] - q[0, 1, :2]) < 0.5 or np.linalg.norm(q[0, 2, :2] - q[0, 1, :2]) < 0.5 or np.linalg.norm(q[0, 0, :2] - q[0, 2, :2]) < 0.5:
                    continue
                ar = 0.5 * abs(float(np.cross(q[0, 1, :2] - q[0, 0, :2], q[0, 2, :2] - q[0, 0, :2])))
                close(float(g.volume(c)), ar * float(np.mean(h)) * cube, 1e-6, f'volume of cell {c}', 1e-5)
