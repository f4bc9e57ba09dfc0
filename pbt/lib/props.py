"""Supporting representations of many classes with their element counts worked out independently, and property specifications for them."""
import numpy as np

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.fault as rqf
import resqpy.grid as grr
import resqpy.lines as rql
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.time_series as rts
import resqpy.unstructured as rug
import resqpy.weights_and_measures as wam
import resqpy.well as rqw

from pbt.core import *
from pbt.lib.gen import *

SUPPORTS = ['grid', 'grid', 'grid', 'grid', 'irregular', 'split', 'points', 'surface', 'mesh', 'polyline', 'polyline_set', 'frame', 'marker_frame', 'blocked_well', 'gcs', 'tetra']
DIMS = st.lists(st.integers(1, 4), min_size = 3, max_size = 3)


def tetra(m, crs, n, title):
    """n tetrahedra sharing one base triangle pairwise chain (a fan): cell i uses nodes i, i+1, i+2, i+3 of a helix."""
    pts = np.array([[np.cos(1.3 * i) * 10, np.sin(1.3 * i) * 10, 4.0 * i] for i in range(n + 3)])
    faces, fpc, hand = {}, [], []
    for c in range(n):
        v = [c, c + 1, c + 2, c + 3]
        for k in range(4):
            f = tuple(v[:k] + v[k + 1:])
            fpc.append(faces.setdefault(f, len(faces)))
            a, b, d = (pts[x] for x in f)
            hand.append(bool(np.dot(np.cross(b - a, d - a), pts[v[k]] - a) > 0))
    g = rug.TetraGrid(m, title = title)
    g.crs_uuid = crs
    g.set_cell_count(n)
    g.face_count, g.node_count = len(faces), n + 3
    g.faces_per_cell = np.array(fpc, dtype = int)
    g.faces_per_cell_cl = 4 * (1 + np.arange(n))
    g.cell_face_is_right_handed = np.array(hand)
    g.nodes_per_face = np.array([x for f in faces for x in f], dtype = int)
    g.nodes_per_face_cl = 3 * (1 + np.arange(len(faces)))
    g.points_cached = pts
    g.write_hdf5()
    g.create_xml()
    return g


def grid_elements(nk, nj, ni, nodes = None):
    return {'cells': (nk, nj, ni), 'columns': (nj, ni), 'layers': (nk,), 'faces per cell': (nk, nj, ni, 6), 'edges per column': (nj, ni, 4), 'column edges': (nj * (ni + 1) + (nj + 1) * ni,), 'nodes per cell': (nk, nj, ni, 2, 2, 2),
            'nodes': nodes or (nk + 1, nj + 1, ni + 1), 'faces': ((nk + 1) * nj * ni + nk * (nj + 1) * ni + nk * nj * (ni + 1),), 'faces K': (nk + 1, nj, ni), 'faces J': (nk, nj + 1, ni), 'faces I': (nk, nj, ni + 1), 'J0': (nk, ni), 'I0': (nk, nj)}


def traj(m, crs, title = 'well'):
    d = rqw.MdDatum(m, crs_uuid = crs, location = (0.0, 0.0, 0.0), md_reference = 'kelly bushing', title = 'datum')
    d.create_xml()
    t = rqw.Trajectory(m, md_datum = d, mds = np.array([0.0, 100, 260]), control_points = np.array([[0.0, 0, 0], [0, 0, 100], [20, 5, 250]]), length_uom = 'm', well_name = title)
    t.write_hdf5()
    t.create_xml()
    return t


def make_support(m, kind, dims, seed = 0, title = None, inactive = None):
    """Returns (uuid, {element: shape}, default element, inactive mask or None); the object is written and added as a part."""
    rng = np.random.default_rng(seed)
    a, b, c = dims
    title = title or kind
    uu = m.uuid(obj_type = 'LocalDepth3dCrs')
    if uu is None:
        crs = rqc.Crs(m)
        crs.create_xml()
        uu = crs.uuid
    if kind in ('grid', 'irregular', 'split'):
        if kind == 'split':
            g = rug_split(m, uu, a, b, c, title)
        else:
            g = grr.RegularGrid(m, extent_kji = (a, b, c), dxyz = (10.0, 20.0, 5.0), crs_uuid = uu, title = title, as_irregular_grid = kind == 'irregular')
        if kind != 'grid':
            g.write_hdf5()
            g.create_xml(write_geometry = True, add_cell_length_properties = False)
        else:
            g.create_xml(add_cell_length_properties = False)
        mask = None
        if inactive is not None:
            mask = np.random.default_rng(inactive).random((a, b, c)) < 0.4
            rqp.write_hdf5_and_create_xml_for_active_property(m, np.logical_not(mask), g.uuid)
        nodes = None
        if kind == 'split' and g.has_split_coordinate_lines:
            nodes = (a + 1, (b + 1) * (c + 1) + g.split_pillars_count)
        return g.uuid, grid_elements(a, b, c, nodes), 'cells', mask
    n = a * b
    if kind == 'points':
        o = rqs.PointSet(m, points_array = rng.random((n, 3)), crs_uuid = uu, title = title)
        el, de = {'nodes': (n,)}, 'nodes'
    elif kind == 'surface':
        o = rqs.Surface(m, title = title, crs_uuid = uu)
        o.set_from_triangles_and_points(np.array([[i, i + 1, i + 2] for i in range(n)]), rng.random((n + 2, 3)))
        el, de = {'triangles': (n,), 'faces': (n,), 'nodes': (n + 2,)}, 'triangles'
    elif kind == 'mesh':
        o = rqs.Mesh(m, mesh_flavour = 'explicit', xyz_values = rng.random((a + 1, b + 1, 3)), crs_uuid = uu, title = title)
        el, de = {'cells': (a, b), 'columns': (a, b), 'nodes': (a + 1, b + 1)}, 'cells'
    elif kind == 'polyline':
        closed = bool(c % 2)
        o = rql.Polyline(m, set_bool = closed, set_coord = rng.random((n + 1, 3)), set_crs = uu, title = title)
        el, de = {'nodes': (n + 1,), 'intervals': (n + int(closed),)}, 'intervals'
    elif kind == 'polyline_set':
        flags = [[False] * b, [True] * b, [bool(i % 2) for i in range(b)]][c % 3]
        lines = [rql.Polyline(m, set_bool = f, set_coord = rng.random((2 + a + i, 3)), set_crs = uu, title = f'line {i}') for i, f in enumerate(flags)]
        o = rql.PolylineSet(m, polylines = lines, title = title)
        nn = sum(2 + a + i for i in range(b))
        el, de = {'nodes': (nn,), 'intervals': (nn - flags.count(False),)}, 'intervals'
    elif kind == 'frame':
        o = rqw.WellboreFrame(m, trajectory = traj(m, uu), mds = np.linspace(0.0, 250.0, n + 1), title = title)
        el, de = {'nodes': (n + 1,), 'intervals': (n,)}, 'nodes'
    elif kind == 'marker_frame':
        import pandas as pd
        t = traj(m, uu)
        df = pd.DataFrame({'MD': np.linspace(10.0, 250.0, n + 1), 'Boundary_Feature_Type': 'horizon', 'Marker_Citation_Title': [f'm{i}' for i in range(n + 1)], 'Interp_Citation_Title': None})
        o = rqw.WellboreMarkerFrame.from_dataframe(m, t.uuid, df, title = title)
        el, de = {'nodes': (n + 1,)}, 'nodes'
    elif kind == 'blocked_well':
        g = grr.RegularGrid(m, extent_kji = (a, b, c), dxyz = (10.0, 20.0, 5.0), crs_uuid = uu, title = 'grid of well')
        g.create_xml(add_cell_length_properties = False)
        o = rqw.BlockedWell(m, grid = g, column_ji0 = (b - 1, c - 1), well_name = title)
        o.write_hdf5()
        o.create_xml(create_for_trajectory_if_needed = True)
        return o.uuid, {'cells': (o.cell_count,), 'intervals': (o.node_count - 1,), 'nodes': (o.node_count,)}, 'cells', None
    elif kind == 'gcs':
        g = grr.RegularGrid(m, extent_kji = (a, b + 1, c), dxyz = (10.0, 20.0, 5.0), crs_uuid = uu, title = 'grid of faults')
        g.create_xml(add_cell_length_properties = False)
        f = np.zeros((a, b, c), dtype = bool)
        f[:, 0, :] = True
        o = rqf.GridConnectionSet(m, grid = g, j_faces = f, feature_name = title, create_organizing_objects_where_needed = True, title = title)
        el, de = {'faces': (a * c,)}, 'faces'
    elif kind == 'tetra':
        o = tetra(m, uu, n, title)
        return o.uuid, {'cells': (n,), 'nodes': (n + 3,), 'faces per cell': (4 * n,)}, 'cells', None
    else:
        raise ValueError(kind)
    o.write_hdf5()
    o.create_xml()
    return o.uuid, el, de, None


def rug_split(m, crs, nk, nj, ni, title):
    """A grid with a vertical fault of throw between two columns of cells (where there are two), made by shifting the points of an irregular grid."""
    import resqpy.grid as grr
    g = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = (10.0, 20.0, 5.0), crs_uuid = crs, title = title, as_irregular_grid = True)
    if ni < 2:
        return g
    p = np.empty((nk + 1, nj + 1, ni + 1, 3))
    k, j, i = np.indices((nk + 1, nj + 1, ni + 1))
    p[..., 0], p[..., 1], p[..., 2] = 10.0 * i, 20.0 * j, 5.0 * k
    prim = p.reshape((nk + 1, -1, 3))
    extra = p[:, :, 1, :].copy()  # pillar line i = 1 is split: the columns with i >= 1 use the extra pillars
    extra[..., 2] += 2.0
    g.points_cached = np.concatenate((prim, extra), axis = 1)
    g.has_split_coordinate_lines = True
    g.split_pillars_count = nj + 1
    g.split_pillar_indices_cached = np.array([jj * (ni + 1) + 1 for jj in range(nj + 1)], dtype = int)
    cols = []
    for jj in range(nj + 1):
        cols.append([q * ni + 1 for q in (jj - 1, jj) if 0 <= q < nj])
    g.cols_for_split_pillars = np.array([x for q in cols for x in q], dtype = int)
    g.cols_for_split_pillars_cl = np.cumsum([len(q) for q in cols])
    g.geometry_defined_for_all_cells_cached = True
    g.geometry_defined_for_all_pillars_cached = True
    g.grid_is_right_handed = True
    g.pillar_shape = 'straight'
    g.k_direction_is_down = True
    return g
