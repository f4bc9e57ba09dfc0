"""Adds objects of many RESQML classes to a model through the public API, and reads epc files independently of resqpy."""
import hashlib, io, re, zipfile

import numpy as np
from lxml import etree

from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.organize as rqo
import resqpy.strata as strata
import resqpy.time_series as rts
import resqpy.property as rqp
import resqpy.grid as grr
import resqpy.surface as rqs
import resqpy.lines as rql
import resqpy.well as rqw
import resqpy.fault as rqf
import resqpy.unstructured as rug

# class -> classes its adder refers to (made on demand if absent)
KINDS = {
    'crs': [], 'time_series': [], 'geo_time_series': [], 'string_lookup': [], 'property_kind': [], 'property_subkind': ['property_kind'],
    'org_feature': [], 'geobody_feature': [], 'boundary_feature': [], 'frontier_feature': [], 'geologic_unit_feature': [],
    'fluid_boundary_feature': [], 'tectonic_feature': [], 'genetic_feature': [], 'wellbore_feature': [],
    'rock_fluid_feature': ['fluid_boundary_feature'], 'strat_unit_feature': [],
    'fault_interp': ['tectonic_feature'], 'horizon_interp': ['genetic_feature'], 'wellbore_interp': ['wellbore_feature'],
    'earth_model_interp': ['org_feature'], 'geobody_interp': ['geobody_feature'],
    'geobody_boundary_interp': ['genetic_feature'], 'boundary_interp': ['boundary_feature'],
    'strat_unit_interp': ['strat_unit_feature'], 'geologic_unit_interp': ['geologic_unit_feature'],
    'strat_rank': ['org_feature', 'strat_unit_interp'], 'strat_column': ['strat_rank'],
    'regular_grid': ['crs'], 'irregular_grid': ['crs'], 'prism_grid': ['crs'],
    'continuous_prop': ['regular_grid'], 'discrete_prop': ['regular_grid'], 'categorical_prop': ['regular_grid', 'string_lookup'],
    'ts_prop': ['regular_grid', 'time_series'], 'points_prop': ['regular_grid'], 'kind_prop': ['regular_grid', 'property_kind'],
    'gcs': ['regular_grid'], 'point_set': ['crs'], 'surface': ['crs'], 'mesh': ['crs'], 'mesh_on_mesh': ['mesh'], 'tri_mesh': ['crs'],
    'polyline': ['crs'], 'polyline_set': ['crs'], 'surface_of_horizon': ['crs', 'horizon_interp'],
    'md_datum': ['crs'], 'trajectory': ['md_datum'], 'deviation': ['md_datum'], 'frame': ['trajectory'], 'marker_frame': ['trajectory'],
    'traj_of_interp': ['md_datum', 'wellbore_interp'], 'frame_prop': ['frame'], 'blocked_well': ['regular_grid', 'trajectory'],
}

# classes for which the library's own consolidation defines equivalence
CHEAP = ['crs', 'time_series', 'string_lookup', 'property_kind', 'property_subkind', 'org_feature', 'geobody_feature', 'boundary_feature',
         'frontier_feature', 'geologic_unit_feature', 'fluid_boundary_feature', 'tectonic_feature', 'genetic_feature', 'wellbore_feature',
         'rock_fluid_feature', 'strat_unit_feature', 'fault_interp', 'horizon_interp', 'wellbore_interp', 'earth_model_interp',
         'geobody_interp', 'geobody_boundary_interp', 'boundary_interp', 'strat_unit_interp', 'geologic_unit_interp', 'strat_rank', 'strat_column', 'geo_time_series']

XML_TEXT = st.text(st.one_of(st.sampled_from('abcXYZ019 _-<>&"\'/\\;:%#@!?()[]{}=+*,.|~^'), st.sampled_from('éñøÅßŽ中文字漢Ωπ√😀é'), st.characters(min_codepoint = 33, max_codepoint = 0x2FF, blacklist_categories = ('Cc', 'Cs'))),
                   min_size = 1, max_size = 14).map(lambda s: s.strip()).filter(lambda s: len(s) > 0)
PLAIN = st.text('abcABC123 _', min_size = 1, max_size = 8).map(str.strip).filter(bool)
TITLES = st.one_of(PLAIN, XML_TEXT)
EXTRA = st.dictionaries(st.one_of(PLAIN, XML_TEXT), st.one_of(PLAIN, XML_TEXT), max_size = 3)


def rng_of(k):
    return np.random.default_rng(int(k))


class Zoo:
    """Pool of objects made so far in one model, per kind; every choice is a function of the integer k of the operation."""

    def __init__(self, model, reuse = False):
        self.model = model
        self.reuse = reuse  # if False, a new object is added even where an equivalent one is present
        self.pool = {}     # kind -> list of uuids (str)
        self.by_uuid = {}  # uuid str -> (kind, title, extra)
        self.n = 0

    def forget(self, uuid):
        uuid = str(uuid)
        for v in self.pool.values():
            if uuid in v:
                v.remove(uuid)
        self.by_uuid.pop(uuid, None)

    def pick(self, kind, k, also = ()):
        kinds = [kind] + list(also)
        options = [u for q in kinds for u in self.pool.get(q, [])]
        if not options:
            self.add(kind, k * 7 + 1)
            options = self.pool[kind]
        return options[k % len(options)]

    def add(self, kind, k, title = None, extra = None):
        """Returns list of uuids (str) added for the operation: the last is for the object asked for."""
        k = int(k)
        extra = dict(extra or {})
        rng = rng_of(k + 1000)
        needs = {q: self.pick(q, k + i) for i, q in enumerate(KINDS[kind])}
        self.n += 1
        t = title if title is not None else f'{kind} {k % 4}'
        before = set(self.model.uuid_part_dict)
        obj = getattr(self, '_' + kind)(k, rng, t, extra, needs)
        uuid = str(obj.uuid)
        assert self.model.part_for_uuid(uuid) is not None, f'{kind} added no part'
        if uuid not in self.pool.setdefault(kind, []):
            self.pool[kind].append(uuid)
        self.by_uuid[uuid] = (kind, t, extra)
        for i in set(self.model.uuid_part_dict) - before:
            import uuid as _u
            s = str(_u.UUID(int = i))
            self.by_uuid.setdefault(s, (None, None, None))
        return uuid

    # each adder returns the resqpy object, after writing arrays and xml

    def _xml(self, obj, **kw):
        if hasattr(obj, 'write_hdf5') and kw.pop('h5', True):
            obj.write_hdf5()
        kw.pop('h5', None)
        if not self.reuse and 'reuse' in obj.create_xml.__code__.co_varnames:
            kw['reuse'] = False
        obj.create_xml(**kw)
        return obj

    def _crs(self, k, rng, t, x, n):
        return self._xml(rqc.Crs(self.model, x_offset = float(k % 3) * 100.0, y_offset = float(k % 2) * 10.0, z_inc_down = bool(k % 5), xy_units = 'm', z_units = ['m', 'ft'][k % 7 == 0], rotation = 0.25 * (k % 2), title = t, extra_metadata = x))

    def _time_series(self, k, rng, t, x, n):
        ts = rts.TimeSeries(self.model, first_timestamp = f'200{k % 3}-01-01', yearly = 2 + k % 2, title = t, extra_metadata = x)
        return self._xml(ts)

    def _geo_time_series(self, k, rng, t, x, n):
        ts = rts.GeologicTimeSeries.from_year_list(self.model, [-1000 * (i + 1 + k % 3) for i in range(3)], title = t)
        if x:
            ts.extra_metadata = x
        return self._xml(ts)

    def _string_lookup(self, k, rng, t, x, n):
        return self._xml(rqp.StringLookup(self.model, int_to_str_dict = {0: 'zero', 1: 'one <&>', 2: f'two {k % 2}'}, title = t, extra_metadata = x))

    def _property_kind(self, k, rng, t, x, n):
        return self._xml(rqp.PropertyKind(self.model, title = t, example_uom = ['m', 'm3'][k % 2], parent_property_kind = ['length', 'volume'][k % 2], extra_metadata = x))

    def _property_subkind(self, k, rng, t, x, n):
        return self._xml(rqp.PropertyKind(self.model, title = t, parent_property_kind = self.model.title(uuid = n['property_kind']), example_uom = 'm', extra_metadata = x))

    def _org_feature(self, k, rng, t, x, n):
        return self._xml(rqo.OrganizationFeature(self.model, feature_name = t, organization_kind = ['earth model', 'stratigraphic', 'structural', 'fluid'][k % 4], extra_metadata = x))

    def _geobody_feature(self, k, rng, t, x, n):
        return self._xml(rqo.GeobodyFeature(self.model, feature_name = t, extra_metadata = x))

    def _boundary_feature(self, k, rng, t, x, n):
        return self._xml(rqo.BoundaryFeature(self.model, feature_name = t, extra_metadata = x))

    def _frontier_feature(self, k, rng, t, x, n):
        return self._xml(rqo.FrontierFeature(self.model, feature_name = t, extra_metadata = x))

    def _geologic_unit_feature(self, k, rng, t, x, n):
        return self._xml(rqo.GeologicUnitFeature(self.model, feature_name = t, extra_metadata = x))

    def _strat_unit_feature(self, k, rng, t, x, n):
        return self._xml(strata.StratigraphicUnitFeature(self.model, title = t, extra_metadata = x))

    def _fluid_boundary_feature(self, k, rng, t, x, n):
        return self._xml(rqo.FluidBoundaryFeature(self.model, kind = ['gas oil contact', 'water oil contact'][k % 2], feature_name = t, extra_metadata = x))

    def _tectonic_feature(self, k, rng, t, x, n):
        return self._xml(rqo.TectonicBoundaryFeature(self.model, kind = ['fault', 'fracture'][k % 4 == 3], feature_name = t, extra_metadata = x))

    def _genetic_feature(self, k, rng, t, x, n):
        return self._xml(rqo.GeneticBoundaryFeature(self.model, kind = ['horizon', 'geobody boundary'][k % 2], feature_name = t, extra_metadata = x))

    def _wellbore_feature(self, k, rng, t, x, n):
        return self._xml(rqo.WellboreFeature(self.model, feature_name = t, extra_metadata = x))

    def _rock_fluid_feature(self, k, rng, t, x, n):
        top = rqo.FluidBoundaryFeature(self.model, uuid = n['fluid_boundary_feature'])
        base = rqo.FluidBoundaryFeature(self.model, uuid = self.pick('fluid_boundary_feature', k // 2))
        return self._xml(rqo.RockFluidUnitFeature(self.model, phase = ['oil column', 'gas cap'][k % 2], feature_name = t, top_boundary_feature = top, base_boundary_feature = base, extra_metadata = x))

    def _fault_interp(self, k, rng, t, x, n):
        return self._xml(rqo.FaultInterpretation(self.model, title = t, tectonic_boundary_feature = rqo.TectonicBoundaryFeature(self.model, uuid = n['tectonic_feature']), is_normal = bool(k % 2), is_listric = [False, None][k % 2], maximum_throw = 3.5 * (k % 3), extra_metadata = x))

    def _horizon_interp(self, k, rng, t, x, n):
        return self._xml(rqo.HorizonInterpretation(self.model, title = t, genetic_boundary_feature = rqo.GeneticBoundaryFeature(self.model, uuid = n['genetic_feature']), extra_metadata = x))

    def _geobody_boundary_interp(self, k, rng, t, x, n):
        return self._xml(rqo.GeobodyBoundaryInterpretation(self.model, title = t, genetic_boundary_feature = rqo.GeneticBoundaryFeature(self.model, uuid = n['genetic_feature']), extra_metadata = x))

    def _geobody_interp(self, k, rng, t, x, n):
        return self._xml(rqo.GeobodyInterpretation(self.model, title = t, geobody_feature = rqo.GeobodyFeature(self.model, uuid = n['geobody_feature']), extra_metadata = x))

    def _boundary_interp(self, k, rng, t, x, n):
        return self._xml(rqo.BoundaryFeatureInterpretation(self.model, title = t, boundary_feature = rqo.BoundaryFeature(self.model, uuid = n['boundary_feature']), extra_metadata = x))

    def _wellbore_interp(self, k, rng, t, x, n):
        return self._xml(rqo.WellboreInterpretation(self.model, title = t, wellbore_feature = rqo.WellboreFeature(self.model, uuid = n['wellbore_feature']), is_drilled = bool(k % 2), extra_metadata = x))

    def _earth_model_interp(self, k, rng, t, x, n):
        return self._xml(rqo.EarthModelInterpretation(self.model, title = t, organization_feature = rqo.OrganizationFeature(self.model, uuid = n['org_feature']), extra_metadata = x))

    def _strat_unit_interp(self, k, rng, t, x, n):
        return self._xml(strata.StratigraphicUnitInterpretation(self.model, title = t, stratigraphic_unit_feature = strata.StratigraphicUnitFeature(self.model, uuid = n['strat_unit_feature']), extra_metadata = x))

    def _geologic_unit_interp(self, k, rng, t, x, n):
        return self._xml(strata.GeologicUnitInterpretation(self.model, title = t, geologic_unit_feature = rqo.GeologicUnitFeature(self.model, uuid = n['geologic_unit_feature']), extra_metadata = x))

    def _strat_rank(self, k, rng, t, x, n):
        units = [n['strat_unit_interp']]
        other = self.pick('strat_unit_interp', k // 3)
        if other not in units:
            units.append(other)
        rank = strata.StratigraphicColumnRank(self.model, rank_index = k % 3, earth_model_feature_uuid = n['org_feature'], strata_uuid_list = units, title = t, extra_metadata = x)
        rank.set_contacts_from_horizons = getattr(rank, 'set_contacts_from_horizons', None)
        return self._xml(rank)

    def _strat_column(self, k, rng, t, x, n):
        return self._xml(strata.StratigraphicColumn(self.model, rank_uuid_list = [n['strat_rank']], title = t, extra_metadata = x))

    def _regular_grid(self, k, rng, t, x, n):
        g = grr.RegularGrid(self.model, extent_kji = (1 + k % 2, 2, 1 + k % 3), dxyz = (10.0, 20.0, 5.0), origin = (100.0 * (k % 2), 50.0, 1000.0), crs_uuid = n['crs'], title = t, extra_metadata = x)
        g.create_xml()
        return g

    def _irregular_grid(self, k, rng, t, x, n):
        g = grr.RegularGrid(self.model, extent_kji = (2, 2, 1 + k % 2), dxyz = (10.0, 20.0, 5.0), crs_uuid = n['crs'], title = t, as_irregular_grid = True, extra_metadata = x)
        g.write_hdf5()
        g.create_xml(write_geometry = True)
        return g

    def _prism_grid(self, k, rng, t, x, n):
        # a tetrahedral grid of one cell
        g = rug.TetraGrid(self.model, title = t, extra_metadata = x)
        g.crs_uuid = self.model.part_for_uuid(n['crs']) and _uuid(n['crs'])
        g.set_cell_count(1)
        g.face_count, g.node_count = 4, 4
        g.faces_per_cell = np.arange(4, dtype = int)
        g.faces_per_cell_cl = np.array([4], dtype = int)
        g.cell_face_is_right_handed = np.array([False, True, True, True])
        g.nodes_per_face = np.array([0, 1, 2, 0, 3, 1, 1, 3, 2, 2, 3, 0], dtype = int)
        g.nodes_per_face_cl = np.array([3, 6, 9, 12], dtype = int)
        g.points_cached = np.array([[0.0, 0.0, 0.0], [10.0, 0.0, 0.0], [0.0, 10.0, 0.0], [0.0, 0.0, 10.0 + k % 3]])
        g.write_hdf5()
        g.create_xml()
        return g

    def _prop(self, k, t, x, array, n, **kw):
        p = rqp.Property.from_array(self.model, array, source_info = 'zoo', keyword = t, support_uuid = n.pop('_support', None) or n['regular_grid'], extra_metadata = x, **kw)
        return p

    def _cells(self, n):
        return tuple(grr.any_grid(self.model, uuid = n['regular_grid'], find_properties = False).extent_kji)

    def _continuous_prop(self, k, rng, t, x, n):
        return self._prop(k, t, x, rng.random(self._cells(n)), n, property_kind = ['porosity', 'net to gross ratio'][k % 2], indexable_element = 'cells', uom = 'm3/m3', realization = [None, 0, 3][k % 3])

    def _discrete_prop(self, k, rng, t, x, n):
        return self._prop(k, t, x, rng.integers(-1, 5, self._cells(n)), n, property_kind = 'discrete', indexable_element = 'cells', discrete = True, null_value = -1, facet_type = ['what', None][k % 2], facet = ['pink', None][k % 2])

    def _categorical_prop(self, k, rng, t, x, n):
        return self._prop(k, t, x, rng.integers(0, 3, self._cells(n)), n, property_kind = 'facies', indexable_element = 'cells', discrete = True, string_lookup_uuid = n['string_lookup'])

    def _ts_prop(self, k, rng, t, x, n):
        return self._prop(k, t, x, rng.random(self._cells(n)), n, property_kind = 'pressure', indexable_element = 'cells', uom = 'kPa', time_series_uuid = n['time_series'], time_index = k % 2)

    def _points_prop(self, k, rng, t, x, n):
        e = self._cells(n)
        return self._prop(k, t, x, rng.random(e + (3,)), n, property_kind = 'length', indexable_element = 'cells', uom = 'm', points = True)

    def _kind_prop(self, k, rng, t, x, n):
        pk = rqp.PropertyKind(self.model, uuid = n['property_kind'])
        return self._prop(k, t, x, rng.random(self._cells(n)), n, property_kind = pk.title, local_property_kind_uuid = pk.uuid, indexable_element = 'cells', uom = pk.example_uom)

    def _frame_prop(self, k, rng, t, x, n):
        fr = rqw.WellboreFrame(self.model, uuid = n['frame'])
        n['_support'] = n['frame']
        return self._prop(k, t, x, rng.random(fr.node_count), n, property_kind = 'length', indexable_element = 'nodes', uom = 'm')

    def _gcs(self, k, rng, t, x, n):
        grid = grr.any_grid(self.model, uuid = n['regular_grid'])
        faces = np.zeros((grid.nk, grid.nj - 1, grid.ni), dtype = bool)
        faces[:, 0, :] = True
        g = rqf.GridConnectionSet(self.model, grid = grid, j_faces = faces, feature_name = t, create_organizing_objects_where_needed = True, title = t, extra_metadata = x)
        return self._xml(g)

    def _point_set(self, k, rng, t, x, n):
        return self._xml(rqs.PointSet(self.model, points_array = rng.random((2 + k % 3, 3)), crs_uuid = _uuid(n['crs']), title = t, extra_metadata = x))

    def _surface(self, k, rng, t, x, n):
        s = rqs.Surface(self.model, title = t, crs_uuid = _uuid(n['crs']), extra_metadata = x)
        s.set_from_triangles_and_points(np.array([[0, 1, 2], [1, 3, 2]][:1 + k % 2]), np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, k % 3], [1, 1, 2]]))
        return self._xml(s)

    def _surface_of_horizon(self, k, rng, t, x, n):
        s = rqs.Surface(self.model, title = t, crs_uuid = _uuid(n['crs']), extra_metadata = x)
        s.set_from_triangles_and_points(np.array([[0, 1, 2]]), np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, k % 3]]))
        s.set_represented_interpretation_root(self.model.root_for_uuid(n['horizon_interp']))
        return self._xml(s)

    def _mesh(self, k, rng, t, x, n):
        if k % 2:
            return self._xml(rqs.Mesh(self.model, mesh_flavour = 'explicit', xyz_values = rng.random((2, 3, 3)), crs_uuid = _uuid(n['crs']), title = t, extra_metadata = x))
        m = rqs.Mesh(self.model, mesh_flavour = 'regular', nj = 2, ni = 3, origin = (0.0, 0.0, 0.0), dxyz_dij = np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]), crs_uuid = _uuid(n['crs']), title = t, extra_metadata = x)
        m.create_xml()
        return m

    def _mesh_on_mesh(self, k, rng, t, x, n):
        sup = rqs.Mesh(self.model, uuid = n['mesh'])
        return self._xml(rqs.Mesh(self.model, mesh_flavour = 'ref&z', nj = 2, ni = 3, z_values = rng.random((2, 3)), z_supporting_mesh_uuid = _uuid(n['mesh']), crs_uuid = sup.crs_uuid, title = t, extra_metadata = x), use_xy_only = False)

    def _tri_mesh(self, k, rng, t, x, n):
        return self._xml(rqs.TriMesh(self.model, t_side = 10.0, nj = 3, ni = 3, z_values = rng.random((3, 3)), crs_uuid = _uuid(n['crs']), title = t, extra_metadata = x))

    def _polyline(self, k, rng, t, x, n):
        return self._xml(rql.Polyline(self.model, set_bool = bool(k % 2), set_coord = rng.random((3, 3)), set_crs = _uuid(n['crs']), title = t, extra_metadata = x))

    def _polyline_set(self, k, rng, t, x, n):
        lines = [rql.Polyline(self.model, set_bool = False, set_coord = rng.random((2 + i, 3)), set_crs = _uuid(n['crs']), title = f'line {i}') for i in range(2)]
        return self._xml(rql.PolylineSet(self.model, polylines = lines, title = t, extra_metadata = x))

    def _md_datum(self, k, rng, t, x, n):
        d = rqw.MdDatum(self.model, crs_uuid = _uuid(n['crs']), location = (10.0 * (k % 3), 0.0, -5.0), md_reference = ['kelly bushing', 'mean sea level'][k % 2], title = t, extra_metadata = x)
        d.create_xml()
        return d

    def _trajectory(self, k, rng, t, x, n):
        d = rqw.MdDatum(self.model, uuid = n['md_datum'])
        xyz = np.array(d.location) + np.array([[0.0, 0, 0], [0, 0, 100], [20, 5, 250 + k % 3]])
        return self._xml(rqw.Trajectory(self.model, md_datum = d, mds = np.array([0.0, 100, 260]), control_points = xyz, length_uom = 'm', well_name = t, extra_metadata = x))

    def _traj_of_interp(self, k, rng, t, x, n):
        d = rqw.MdDatum(self.model, uuid = n['md_datum'])
        xyz = np.array(d.location) + np.array([[0.0, 0, 0], [0, 0, 100], [20, 5, 250 + k % 3]])
        wi = rqo.WellboreInterpretation(self.model, uuid = n['wellbore_interp'])
        return self._xml(rqw.Trajectory(self.model, md_datum = d, mds = np.array([0.0, 100, 260]), control_points = xyz, length_uom = 'm', well_name = t, represented_interp = wi, extra_metadata = x))

    def _deviation(self, k, rng, t, x, n):
        d = rqw.MdDatum(self.model, uuid = n['md_datum'])
        return self._xml(rqw.DeviationSurvey(self.model, title = t, md_datum = d, md_uom = 'm', angle_uom = 'degrees', measured_depths = np.array([0.0, 10, 20]), azimuths = np.array([0.0, 5, 10]), inclinations = np.array([0.0, 1, 2]), station_count = 3, first_station = tuple(d.location), is_final = bool(k % 2), extra_metadata = x))

    def _frame(self, k, rng, t, x, n):
        tr = rqw.Trajectory(self.model, uuid = n['trajectory'])
        return self._xml(rqw.WellboreFrame(self.model, trajectory = tr, mds = np.array([0.0, 50, 120, 200 + k % 3]), title = t, extra_metadata = x))

    def _marker_frame(self, k, rng, t, x, n):
        tr = rqw.Trajectory(self.model, uuid = n['trajectory'])
        mf = rqw.WellboreMarkerFrame.from_dataframe(self.model, tr.uuid, _marker_df(k), title = t)
        if x:
            mf.extra_metadata = x
        return self._xml(mf)

    def _blocked_well(self, k, rng, t, x, n):
        grid = grr.any_grid(self.model, uuid = n['regular_grid'], find_properties = False)
        bw = rqw.BlockedWell(self.model, grid = grid, column_ji0 = (0, 0), well_name = t, extra_metadata = x)
        bw.write_hdf5()
        bw.create_xml(create_for_trajectory_if_needed = True)
        return bw


def _uuid(s):
    import resqpy.olio.uuid as bu
    return bu.uuid_from_string(s)


def _marker_df(k):
    import pandas as pd
    return pd.DataFrame({'MD': [10.0, 20.0 + k % 3], 'Boundary_Feature_Type': ['horizon', 'fault'], 'Marker_Citation_Title': ['a', 'b'], 'Interp_Citation_Title': ['a', 'b']})


# ------------------------------------------------------------------ independent reading of an epc file

UUID_RE = re.compile(r'([0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12})')


def local(tag):
    return tag.rsplit('}', 1)[-1] if isinstance(tag, str) else ''


def canon_xml(root):
    """Canonical nested tuple for an xml element: tag, sorted attributes, text (whitespace-only text next to children ignored), children."""
    kids = [canon_xml(c) for c in root if isinstance(c.tag, str)]
    text = root.text or ''
    if not text.strip() and (kids or not text):
        text = ''
    return (root.tag, tuple(sorted((a, re.split('[}:]', v)[-1] if a.endswith('}type') else v) for a, v in root.attrib.items())), text.strip() if kids else text.strip('\n'), tuple(kids))


def refs_of(root):
    """Set of uuids referred to in a part's xml by data object reference nodes, excluding hdf5 proxies."""
    out = set()
    for e in root.iter():
        if not isinstance(e.tag, str):
            continue
        ct = uu = None
        for c in e:
            if local(c.tag) == 'ContentType':
                ct = c.text
            elif local(c.tag) == 'UUID':
                uu = c.text
        if ct is not None and uu is not None and 'EpcExternalPart' not in ct:
            m = UUID_RE.search(uu)
            if m:
                out.add(m.group(1).lower())
    return out


def read_epc(path):
    """dict: part name -> dict(type, uuid, title, xml, refs, rels), for the uuid'd parts named in [Content_Types].xml; plus '_problems'."""
    parts, problems = {}, []
    with zipfile.ZipFile(path) as z:
        names = z.namelist()
        if len(names) != len(set(names)):
            problems.append('duplicate names in zip: ' + str(sorted({n for n in names if names.count(n) > 1})[:3]))
        ct = etree.fromstring(z.read('[Content_Types].xml'))
        listed = []
        for c in ct:
            if local(c.tag) == 'Override':
                n = c.get('PartName').lstrip('/')
                if n in listed:
                    problems.append('part listed twice in content types: ' + n)
                listed.append(n)
                if 'docProps' in n:
                    continue
                if n not in names:
                    problems.append('listed part is not in file: ' + n)
                    continue
                root = etree.fromstring(z.read(n))
                typ = c.get('ContentType').split('type=')[-1]
                uuid = (root.get('uuid') or '').lower()
                title = None
                for e in root:
                    if local(e.tag) == 'Citation':
                        for f in e:
                            if local(f.tag) == 'Title':
                                title = f.text
                m = UUID_RE.search(n)
                if not m or m.group(1).lower() != uuid:
                    problems.append(f'uuid {uuid} does not match part name {n}')
                parts[n] = dict(type = typ, uuid = uuid, title = title, xml = canon_xml(root), refs = refs_of(root), rels = None)
        for n in names:
            if n.startswith('docProps') or n.startswith('[') or n.startswith('_rels') or '/_rels/' in n:
                continue
            if n not in parts:
                problems.append('file holds a part which is not listed: ' + n)
        for n in names:
            if n.startswith('_rels/') and n != '_rels/.rels':
                target = n[len('_rels/'):-len('.rels')]
                if target not in parts:
                    problems.append('rels part for absent part: ' + n)
                    continue
                root = etree.fromstring(z.read(n))
                rels = []
                for r in root:
                    if local(r.tag) == 'Relationship':
                        rels.append((local(r.get('Type').rsplit('/', 1)[-1]), r.get('Target')))
                parts[target]['rels'] = sorted(rels)
    return parts, problems


def part_of(model, uuid):
    return model.part_for_uuid(_uuid(str(uuid)))


def mem_state(model):
    """What the in-memory model says: part name -> dict(type, uuid, title, xml, refs), from public queries."""
    out = {}
    for part in model.list_of_parts(only_objects = False):
        root = model.root_for_part(part)
        raw = etree.tostring(root) if root is not None else None
        r2 = etree.fromstring(raw) if raw is not None else None
        out[part] = dict(type = model.type_of_part(part), uuid = str(model.uuid_for_part(part)).lower(), title = model.title_for_part(part),
                         xml = canon_xml(r2) if r2 is not None else None, refs = refs_of(r2) if r2 is not None else set())
    return out


def xml_diff(a, b, path = ''):
    """First difference between two canonical xml tuples, as text, or None."""
    if a is None or b is None:
        return None if a == b else f'{path}: {str(a)[:60]} v {str(b)[:60]}'
    here = path + '/' + local(a[0])
    if a[:3] != b[:3]:
        return f'{here}: got {a[:3]}, expected {b[:3]}'
    if len(a[3]) != len(b[3]):
        return f'{here}: children {[local(c[0]) for c in a[3]]} expected {[local(c[0]) for c in b[3]]}'
    for c, d in zip(a[3], b[3]):
        r = xml_diff(c, d, here)
        if r:
            return r
    return None
