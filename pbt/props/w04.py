"""property-based testing: frames, logs, markers and derived properties reread and compared with the generated data

Random wellbore frames with node and interval properties, logs passed through LAS text, marker frames of every kind of marker,
trajectory files and cell logs are written, read again and compared with what was generated, in order.  Wellbore frame
intervals overlapping the cells of random blocked wells (with gaps, shared depths and nulls) are compared with overlaps, and
derived cell properties with values, worked out here.
"""
import io
import math
import os
import warnings
import lasio
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.grid as grr
import resqpy.organize as rqo
import resqpy.property as rqp
import resqpy.time_series as rqts
import resqpy.well as rqw
import resqpy.olio.uuid as bu

from pbt.core import *
from pbt.lib.gen import *

seeds = st.integers(0, 10 ** 6)
names = st.sampled_from(['Well 2', 'A-1', 'W', 'north sea 5/7'])
FT = 0.3048


def make_crs(m, **kw):
    crs = rqc.Crs(m, **kw)
    crs.create_xml()
    return crs


def make_traj(m, crs, mds, xyz, uom = 'm', title = 'W', interp = True):
    datum = rqw.MdDatum(m, crs_uuid = crs.uuid, location = tuple(xyz[0]), md_reference = 'kelly bushing')
    datum.create_xml()
    wi = None
    if interp:
        wf = rqo.WellboreFeature(m, feature_name = title)
        wf.create_xml()
        wi = rqo.WellboreInterpretation(m, title = title, wellbore_feature = wf, is_drilled = True)
        wi.create_xml()
    df = pd.DataFrame(dict(MD = mds, X = xyz[:, 0], Y = xyz[:, 1], Z = xyz[:, 2]))
    t = rqw.Trajectory(m, md_datum = datum, data_frame = df, length_uom = uom, represented_interp = wi, well_name = title, set_tangent_vectors = False)
    t.write_hdf5()
    t.create_xml()
    return t


def wander(rng, n = 6, top = 0.0):
    mds = top + np.concatenate(([0.0], np.cumsum(rng.uniform(20.0, 300.0, n - 1))))
    xyz = np.cumsum(rng.uniform(-50.0, 50.0, (n, 3)), axis = 0)
    xyz[:, 2] = 10.0 + np.cumsum(rng.uniform(10.0, 200.0, n))
    return np.round(mds, 3), np.round(xyz, 3)


def some_mds(rng, n, lo, hi, repeats):
    mds = np.sort(np.round(rng.uniform(lo, hi, n), 3))
    if repeats:
        for k in rng.integers(0, n, 1 + n // 4):
            mds[k] = mds[max(k - 1, 0)]
    return np.sort(mds)


def want_interval(mds, md):
    """Acceptable (index, fraction or None) answers."""
    if md < mds[0]:
        return [(-1, 0.0)]
    if md > mds[-1]:
        return [(-1, 1.0)]
    out = []
    for i in range(len(mds) - 1):
        if mds[i] <= md <= mds[i + 1]:
            out.append((i, None if mds[i + 1] == mds[i] else (md - mds[i]) / (mds[i + 1] - mds[i])))
    return out


def log_data(rng, n, kind, cols = 0):
    shape = (n,) if not cols else (n, cols)
    if kind == 'int':
        return rng.integers(-5, 100, shape)
    a = np.round(rng.uniform(-100.0, 1000.0, shape), 4)
    if kind == 'nan':
        a[rng.random(shape) < 0.3] = np.nan
    return a


@check('frames', st.fixed_dictionaries(dict(seed = seeds, n = st.integers(2, 12), repeats = st.booleans(), interp = st.sampled_from(['given', 'traj', 'made', 'none']), title = st.sampled_from(['', 'logs', 'Frame 7']), props = st.lists(st.tuples(st.sampled_from(['nodes', 'intervals']), st.sampled_from(['nan', 'int', 'float']), st.sampled_from([0, 0, 0, 3])), max_size = 5), extra = st.booleans(), aslist = st.booleans(), real = st.booleans())),
       quick = 110, rule = 'frame with properties')
def frames(s, ctx):
    """Wellbore frames and their properties reread."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('f')
    crs = make_crs(m)
    tm, txyz = wander(rng)
    t = make_traj(m, crs, tm, txyz, interp = s['interp'] != 'made')
    mds = some_mds(rng, s['n'], tm[0], tm[-1], s['repeats'])
    kw = {}
    if s['interp'] == 'given':
        kw['represented_interp'] = t.wellbore_interpretation
    if s['extra']:
        kw['extra_metadata'] = {'source': 'tool b', 'run': '2'}
    f = rqw.WellboreFrame(m, trajectory = t, mds = list(mds) if s['aslist'] else mds, title = s['title'] or None, originator = 'me', **kw)
    if s['interp'] == 'made':
        f.create_feature_and_interpretation()
    f.write_hdf5()
    f.create_xml()
    title = s['title'] or 'wellbore frame'
    made = []
    for k, (ind, kind, cols) in enumerate(s['props']):
        a = log_data(rng, s['n'] - (ind == 'intervals'), kind, cols)
        real = (k % 3) if s['real'] else None
        p = rqp.Property.from_array(m, a, source_info = 'test', keyword = f'log {k}', property_kind = 'discrete' if kind == 'int' else 'porosity', support_uuid = f.uuid, indexable_element = ind, discrete = kind == 'int', uom = None if kind == 'int' else 'm3/m3', count = cols or 1, realization = real)
        made.append((p.uuid, ind, kind, a, f'log {k}', real))
    if made:
        ctx.nontrivial()
    other = rqw.WellboreFrame(m, trajectory = t, mds = [0.0, 1.0], title = 'other')  # a second frame with a log
    other.write_hdf5()
    other.create_xml()
    rqp.Property.from_array(m, np.array([1.0, 2.0]), source_info = '', keyword = 'log 0', property_kind = 'porosity', support_uuid = other.uuid, indexable_element = 'nodes', uom = 'm3/m3')
    m2 = ctx.reopen(m)
    for model, fr in ((m2, rqw.WellboreFrame(m2, uuid = f.uuid)), (m, f), (m, rqw.WellboreFrame(m, uuid = f.uuid))):
        eq(fr.node_count, s['n'], 'node count')
        arr_eq(np.asarray(fr.node_mds), mds, 'measured depths of frame')
        eq(fr.title, title, 'title of frame')
        ok(bu.matching_uuids(fr.trajectory.uuid, t.uuid), 'trajectory of frame')
        ok(bu.matching_uuids(fr.extract_crs_uuid(), crs.uuid), 'crs of frame')
        if s['interp'] == 'given':
            ok(bu.matching_uuids(fr.wellbore_interpretation.uuid, t.wellbore_interpretation.uuid), 'interpretation of frame')
        elif s['interp'] == 'made':
            if s['title']:
                eq(fr.wellbore_interpretation.title, s['title'], 'interpretation made for frame')
            ok(bu.matching_uuids(fr.wellbore_interpretation.uuid, f.wellbore_interpretation.uuid), 'uuid of made interpretation')
        if s['extra']:
            eq({k: fr.extra_metadata.get(k) for k in ('source', 'run')}, kw['extra_metadata'], 'extra metadata of frame')
        probe = list(mds) + list(rng.uniform(tm[0] - 10.0, tm[-1] + 10.0, 5)) + [mds[0] - 1.0, mds[-1] + 1.0]
        for md in probe:
            ii, fr_ = fr.interval_for_md(md)
            want = want_interval(mds, md)
            good = any(i == ii and (math.isfinite(fr_) and (x is None and 0.0 <= fr_ <= 1.0 or x is not None and abs(x - fr_) < 1e-9)) for i, x in want)
            ok(good, f'interval for md {md}: {(ii, fr_)} is not one of {want}')
        if fr is f and model is m:
            continue  # property collection was not made at start
        pc = fr.extract_property_collection()
        eq(pc.number_of_parts(), len(made), 'number of frame properties')
        logs = fr.extract_log_collection(refresh = True)
        eq(sorted(w.title for w in logs.iter_logs()), [x[4] for x in made if x[1] == 'nodes'], 'logs of frame')
        got = {str(w.uuid): w for w in logs.iter_logs()}
        for uuid, ind, kind, a, name, real in made:
            part = model.part_for_uuid(uuid)
            eq(pc.indexable_for_part(part), ind, 'indexable element')
            eq(pc.continuous_for_part(part), kind != 'int', 'continuous')
            eq(pc.realization_for_part(part), real, 'realization')
            arr_eq(pc.cached_part_array_ref(part), a, f'{ind} property values')
            if ind == 'nodes':
                arr_eq(got[str(uuid)].values(), a, 'log values')
        if s['real']:
            for real in range(3):
                c = rqp.WellLogCollection(frame = fr, realization = real)
                eq(sorted(w.title for w in c.iter_logs()), [x[4] for x in made if x[1] == 'nodes' and x[5] == real], 'logs of realization')


UNITS = ['gAPI', 'm3/m3', 'ohm.m', 'g/cm3', 'us/ft', 'mD', '%', 'degC', 'm', 'ft']
log_specs = st.lists(st.tuples(st.sampled_from(['GR', 'PHI', 'RES_DEEP', 'RHOB', 'DT', 'perm', 'SW', 'porosity', 'Z9']), st.sampled_from(['nan', 'int', 'float']), st.sampled_from(UNITS)), min_size = 1, max_size = 5, unique_by = lambda x: x[0].lower())


@check('logs', st.fixed_dictionaries(dict(seed = seeds, n = st.integers(2, 12), logs = log_specs, uom = st.sampled_from(['m', 'ft']), las_uom = st.sampled_from(['', 'm', 'ft', 'M', 'FT']), write = st.booleans(), real = st.booleans(), title = names, version = st.sampled_from([2, 1.2]), order = st.booleans())),
       quick = 110, rule = 'nulls, or units converted')
def logs(s, ctx):
    """Log collections as tables and as LAS text, and imported again."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('f')
    crs = make_crs(m)
    tm, txyz = wander(rng)
    t = make_traj(m, crs, tm, txyz, uom = s['uom'], title = s['title'])
    mds = np.unique(some_mds(rng, s['n'], tm[0], tm[-1], False))
    if len(mds) < 2:
        mds = tm[:2].copy()
    f = rqw.WellboreFrame(m, trajectory = t, mds = mds, represented_interp = t.wellbore_interpretation)
    f.write_hdf5()
    f.create_xml()
    real = 3 if s['real'] else None
    c = rqp.WellLogCollection(frame = f, realization = real)
    data = []
    for name, kind, unit in s['logs']:
        a = log_data(rng, len(mds), kind)
        data.append(a)
        got = c.add_log(name, list(a) if s['order'] else a, unit, discrete = kind == 'int', realization = real, write = s['write'], source_info = 'here')
        if s['write']:
            eq(len(got), 1, 'uuids from add log')
            eq(m.title(uuid = got[0]), name, 'title of log added')
        else:
            ok(got is None, 'unwritten log returned something')
    if not s['write']:
        c.write_hdf5_for_imported_list()
        c.create_xml_for_imported_list_and_add_parts_to_model()
    ok(raises(lambda: c.add_log('X', data[0][:-1], 'm')), 'log of wrong length accepted')
    converted = bool(s['las_uom']) and s['las_uom'].lower() != s['uom']
    if converted or any(k == 'nan' for _, k, _ in s['logs']):
        ctx.nontrivial()
    m2 = ctx.reopen(m)
    f2 = rqw.WellboreFrame(m2, uuid = f.uuid)

    def same_logs(col, frame, what, mds, tol = 0.0, unit = True):
        arr_close(np.asarray(frame.node_mds), mds, 1e-9 + 2.0 * tol, f'measured depths of {what}')
        ls = {w.title: w for w in col.iter_logs()}
        order = [w.title for w in col.iter_logs()]
        eq(sorted(order), sorted(x[0] for x in s['logs']), f'titles of {what}')
        df = col.to_df()
        eq(list(df.columns), order, f'columns of {what}')
        arr_eq(np.asarray(df.index), np.asarray(frame.node_mds), f'index of {what}')
        withu = col.to_df(include_units = True)
        for a, (name, kind, uom) in zip(data, s['logs']):
            w = ls[name]
            discrete = kind == 'int' and unit
            if not discrete:
                eq(w.uom, uom, f'units of {what}')
            eq(withu.columns[order.index(name)], f'{name} ({w.uom})' if w.uom else name, f'column name with units, {what}')
            arr_close(w.values().astype(float), a.astype(float), tol, f'{name} of {what}')
            arr_close(df[name].to_numpy().astype(float), a.astype(float), tol, f'{name} column of {what}')
            if real is not None:
                eq(col.realization_for_part(col.model.part_for_uuid(w.uuid)), real, 'realization of log')

    for col, frame in ((c, f), (f2.logs, f2), (rqp.WellLogCollection(frame = f2, realization = real), f2)):
        same_logs(col, frame, 'logs', mds)
    las = f2.logs.to_las()
    path = ctx.path('x.las')
    las.write(path, version = s['version'])
    again = lasio.read(path, mnemonic_case = 'preserve')
    eq(str(again.well.WELL.value), s['title'], 'well name in las')
    eq([x.mnemonic for x in again.curves], ['MD'] + [w.title for w in f2.logs.iter_logs()], 'las curves')
    eq(again.curves[0].unit, s['uom'], 'las depth units')
    arr_close(np.asarray(again.index), mds, 1e-5, 'las depths')
    for a, (name, kind, uom) in zip(data, s['logs']):
        cu = again.curves[name]
        if kind != 'int':
            eq(cu.unit, uom, 'las units')
        arr_close(np.asarray(cu.data, dtype = float), a.astype(float), 1e-5, f'las {name}')
    m3 = ctx.new_model('g')
    crs = make_crs(m3)
    t3 = make_traj(m3, crs, tm, txyz, uom = s['uom'], title = s['title'])
    for name, _, uom in s['logs']:
        again.curves[name].unit = uom
    exp = mds
    if s['las_uom']:
        again.curves[0].unit = s['las_uom']
        if converted:
            exp = mds * (FT if s['uom'] == 'm' else 1.0 / FT)
    before = np.array(again.index)
    with warnings.catch_warnings(record = True) as ws:
        warnings.simplefilter('always')
        c3, f3 = rqw.add_las_to_trajectory(again, t3, realization = real, check_well_name = True)
    eq([w for w in ws if 'does not match' in str(w.message)], [], 'warnings about well name')
    arr_eq(np.array(again.index), before, 'las object depths after import')
    same_logs(c3, f3, 'imported las', exp, 1e-5, False)
    m4 = ctx.reopen(m3)
    f4 = rqw.WellboreFrame(m4, uuid = f3.uuid)
    ok(bu.matching_uuids(f4.wellbore_interpretation.uuid, t3.wellbore_interpretation.uuid), 'interpretation of las frame')
    ok(bu.matching_uuids(f4.trajectory.uuid, t3.uuid), 'trajectory of las frame')
    same_logs(f4.logs, f4, 'reread las', exp, 1e-5, False)


KINDS = ['oil down to', 'water oil contact', 'seal', 'gas up to', 'fault', 'geobody', 'horizon', 'gas down to', 'free water contact', 'water up to', 'gas oil contact', 'oil up to', 'gas water contact', 'water down to']
marks = st.lists(st.tuples(st.sampled_from(KINDS + ['horizon', 'horizon', 'fault']), st.sampled_from(['Top A', 'm 2', 'base', 'x']), st.sampled_from(['TopA', 'TopB', 'F1', None])), min_size = 1, max_size = 6)


@check('markers', st.fixed_dictionaries(dict(seed = seeds, marks = marks, cols = st.booleans(), nointerp = st.booleans(), index = st.booleans(), upper = st.booleans(), exist = st.booleans(), strict = st.booleans(), extra = st.booleans(), title = st.sampled_from(['', 'picks']), outside = st.booleans())),
       quick = 110, rule = 'two kinds of marker')
def markers(s, ctx):
    """Marker frames from tables, reread and tabulated."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('f')
    crs = make_crs(m)
    tm, txyz = wander(rng, top = float(rng.choice([0.0, 100.0])))
    t = make_traj(m, crs, tm, txyz)
    n = len(s['marks'])
    mds = some_mds(rng, n, tm[0], tm[-1], True) if n > 1 else np.array([tm[1]])
    if s['outside']:
        mds[-1] = tm[-1] + 5.0
    cols = ['depth', 'kind', 'name', 'surface'] if s['cols'] else ['MD', 'Boundary_Feature_Type', 'Marker_Citation_Title', 'Interp_Citation_Title']
    organic = ('horizon', 'fault', 'geobody')
    interps = [x[2] if x[0] in organic else None for x in s['marks']]
    if s['nointerp']:
        interps = [None] * n
    have = {}
    if s['exist']:
        for kind, name in sorted(set((k[0], i) for k, i in zip(s['marks'], interps) if i is not None)):
            if s['strict'] or rng.random() < 0.5:
                have[(kind, name)] = rqw.WellboreMarkerFrame._create_feature_and_interpretation(m, kind, name)
    df = pd.DataFrame({cols[0]: mds, cols[1]: [x[0].upper() if s['upper'] else x[0] for x in s['marks']], cols[2]: [x[1] for x in s['marks']]})
    if not s['nointerp']:
        df[cols[3]] = interps
    if s['index']:
        df.index = np.arange(n)[::-1] * 10 + 7
    if len(set(x[0] for x in s['marks'])) > 1:
        ctx.nontrivial()
    kw = dict(md_col = cols[0], boundary_feature_type_col = cols[1], marker_citation_title_col = cols[2], interp_citation_title_col = cols[3]) if s['cols'] else {}
    create = not (s['strict'] and (s['exist'] or s['seed'] % 2))
    make = lambda: rqw.WellboreMarkerFrame.from_dataframe(m, t.uuid, df, create_organizing_objects_where_needed = create, title = s['title'] or None, **kw)
    if not create and any(i is not None and (k[0], i) not in have for k, i in zip(s['marks'], interps)):
        ok(raises(make), 'missing interpretation accepted')
        return
    f = make()
    if s['extra']:
        for k, mk in enumerate(f.marker_list):
            mk.extra_metadata = {'quality': str(k), 'by': 'eye'}
            mk.originator = 'somebody'
    before = [str(mk.uuid) for mk in f.marker_list]
    f.write_hdf5()
    f.create_xml()
    xyz = np.stack([np.interp(mds, tm, txyz[:, a]) for a in range(3)], axis = -1)
    xyz[mds > tm[-1]] = np.nan
    m2 = ctx.reopen(m)
    for model, fr in ((m, f), (m2, rqw.WellboreMarkerFrame(m2, uuid = f.uuid)), (m, rqw.WellboreMarkerFrame(m, uuid = f.uuid))):
        eq(fr.node_count, n, 'number of markers')
        eq(fr.title, s['title'] or 'wellbore marker framework', 'title of marker frame')
        arr_eq(np.asarray(fr.node_mds), mds, 'measured depths of markers')
        ok(bu.matching_uuids(fr.trajectory_uuid, t.uuid), 'trajectory of marker frame')
        eq([str(mk.uuid) for mk in fr.marker_list], before, 'uuids of markers')
        eq([mk.marker_type for mk in fr.marker_list], [x[0] for x in s['marks']], 'types of markers')
        eq([mk.title for mk in fr.marker_list], [x[1] for x in s['marks']], 'titles of markers')
        eq([mk.marker_index for mk in fr.marker_list], list(range(n)), 'indices of markers')
        first = {}
        for k, (mk, (kind, _, _), name) in enumerate(zip(fr.marker_list, s['marks'], interps)):
            u = mk.interpretation_uuid
            if name is None:
                ok(u is None, f'interpretation given to {kind} marker without one')
                continue
            eq(model.title(uuid = u), name, 'interpretation of marker')
            eq(model.type_of_uuid(u, strip_obj = True), {'horizon': 'HorizonInterpretation', 'fault': 'FaultInterpretation', 'geobody': 'GeobodyBoundaryInterpretation'}[kind], 'type of interpretation')
            if (kind, name) in have:
                ok(bu.matching_uuids(u, have[(kind, name)]), 'existing interpretation not used')
            first.setdefault((kind, name), (k, u))
            ok(bu.matching_uuids(u, first[(kind, name)][1]), 'interpretation of same title not shared')
            if s['extra']:
                eq(mk.originator, 'somebody', 'originator of marker')
        if s['extra']:
            eq([mk.extra_metadata for mk in fr.marker_list], [{'quality': str(k), 'by': 'eye'} for k in range(n)], 'extra metadata of markers')
        for k, u in first.values():
            eq(fr.find_marker_index_from_interp(u), k, 'marker found for interpretation')
            eq(fr.find_marker_index_from_interp(str(u)), k, 'marker found for interpretation string')
        ok(fr.find_marker_index_from_interp(bu.new_uuid()) is None, 'marker found for unknown interpretation')
        for k in range(n):
            ok(fr.find_marker_from_index(k) is fr.marker_list[k], 'marker at index')
        ok(fr.find_marker_from_index(n) is None, 'marker past the end')
        got = fr.dataframe()
        eq(list(got.columns), ['X', 'Y', 'Z', 'MD', 'Boundary_Feature_Type', 'Marker_Citation_Title', 'Interp_Citation_Title'], 'marker columns')
        arr_close(got[['X', 'Y', 'Z']].to_numpy(dtype = float), xyz, 1e-6, 'marker positions')
        arr_eq(got['MD'].to_numpy(), mds, 'marker depths in table')
        eq(list(got['Boundary_Feature_Type']), [x[0] for x in s['marks']], 'types in table')
        eq(list(got['Marker_Citation_Title']), [x[1] for x in s['marks']], 'titles in table')
        eq([None if pd.isnull(x) else x for x in got['Interp_Citation_Title']], interps, 'interpretations in table')
    nodes = [x for x in m2.root_for_uuid(f.uuid).iter() if x.tag.endswith('}Interpretation')]
    eq([x.find('{*}ContentType').text.split('=')[-1] for x in nodes], ['obj_' + {'horizon': 'HorizonInterpretation', 'fault': 'FaultInterpretation', 'geobody': 'GeobodyBoundaryInterpretation'}[k[0]] for k, i in zip(s['marks'], interps) if i is not None], 'content types of references')
    interp_uuids = [mk.interpretation_uuid for mk in f.marker_list]
    for u in interp_uuids:
        if u is not None:
            ok(m2.part_for_uuid(f.uuid) in m2.parts(related_uuid = u), 'marker frame not related to interpretation')
    t2 = rqw.Trajectory(m2, uuid = t.uuid)
    again = rqw.WellboreMarkerFrame.from_dataframe(m2, t2.uuid, got, title = 'again')
    eq([(mk.marker_type, mk.title, None if mk.interpretation_uuid is None else str(mk.interpretation_uuid)) for mk in again.marker_list],
       [(k[0], k[1], None if u is None else str(u)) for k, u in zip(s['marks'], interp_uuids)], 'markers from their own table')
    arr_eq(again.node_mds, mds, 'depths from own table')


# blocked wells with gaps

BW = dict(seed = seeds, nk = st.integers(1, 5), legs = st.integers(1, 4), stretch = st.sampled_from([1.0, 1.25]), uom = st.sampled_from(['m', 'm', 'ft']))


def blocked(m, s, rng):
    """Zigzag trajectory through a grid of two columns; blocked well."""
    make_crs(m)
    dz = 20.0
    grid = grr.RegularGrid(m, extent_kji = (s['nk'], 1, 2), dxyz = (100.0, 100.0, dz), origin = (0.0, 0.0, 1000.0), crs_uuid = m.crs_uuid, set_points_cached = True, as_irregular_grid = True)
    grid.write_hdf5()
    grid.create_xml(write_geometry = True, write_active = False)
    depth = s['nk'] * dz
    pts = [[float(rng.uniform(10.0, 90.0)), float(rng.uniform(10.0, 90.0)), 1000.0 - 15.3]]
    for k in range(s['legs']):
        out = k % 2 == 0 and s['legs'] > 1
        pts.append([float(rng.uniform(230.0, 400.0)) if out else float(rng.uniform(10.0, 90.0)), float(rng.uniform(10.0, 90.0)), 1000.0 + (depth + 12.7) * (k + 1) / s['legs'] + float(rng.uniform(0.0, 2.0))])
    pts = np.array(pts)
    mds = s['stretch'] * np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(pts, axis = 0), axis = 1))))
    t = make_traj(m, rqc.Crs(m, uuid = m.crs_uuid), mds, pts, uom = s['uom'])
    bw = rqw.BlockedWell(m, grid = grid, trajectory = t)
    return grid, t, bw, mds


def overlaps(bw, mds):
    """List per cell of (frame interval, fraction of it, fraction of cell), and cell lengths."""
    out, lengths = [], []
    for k in range(bw.node_count - 1):
        if bw.grid_indices[k] < 0:
            continue
        a, b = bw.node_mds[k], bw.node_mds[k + 1]
        lengths.append(b - a)
        here = []
        for i in range(len(mds) - 1):
            p, q = mds[i], mds[i + 1]
            o = min(b, q) - max(a, p)
            if o > 1e-9:
                here.append((i, o / (q - p), o / (b - a)))
        out.append(here)
    return out, np.array(lengths)


PK = ['well connection open', 'permeability length', 'skin', 'wellbore radius', 'length', 'active']


@check('derived', st.fixed_dictionaries(dict(BW, n = st.integers(2, 8), shared = st.sampled_from([2, 1, 0]), repeats = st.booleans(), kinds = st.lists(st.sampled_from(PK[:-1]), unique = True, max_size = 4), only = st.booleans(), dynamic = st.integers(0, 2), real = st.sampled_from([None, None, 0, 2]), length = st.sampled_from([None, True, False]), pperf = st.sampled_from([None, True, False]), dominant = st.booleans(), named = st.booleans(), active = st.booleans())),
       quick = 130, rule = 'cell meeting two intervals and interval meeting two cells')
def derived(s, ctx):
    """Frame intervals mapped to cells of a blocked well, and properties derived."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('b')
    grid, t, bw, tm = blocked(m, s, rng)
    if not bw.cell_count:
        return
    bw.write_hdf5()
    bw.create_xml()
    cell_mds = np.asarray(bw.node_mds)
    mds = some_mds(rng, s['n'], 0.0 if s['seed'] % 2 else cell_mds[0], tm[-1], s['repeats'])
    for _ in range(s['shared']):  # depths also of cell boundaries
        mds[int(rng.integers(0, s['n']))] = cell_mds[int(rng.integers(0, len(cell_mds)))]
    mds = np.sort(mds)
    if mds[-1] - mds[0] < 1.0:
        mds[0], mds[-1] = 0.0, tm[-1]
    f = rqw.WellboreFrame(m, trajectory = t, mds = mds, title = 'perfs', represented_interp = t.wellbore_interpretation)
    f.write_hdf5()
    f.create_xml()
    if s['named']:
        g = rqw.WellboreFrame(m, trajectory = t, mds = [0.0, 10.0], title = 'other')
        g.write_hdf5()
        g.create_xml()
    ex, lengths = overlaps(bw, mds)
    if any(len(x) > 1 for x in ex) and len(set(i for x in ex for i, _, _ in x)) < sum(len(x) for x in ex):
        ctx.nontrivial()
    got = bw.frame_contributions_list(f)
    eq(len(got), bw.cell_count, 'contributions')
    for c, (a, b) in enumerate(zip(got, ex)):
        eq([x[0] for x in a], [x[0] for x in b], f'frame intervals meeting cell {c}')
        if b:
            arr_close(np.array([x[1:] for x in a], dtype = float), np.array([x[1:] for x in b]), 1e-9, f'fractions of frame intervals and cell {c}')
    # frame properties
    n = s['n'] - 1
    ts = None
    if s['dynamic']:
        ts = rqts.TimeSeries(m, first_timestamp = '2020-01-01')
        for d in range(3):
            ts.extend_by_days(30)
        ts.create_xml()
    props = []

    def add(a, kind, title, uom, discrete, ti = None, real = s['real']):
        p = rqp.Property.from_array(m, a, source_info = '', keyword = title, property_kind = kind, support_uuid = f.uuid, indexable_element = 'intervals', discrete = discrete, uom = uom, time_index = ti, time_series_uuid = None if ti is None else ts.uuid, realization = real, null_value = None)
        return p

    active = rng.random(n) < 0.6
    add(active.astype(np.int32), 'active', 'ACT', None, True)
    values = {}
    for kind in s['kinds']:
        dyn = kind in ('well connection open', 'permeability length', 'skin') and s['dynamic']
        times = list(range(s['dynamic'] + 1)) if dyn else [None]
        for ti in times:
            if kind == 'well connection open':
                a = (rng.random(n) < 0.5) & active
                add(a.astype(np.int32), kind, 'OPEN', None, True, ti)
            else:
                a = np.round(rng.uniform(0.1, 50.0, n), 3)
                a[rng.random(n) < 0.3] = np.nan
                add(a, kind, {'permeability length': 'KH', 'skin': 'SKIN', 'wellbore radius': 'RADW', 'length': 'LEN'}[kind], {'permeability length': 'mD.m', 'skin': 'Euc', 'wellbore radius': 'ft', 'length': s['uom']}[kind], False, ti)
            values.setdefault(kind, []).append((ti, a))
    if s['real'] is not None:  # another realization, to be ignored
        add((~active).astype(np.int32), 'active', 'ACT', None, True, real = 1)
    use = None
    if s['only']:
        use = [k for k in PK if rng.random() < 0.5]
    kinds = [k for k in list(values) + ['active'] if use is None or k in use]
    set_length = ('length' in kinds) if s['length'] is None else s['length']
    set_pperf = (not set_length and 'permeability length' not in kinds) if s['pperf'] is None else s['pperf']
    uuids = bw.add_properties_from_wellbore_frame(frame_uuid = f.uuid if s['named'] else None, property_kinds_list = use, realization = s['real'], set_length = s['length'], set_perforation_fraction = s['pperf'], set_frame_interval = s['dominant'])
    # expected
    nc = bw.cell_count
    pp = np.array([min(1.0, sum(fr for i, _, fr in x if active[i])) for x in ex])
    want = []
    if s['dominant']:
        want.append(('wellbore frame interval', None, None, 'wellbore frame interval', None))
    if 'active' in kinds:
        want.append(('active', None, np.array([any(active[i] for i, _, _ in x) for x in ex]).astype(float), 'ACT', None))
    if set_length:
        want.append(('length', None, pp * lengths, 'LENGTH', s['uom']))
    if set_pperf:
        want.append(('perforation fraction', None, pp, 'PPERF', f"{s['uom']}/{s['uom']}"))
    for kind in kinds:
        for ti, a in values.get(kind, []):
            if kind == 'wellbore radius':
                v = [np.nanmax([a[i] for i, _, _ in x]) if any(not np.isnan(a[i]) for i, _, _ in x) else np.nan for x in ex]
                want.append((kind, ti, np.array(v), 'RADW', 'ft'))
            elif kind == 'well connection open':
                want.append((kind, ti, np.array([any(a[i] for i, _, _ in x) for x in ex]).astype(float), 'OPEN', None))
            elif kind == 'permeability length':
                want.append((kind, ti, np.array([sum(a[i] * fr for i, fr, _ in x if not np.isnan(a[i])) for x in ex], dtype = float), 'KH', 'mD.m'))
            elif kind == 'skin':
                v = []
                for x in ex:
                    w = [(a[i], fr) for i, _, fr in x if not np.isnan(a[i])]
                    v.append(sum(p * q for p, q in w) / sum(q for _, q in w) if w else np.nan)
                want.append((kind, ti, np.array(v, dtype = float), 'SKIN', 'Euc'))
    eq(len(uuids), len(want), 'number of derived properties')
    m2 = ctx.reopen(m)
    b2 = rqw.BlockedWell(m2, uuid = bw.uuid)
    arr_eq(np.asarray(b2.node_mds), cell_mds, 'blocked well depths')
    for model, w in ((m2, b2), (m, rqw.BlockedWell(m, uuid = bw.uuid))):
        pc = w.extract_property_collection()
        eq(pc.number_of_parts(), len(want), 'number of blocked well properties')
        eq(sorted(str(u) for u in pc.uuids()), sorted(str(u) for u in uuids), 'uuids of derived properties')
        for kind, ti, a, title, uom in want:
            parts = [p for p in pc.parts() if pc.property_kind_for_part(p) == kind and pc.time_index_for_part(p) == ti]
            eq(len(parts), 1, f'{kind} properties at time {ti}')
            p = parts[0]
            eq(pc.citation_title_for_part(p), title, f'title of {kind}')
            eq(pc.realization_for_part(p), s['real'], f'realization of {kind}')
            eq(pc.indexable_for_part(p), 'cells', f'indexable element of {kind}')
            if uom is not None:
                eq(pc.uom_for_part(p), uom, f'units of {kind}')
            if ti is not None:
                ok(bu.matching_uuids(pc.time_series_uuid_for_part(p), ts.uuid), 'time series of derived property')
            v = np.asarray(pc.cached_part_array_ref(p)).astype(float)
            if a is not None:
                arr_close(v, a, 1e-6, f'{kind} of cells')
                continue
            eq(pc.null_value_for_part(p), -1, 'null frame interval')
            ok(f.uuid is not None and str(pc.uuid_for_part(p)) in [str(u) for u in model.uuids(related_uuid = f.uuid)], 'frame interval property not related to frame')
            for c, x in enumerate(ex):
                best = max([fr for i, _, fr in x if active[i]], default = None)
                good = [-1] if best is None else [i for i, _, fr in x if active[i] and fr > best - 1e-9]
                ok(int(v[c]) in good, f'dominant interval of cell {c} is {v[c]}, not {good}')


@check('cell_logs', st.fixed_dictionaries(dict(BW, logs = st.lists(st.tuples(st.sampled_from(['Perm', 'FACIES', 'NTG', 'ZONES', 'code', 'rock2']), st.sampled_from(['unit1', 'DISC', 'param'])), min_size = 1, max_size = 4, unique_by = lambda x: x[0]), cellio = st.booleans(), intervals = st.booleans(), first = st.booleans(), twice = st.booleans(), fresh = st.booleans())),
       quick = 110, rule = 'unblocked interval between cells')
def cell_logs(s, ctx):
    """Logs of blocked wells, directly and from cellio files."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('b')
    grid, t, bw, tm = blocked(m, s, rng)
    if not bw.cell_count:
        return
    bw.write_hdf5()
    bw.create_xml()
    nc = bw.cell_count
    cells = np.asarray(bw.cell_indices)
    blocked_at = np.where(np.asarray(bw.grid_indices) >= 0)[0]
    if np.any(np.diff(blocked_at) > 1):
        ctx.nontrivial()
    m.store_epc()
    if s['fresh']:
        m = ctx.reopen(m)
    bw = rqw.BlockedWell(m, uuid = bw.uuid)
    eq([x for x in bw.cell_grid_link if x != -1], list(range(nc)), 'links from intervals to cells')
    want = []
    if s['cellio']:
        kji = bw.cell_indices_kji0()
        kinds, tables, data = [], [], []
        for name, kind in s['logs']:
            table = {}
            if kind == 'DISC' and name != 'ZONES':
                for v in sorted(set(int(x) for x in rng.integers(0, 8, 4))):
                    table[v] = str(rng.choice(['sand', 'shale', 'marl_2', '7']))
            if kind == 'unit1' and name != 'ZONES':
                a = np.round(rng.uniform(-5.0, 2000.0, nc), 4)
            elif table:
                a = rng.choice(sorted(table), nc)
            else:
                a = rng.integers(0, 50, nc)
            tables.append(table)
            kinds.append(kind)
            data.append(a)
        path = ctx.path('bw file.dat')
        with open(path, 'w') as fp:
            for well in (['Other', 'W', 'W2'] if s['first'] else ['W', 'W2']):
                fp.write(f'1.0\nUndefined\n{well} {100.0:.1f} {200.0:.1f}\n{9 + len(kinds)}\n')
                for h in ('i_index', 'j_index', 'k_index', 'x_in', 'y_in', 'z_in', 'x_out', 'y_out', 'z_out'):
                    fp.write(f'{h} unit1 scale1\n')
                for (name, kind), table in zip(s['logs'], tables):
                    fp.write(f'{name} {kind} ' + (' '.join(f'{a} {b}' for a, b in table.items()) if table else 'scale1') + '\n')
                for c in range(nc):
                    row = ' '.join([str(x + 1) for x in kji[c][::-1]] + ['1.5 2.5 3.5 4.5 5.5 6.5'])
                    fp.write(row + ' ' + ' '.join(str(a[c] if well == 'W' else 3) for a in data) + '\n')
                fp.write('\n')
        for _ in range(2 if s['twice'] else 1):
            rqw.add_logs_from_cellio(bw, path)
            for (name, kind), a, table in zip(s['logs'], data, tables):
                want.append((f'bw file.{t.title}.{name}', kind == 'unit1' and name != 'ZONES', a, table, None))
    else:
        for k, (name, kind) in enumerate(s['logs']):
            a = rng.integers(0, 50, nc) if kind == 'DISC' else np.round(rng.uniform(0.0, 100.0, nc), 4)
            full = None
            if s['intervals'] and k % 2 == 0:
                full = np.full(bw.node_count - 1, -1 if kind == 'DISC' else np.nan, dtype = a.dtype)
                full[blocked_at] = a
            p = rqp.Property.from_array(m, a if full is None else full, source_info = '', keyword = name, property_kind = 'discrete' if kind == 'DISC' else 'porosity', support_uuid = bw.uuid, indexable_element = 'cells' if full is None else 'intervals', discrete = kind == 'DISC', uom = None if kind == 'DISC' else 'm3/m3', null_value = -1 if kind == 'DISC' else None)
            want.append((name, kind != 'DISC', a, {}, full))
    m2 = ctx.reopen(m)
    for model in (m2, m):
        w = rqw.BlockedWell(model, uuid = bw.uuid)
        col = w.logs if model is m2 else rqp.WellIntervalPropertyCollection(frame = w)
        ls = list(col.logs())
        eq(sorted(x.name for x in ls), sorted(x[0] for x in want), 'names of cell logs')
        for name, cont, a, table, full in want:
            for l in [x for x in ls if x.name == name]:
                eq(col.continuous_for_part(l.part), cont, f'{name} continuous')
                ind = col.indexable_for_part(l.part)
                v = np.asarray(l.values(), dtype = float)
                if ind == 'cells':
                    eq(v.shape, (nc,), 'shape of cell log')
                else:
                    eq(v.shape, (w.node_count - 1,), 'shape of interval log')
                    gap = np.ones(len(v), dtype = bool)
                    gap[blocked_at] = False
                    if np.any(gap):
                        ok(np.all(np.isnan(v[gap])) if cont else np.all(v[gap] == -1), f'{name}: unblocked intervals not null')
                    v = v[blocked_at]
                arr_close(v, a.astype(float), 1e-9, f'values of {name}')
                lu = col.string_lookup_uuid_for_part(l.part)
                if table:
                    ok(lu is not None, f'no lookup for {name}')
                    look = rqp.StringLookup(model, uuid = lu)
                    for c in range(nc):
                        eq(look.get_string(int(a[c])), table[int(a[c])], 'looked up string')
                else:
                    ok(lu is None or not cont, f'lookup for continuous {name}')
        if len(set(x[0] for x in want)) < len(want):
            continue
        df = col.to_pandas()
        eq(list(df.columns), [x.name for x in ls], 'columns of cell logs')
        arr_eq(np.asarray(df.index).astype(int), cells, 'cells of log table')
        for name, _, a, _, _ in want:
            arr_close(df[name].to_numpy().astype(float), a.astype(float), 1e-9, f'{name} in table')


@check('well_files', st.fixed_dictionaries(dict(seed = seeds, wells = st.lists(st.sampled_from(['W1', 'b_2', '101', 'North-3']), unique = True, min_size = 1, max_size = 4), space = st.booleans(), cols = st.booleans(), wellcol = st.sampled_from(['WELL', 'given', 'Wellname', None]), mixed = st.booleans(), comments = st.booleans(), comment = st.sampled_from(['#', '!']), zero = st.booleans(), uom = st.sampled_from(['m', 'ft']), domain = st.sampled_from([None, 'driller', 'logger']), drilled = st.booleans(), crs = st.booleans(), extra = st.booleans())),
       quick = 80, rule = 'several wells')
def well_files(s, ctx):
    """Trajectories of wells in a text table."""
    rng = np.random.default_rng(s['seed'])
    m = ctx.new_model('f')
    make_crs(m)
    head = ['WELL', 'MD', 'X', 'Y', 'Z'] if not s['cols'] else ['WELL', 'MDKB', 'East', 'North', 'TVDSS']
    head[0] = {'WELL': 'WELL', 'given': 'bore', 'Wellname': 'Wellname', None: 'well_id'}[s['wellcol']]
    rows, data = [], {}
    for w in s['wells']:
        n = int(rng.integers(2, 6))
        mds, xyz = wander(rng, n, 0.0 if s['zero'] else 55.5)
        data[w] = (mds, xyz)
        rows.append([[w] + [f'{v:.3f}' for v in (mds[k], *xyz[k])] for k in range(n)])
    if s['mixed']:  # rows of wells interleaved
        lines = []
        while any(rows):
            lines += [r.pop(0) for r in rows if r]
    else:
        lines = [x for r in rows for x in r]
    order = list(dict.fromkeys(x[0] for x in lines))
    if s['extra']:
        head.insert(2, 'flag')
        lines = [x[:2] + ['7'] + x[2:] for x in lines]
    sep = ' ' if s['space'] else ','
    path = ctx.path('wells.txt')
    with open(path, 'w') as fp:
        if s['comments']:
            fp.write(f"{s['comment']} survey of wells\n")
        fp.write(sep.join(head) + '\n')
        for k, x in enumerate(lines):
            if s['comments'] and k % 3 == 1:
                fp.write(f"{s['comment']} a, remark\n")
            fp.write(sep.join(x) + '\n')
    kw = {}
    if s['cols']:
        kw = dict(md_col = 'MDKB', x_col = 'East', y_col = 'North', z_col = 'TVDSS')
    if s['wellcol'] == 'given':
        kw['well_col'] = 'bore'
    elif s['wellcol'] is None:
        kw['well_col'] = None
    if len(s['wells']) > 1:
        ctx.nontrivial()
    got = rqw.add_wells_from_ascii_file(m, m.crs_uuid if s['crs'] else None, path, comment_character = s['comment'], space_separated_instead_of_csv = s['space'], length_uom = s['uom'], md_domain = s['domain'], drilled = s['drilled'], **kw)
    eq(len(got), 4, 'lists returned')
    eq([len(x) for x in got], [len(order)] * 4, 'objects per well')
    feats, interps, trajs, datums = got
    eq(sorted(t.title for t in trajs), sorted(order), 'trajectories')
    eq(m.number_of_parts(), 1 + 4 * len(order) + 1, 'number of parts')
    m2 = ctx.reopen(m)
    for f, i, t, d in zip(feats, interps, trajs, datums):
        w = t.title
        mds, xyz = data[w]
        f2, i2 = rqo.WellboreFeature(m2, uuid = f.uuid), rqo.WellboreInterpretation(m2, uuid = i.uuid)
        t2, d2 = rqw.Trajectory(m2, uuid = t.uuid), rqw.MdDatum(m2, uuid = d.uuid)
        eq((f2.feature_name, i2.title, t2.title, d2.title), (w, w, w, w), 'names of objects of well')
        eq(bool(i2.is_drilled), s['drilled'], 'drilled')
        ok(bu.matching_uuids(i2.feature_uuid if hasattr(i2, 'feature_uuid') and i2.feature_uuid is not None else i2.wellbore_feature.uuid, f.uuid), 'feature of interpretation')
        ok(bu.matching_uuids(t2.wellbore_interpretation.uuid, i.uuid) and bu.matching_uuids(t2.md_datum.uuid, d.uuid), 'objects of trajectory')
        eq((t2.md_uom, t2.md_domain), (s['uom'], s['domain']), 'units and domain')
        arr_close(np.asarray(t2.measured_depths), mds, 1e-9, f'depths of {w}')
        arr_close(np.asarray(t2.control_points), xyz, 1e-9, f'path of {w}')
        arr_close(np.array(d2.location), np.array([xyz[0, 0], xyz[0, 1], xyz[0, 2] if s['zero'] else 0.0]), 1e-9, f'datum of {w}')
        for o in (f2, i2, t2, d2):
            eq(rqw.well_name(o), w, 'best name')
        eq(rqw.well_name(t2.uuid, m2), w, 'best name from uuid')
